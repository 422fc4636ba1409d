"""P23 ill-posed specifications are refused, well-posed neighbours are accepted."""
import copy
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
import regreg.affine as ra
from regreg.smooth.losses import huberized_svm
from regreg.smooth.binary import logistic_loglike, probit_loglike, cloglog_loglike
from regreg.affine.block_maps import block_columns, block_rows
from rv.core import Family, Skip
from rv import catalog as C, losses as S


def accepts(case, fn, key):
    try:
        out = fn()
    except Exception as e:
        case.fail(key + ":valid-refused", "%s: %s" % (type(e).__name__, e))
    case.event("accepted")
    return out


def refuses(case, fn, key, msg=""):
    try:
        out = fn()
    except Exception as e:
        case.event("refused")
        case.event("refused:" + key)
        case.event("check:refused")
        return e
    case.fail(key + ":accepted" + (":" + msg if isinstance(msg, str) else ""), "%s gave %s" % (msg, type(out).__name__))


def eps(rng):
    """how far on the wrong side"""
    return float([1., 1e-3, 1e-9, 1e3, 1e-300][rng.integers(0, 5)])


def spoil(rng, w, value):
    w = np.array(w, float)
    w.flat[rng.integers(0, w.size)] = value
    return w


# ---------------------------------------------------------------- penalties

def pen_kinds(rng):
    n = int(C.dim(rng, 2, 9))
    q, p = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    g = rng.integers(0, max(n // 2, 1), n)
    ug = np.unique(g)
    gw = {int(k): float(rng.random()) for k in ug if rng.random() < .5}
    w = np.abs(rng.standard_normal(n)) * (rng.random(n) < .8)
    if not w.any():
        w[0] = 1.
    s = np.sort(np.abs(rng.standard_normal(n)) + .1)[::-1].copy()
    if rng.random() < .5:
        s[:] = s[0]
    simple = ["l1norm", "supnorm", "l2norm", "positive_part", "constrained_max", "constrained_positive_part", "max_positive_part"]
    mats = ["l1_l1", "l1_l2", "linf_l2", "linf_linf", "nuclear_norm", "operator_norm"]
    out = [(k, lambda k=k, **kw: getattr(rr, k)((n,), **kw)) for k in simple]
    out += [(k, lambda k=k, **kw: getattr(rr, k)((q, p), **kw)) for k in mats]
    out += [("weighted_l1norm", lambda **kw: rr.weighted_l1norm(w.copy(), **kw)),
            ("weighted_supnorm", lambda **kw: rr.weighted_supnorm(w.copy(), **kw)),
            ("slope", lambda **kw: rr.slope(s.copy(), **kw)),
            ("slope_conjugate", lambda **kw: rr.slope_conjugate(s.copy(), **kw)),
            ("group_lasso", lambda **kw: rr.group_lasso(g.copy(), weights=dict(gw), **kw)),
            ("group_lasso_dual", lambda **kw: rr.group_lasso_dual(g.copy(), weights=dict(gw), **kw)),
            ("sparse_group_lasso", lambda **kw: rr.sparse_group_lasso(g.copy(), w.copy(), weights=dict(gw), **kw)),
            ("sparse_group_lasso_dual", lambda **kw: rr.sparse_group_lasso_dual(g.copy(), w.copy(), weights=dict(gw), **kw)),
            ("sparse_group_block", lambda **kw: rr.sparse_group_block((q, p), .5, 1., **kw)),
            ("block_sum", lambda **kw: rr.block_sum(rr.supnorm, (q, p), **kw)),
            ("block_max", lambda **kw: rr.block_max(rr.l2norm, (q, p), **kw))]
    return out


def f_forms(case):
    rng = case.rng
    kinds = pen_kinds(rng)
    name, make = kinds[case.index % len(kinds)]
    case.note(kind=name)
    par = float([0., np.exp(rng.standard_normal()), 1, 1e-8][rng.integers(0, 4)])
    form = ["lagrange", "bound"][rng.integers(0, 2)]
    other = ["bound", "lagrange"][form == "bound"]
    atom = accepts(case, lambda: make(**{form: par}), "form")
    case.check(getattr(atom, form) == par and getattr(atom, other) is None, "form:kept", lambda: (atom.lagrange, atom.bound))
    par2 = float(np.exp(rng.standard_normal())) * (rng.random() < .8)
    refuses(case, lambda: make(**{form: par, other: par2}), "form:both", (par, par2))
    refuses(case, lambda: make(), "form:neither")
    refuses(case, lambda: make(**{form: -eps(rng)}), "form:negative")
    refuses(case, lambda: setattr(atom, form, -eps(rng)), "form:assigned-negative", name)
    refuses(case, lambda: setattr(atom, other, par2), "form:assigned-other", name)
    case.check(getattr(atom, form) == par and getattr(atom, other) is None, "form:kept", lambda: (atom.lagrange, atom.bound))
    accepts(case, lambda: setattr(atom, form, par2), "form")
    case.check(getattr(atom, form) == par2, "form:assigned")
    # a request that only the other form can answer
    x = rng.standard_normal(atom.shape)
    if name not in ("slope", "slope_conjugate", "block_sum", "block_max", "sparse_group_block", "sparse_group_lasso", "sparse_group_lasso_dual"):
        fn = {"lagrange": lambda a, **kw: a.bound_prox(x, **kw), "bound": lambda a, **kw: a.lagrange_prox(x, 1., **kw)}[form]
        if rng.random() < .5 and name in ("l1norm", "supnorm", "l2norm", "weighted_l1norm", "slope", "group_lasso"):
            fn = {"lagrange": lambda a, **kw: a.constraint(x, **kw), "bound": lambda a, **kw: a.seminorm(x, **kw)}[form]
        refuses(case, lambda: fn(atom), "form:missing-parameter")
        accepts(case, lambda: fn(atom, **{other: 1.}), "form:parameter")


def f_weights(case):
    rng = case.rng
    n = int(C.dim(rng, 2, 9))
    form = {["lagrange", "bound"][rng.integers(0, 2)]: 1.}
    k = case.index % 6
    if k < 2:
        cls = [rr.weighted_l1norm, rr.weighted_supnorm][k]
        w = np.abs(rng.standard_normal(n)) * (rng.random(n) < .7)
        if k and not w.any():
            w[0] = 1.
        if rng.random() < .2:
            w[rng.integers(0, n)] = np.inf
        accepts(case, lambda: cls(w.copy(), **form), "weights")
        refuses(case, lambda: cls(spoil(rng, w, -eps(rng)), **form), "weights:negative", w)
    elif k == 2:
        s = np.sort(np.abs(rng.standard_normal(n)) + .1)[::-1].copy()
        if rng.random() < .4:
            s[1:] = s[rng.integers(0, n)]
            s = np.sort(s)[::-1].copy()
        cls = [rr.slope, rr.slope_conjugate][rng.integers(0, 2)]
        accepts(case, lambda: cls(s.copy(), **form), "weights")
        b = s.copy()
        i = int(rng.integers(1, n))
        b[i] = b[i - 1] * (1 + [1e-2, 1., 1e3][rng.integers(0, 3)])
        refuses(case, lambda: cls(b, **form), "weights:increasing", b)
        b = s.copy()
        b[-int(rng.integers(1, n + 1)):] = [0., -1e-3, -1][rng.integers(0, 3)]
        refuses(case, lambda: cls(b, **form), "weights:not-positive", b)
    elif k == 5:
        g = rng.integers(0, 3, n)
        ug = [int(i) for i in np.unique(g)]
        lab = ug[rng.integers(0, len(ug))]
        gw = {i: float(np.abs(rng.standard_normal())) * (rng.random() < .8) for i in ug if i == lab or rng.random() < .6}
        bw = dict(gw)
        bw[lab] = -eps(rng)
        st = np.array([[-1, -2, -3, -4][i] for i in rng.integers(0, 4, n)] + [0, 1, 1])
        mw, mb = {0: .5, 1: 0.}, {0: .5, 1: 0.}
        mb[int(rng.integers(0, 2))] = -eps(rng)
        par = list(form.values())[0]
        mk = {"group_lasso": lambda w: rr.group_lasso(g, weights=w, **form), "group_lasso_dual": lambda w: rr.group_lasso_dual(g, weights=w, **form),
              "sparse_group_lasso": lambda w: rr.sparse_group_lasso(g, np.ones(n), weights=w, **form),
              "sparse_group_lasso_dual": lambda w: rr.sparse_group_lasso_dual(g, np.ones(n), weights=w, **form),
              "group_lasso_epigraph": lambda w: rr.group_lasso_epigraph(g, weights=w)}
        for nm in mk:
            accepts(case, lambda: mk[nm](dict(gw)), "weights")
            refuses(case, lambda: mk[nm](dict(bw)), "weights:group", nm)
        a = rr.group_lasso(g, **form)
        accepts(case, lambda: a.set_weight(lab, gw[lab]), "weights")
        refuses(case, lambda: a.set_weight(lab, -eps(rng)), "weights:group-assigned")
        case.check(a.weights[lab] == gw[lab], "weights:kept", lambda: a.weights)
        for cls in [rr.mixed_lasso, rr.mixed_lasso_dual]:
            accepts(case, lambda: cls(st, par, weights=dict(mw)), "weights")
            refuses(case, lambda: cls(st, par, weights=dict(mb)), "weights:mixed", cls.__name__)
            refuses(case, lambda: cls(st, -eps(rng), weights=dict(mw)), "form:mixed-negative", cls.__name__)
        for cls in [rr.sparse_group_block, rr.sparse_group_block_dual]:
            ab = np.abs(rng.standard_normal(2)) * (rng.random(2) < .8)
            accepts(case, lambda: cls((n, 2), ab[0], ab[1], **form), "weights")
            ab = spoil(rng, ab, -eps(rng))
            refuses(case, lambda: cls((n, 2), ab[0], ab[1], **form), "weights:block", cls.__name__)
        w = np.abs(rng.standard_normal(n))
        refuses(case, lambda: rr.sparse_group_lasso(g, spoil(rng, w, -eps(rng)), **form), "weights:lasso")
    elif k == 3:
        X = rng.standard_normal((n, n))
        cls = [rr.l1norm, rr.supnorm, rr.l2norm, rr.positive_part][rng.integers(0, 4)]
        how = rng.integers(0, 3)
        fn = [lambda **kw: cls.affine(X, rng.standard_normal(n), **kw), lambda **kw: cls.linear(X, **kw), lambda **kw: cls.shift(rng.standard_normal(n), **kw)][how]
        accepts(case, lambda: fn(**form), "keyword")
        refuses(case, lambda: fn(lagrang=1., **form), "keyword:unknown")
        refuses(case, lambda: fn(lagrange=1., bound=1.), "keyword:both")
    else:
        q = int(C.dim(rng, 2, 6))
        b = np.linalg.qr(rng.standard_normal((n, n)))[0][:int(rng.integers(1, n + 1))]
        sim = [rr.signal_approximator][0]
        A = rng.standard_normal((q, n))
        atom = rr.l1norm((n,), **form)
        x = rng.standard_normal(n)
        # a proximal problem without curvature has no solution
        Q = lambda c: rr.identity_quadratic(c, x, 0, 0)
        accepts(case, lambda: atom.proximal(Q(1.)), "curvature")
        refuses(case, lambda: atom.proximal(Q(0.)), "curvature:none")
        accepts(case, lambda: atom.smoothed(Q(.5)), "curvature")
        refuses(case, lambda: atom.smoothed(Q(0.)), "curvature:smoothing")
        aff = rr.l1norm.linear(A, lagrange=1.)
        accepts(case, lambda: aff.smoothed(rr.identity_quadratic(.5, 0, 0, 0)), "curvature")
        refuses(case, lambda: aff.smoothed(rr.identity_quadratic(0, 0, 0, 0)), "curvature:smoothing-linear")
        accepts(case, lambda: rr.smooth_conjugate(atom, Q(1.)), "curvature")
        refuses(case, lambda: rr.smooth_conjugate(atom, Q(0.)), "curvature:smooth-conjugate")
        loss = rr.signal_approximator(x)
        accepts(case, lambda: setattr(loss, "lipschitz", 0.), "curvature")
        refuses(case, lambda: setattr(loss, "lipschitz", -eps(rng)), "curvature:lipschitz")


# ---------------------------------------------------------------- losses

def loss_kinds(rng):
    """name -> (make(case_weights, coef, **data), data, [(label, spoiled data)], weight count)"""
    n, p = int(C.dim(rng, 3, 9)), int(rng.integers(1, 4))
    X = rng.standard_normal((n, p))
    y = rng.standard_normal(n)
    b = rng.integers(0, 2, n) * 1.
    m = rng.integers(1, 5, n)
    k = np.array([rng.integers(0, i + 1) for i in m]) * 1.
    cnt = rng.poisson(2, n) * 1.
    t, d = rng.integers(1, 6, n) * 1., rng.integers(0, 2, n)
    J = int(rng.integers(2, 5))
    Y = rng.integers(0, 4, (n, J)) * 1.
    Y[:, 0] += 1
    out = {}

    def binary(make, key):
        bad = [("not-binary", dict(successes=spoil(rng, b, [2., .5, -1.][rng.integers(0, 3)]))),
               ("more-than-trials", dict(successes=(lambda i: np.where(np.arange(n) == i, m + 1., k))(rng.integers(0, n)), trials=m)),
               ("negative", dict(successes=spoil(rng, k, -1.), trials=m))]
        out[key] = (make, [dict(successes=b), dict(successes=b.astype(int)), dict(successes=k, trials=m), dict(successes=m * 1., trials=m), dict(successes=m * 0., trials=m)], bad)

    for nm in ["logistic", "probit", "cloglog"]:
        binary(lambda nm=nm, **kw: getattr(rr.glm, nm)(X, **kw), "glm:" + nm)
    for nm, cls in [("logistic", logistic_loglike), ("probit", probit_loglike), ("cloglog", cloglog_loglike)]:
        binary(lambda cls=cls, **kw: cls((n,), **kw), "saturated:" + nm)
    out["glm:huber_svm"] = (lambda **kw: rr.glm.huber_svm(X, smoothing_parameter=.3, **kw), [dict(successes=b)], [])
    out["glm:gaussian"] = (lambda **kw: rr.glm.gaussian(X, **kw), [dict(response=y)], [])
    out["glm:huber"] = (lambda **kw: rr.glm.huber(X, smoothing_parameter=.3, **kw), [dict(response=y)], [])
    out["saturated:gaussian"] = (lambda **kw: rr.gaussian_loglike((n,), **kw), [dict(response=y)], [])
    badc = [("negative", dict(counts=spoil(rng, cnt, -1.))), ("fraction", dict(counts=spoil(rng, cnt, 1.5)))]
    out["glm:poisson"] = (lambda **kw: rr.glm.poisson(X, **kw), [dict(counts=cnt), dict(counts=cnt * 0), dict(counts=cnt.astype(int))], badc)
    out["saturated:poisson"] = (lambda **kw: rr.poisson_loglike((n,), **kw), [dict(counts=cnt)], badc)
    badt = [("missing-time", dict(event_times=spoil(rng, t, np.nan), censoring=d)), ("status", dict(event_times=t, censoring=spoil(rng, d, [2, -1, .5][rng.integers(0, 3)])))]
    good = [dict(event_times=t, censoring=d), dict(event_times=t, censoring=d == 1), dict(event_times=-t, censoring=d * 0)]
    out["glm:cox"] = (lambda **kw: rr.glm.cox(X, **kw), good, badt)
    out["saturated:cox"] = (lambda **kw: rr.cox_loglike((n,), **kw), good, badt)
    Yn = Y.copy()
    Yn[rng.integers(0, n), rng.integers(0, J)] = -1
    Yf = Y.copy()
    Yf[rng.integers(0, n), rng.integers(0, J)] += .5
    out["mglm:multinomial"] = (lambda **kw: rr.mglm.multinomial(X, **kw), [dict(successes=Y)], [("negative", dict(successes=Yn))])
    out["saturated:multinomial"] = (lambda **kw: rr.multinomial_loglike((n, J), **kw), [dict(counts=Y)], [("negative", dict(counts=Yn))])
    out["saturated:baseline"] = (lambda shape=None, **kw: rr.multinomial_baseline_loglike(shape or (n, J - 1), **kw), [dict(counts=Y)],
                                 [("negative", dict(counts=Yn)), ("fraction", dict(counts=Yf)), ("shape", dict(counts=Y, shape=(n, J)))])
    return n, out


def f_losses(case):
    rng = case.rng
    n, kinds = loss_kinds(rng)
    name = sorted(kinds)[case.index % len(kinds)]
    make, good, bad = kinds[name]
    case.note(kind=name)
    cp = lambda d: copy.deepcopy(d)
    g = good[rng.integers(0, len(good))]
    w = S.weights(rng, n)
    loss = accepts(case, lambda: make(**cp(g)), name)
    if w is not None:
        accepts(case, lambda: make(case_weights=np.array(w, float), **cp(g)), name)
    base = np.abs(rng.standard_normal(n)) * (rng.random(n) < .8)
    accepts(case, lambda: make(case_weights=base.copy(), **cp(g)), name)
    refuses(case, lambda: make(case_weights=spoil(rng, base, -eps(rng)), **cp(g)), "weights:negative", name)
    refuses(case, lambda: make(case_weights=spoil(rng, base, np.nan), **cp(g)), "weights:nan", name)
    refuses(case, lambda: make(case_weights=np.append(base, 1.), **cp(g)), "weights:length", name)
    if n > 2:
        refuses(case, lambda: make(case_weights=base[:-1].copy(), **cp(g)), "weights:length", name)
    accepts(case, lambda: make(coef=[0., 2.][rng.integers(0, 2)], **cp(g)), name)
    refuses(case, lambda: make(coef=-eps(rng), **cp(g)), "coef:negative", name)
    for lab, d in bad:
        refuses(case, lambda: make(**cp(d)), "response:" + lab, (name, d))
    case.event("loss:" + name)
    # a refused new response leaves the loss as it was
    if bad and name.startswith("saturated") and hasattr(type(loss), "data") and "baseline" not in name and "multi" not in name:
        x = rng.standard_normal(loss.shape)
        before = loss.smooth_objective(x, "func")
        for lab, d in bad:
            if "trials" in d or "shape" in d:
                continue
            v = list(d.values())
            new = v[0] if len(v) == 1 else np.array([np.asarray(v[0], float), np.asarray(v[1], float)]).T
            if not isinstance(getattr(type(loss), "data"), property):
                continue
            if "trials" in g:
                continue
            if name.split(":")[1] in ("logistic", "probit", "cloglog", "cox"):
                if lab != "status" and np.any(np.asarray(new) % 1 == .5):
                    continue          # the number of trials is known by now: a fraction of them may succeed
                refuses(case, lambda: setattr(loss, "data", new), "assigned:" + lab, name)


def f_algebra(case):
    rng = case.rng
    n, p, q = int(C.dim(rng, 2, 7)), int(C.dim(rng, 2, 7)), int(C.dim(rng, 2, 7))
    A = lambda a, b: rng.standard_normal((a, b))
    k = case.index % 8
    bump = int(rng.integers(1, 3))
    if k == 0:
        m = int(rng.integers(2, 4))
        ops = [A(n, p) for _ in range(m)]
        w = list(rng.standard_normal(m))
        accepts(case, lambda: rr.affine_sum(ops, w), "sum")
        refuses(case, lambda: rr.affine_sum(ops, w + [1.]), "sum:weights")
        refuses(case, lambda: rr.affine_sum(ops, w[:-1]), "sum:weights")
    elif k == 1:
        ops = [A(int(rng.integers(1, 5)), p) for _ in range(int(rng.integers(2, 5)))]
        accepts(case, lambda: ra.vstack(ops), "stack")
        i = int(rng.integers(0, len(ops)))
        bad = list(ops)
        bad[i] = A(ops[i].shape[0], p + bump)
        refuses(case, lambda: ra.vstack(bad), "stack:vertical")
        T = [o.T.copy() for o in ops]
        accepts(case, lambda: ra.hstack(T), "stack")
        refuses(case, lambda: ra.hstack([o.T.copy() for o in bad]), "stack:horizontal")
    elif k == 2:
        accepts(case, lambda: ra.residual(A(n, n)), "residual")
        refuses(case, lambda: ra.residual(A(n, n + bump)), "residual:rectangular")
    elif k == 3:
        ops = [A(n, p) for _ in range(int(rng.integers(2, 4)))]
        accepts(case, lambda: block_columns(ops), "block")
        bad = list(ops)
        bad[rng.integers(0, len(ops))] = A(n, p + bump)
        refuses(case, lambda: block_columns(bad), "block:columns")
        accepts(case, lambda: block_rows(ops), "block")
        bad = list(ops)
        bad[rng.integers(0, len(ops))] = A(n + bump, p)
        refuses(case, lambda: block_rows(bad), "block:rows")
    elif k == 4:
        L = [rr.signal_approximator(rng.standard_normal(p)) for _ in range(int(rng.integers(2, 4)))]
        w = np.abs(rng.standard_normal(len(L))) * (rng.random(len(L)) < .7)
        accepts(case, lambda: rr.smooth_sum(L, w.copy()), "smooth-sum")
        refuses(case, lambda: rr.smooth_sum(L, np.append(w, 1.)), "smooth-sum:weights")
        refuses(case, lambda: rr.smooth_sum(L, w[:-1]), "smooth-sum:weights")
        refuses(case, lambda: rr.smooth_sum(L, spoil(rng, w, -eps(rng))), "smooth-sum:negative")
    elif k == 5:
        a, b = rng.standard_normal(n), rng.standard_normal(n + bump)
        accepts(case, lambda: rr.identity_quadratic(1, a, a, 0).get_shapes(), "quadratic")
        refuses(case, lambda: rr.identity_quadratic(1, a, b, 0).get_shapes(), "quadratic:shapes")
        refuses(case, lambda: rr.identity_quadratic(1, a, a, 0) + [3, "x"][rng.integers(0, 2)], "quadratic:sum")
        refuses(case, lambda: rr.identity_quadratic(1, a, 0, 0).objective(a, mode="values"), "mode")
        refuses(case, lambda: rr.signal_approximator(a).smooth_objective(a, mode="values"), "mode")
        refuses(case, lambda: rr.simple_problem(rr.signal_approximator(a), rr.l1norm(n, lagrange=1.)).smooth_objective(a, mode="hess"), "mode")
    elif k == 6:
        loss = rr.signal_approximator(rng.standard_normal(p))
        pen = rr.l1norm(p, lagrange=1.)
        accepts(case, lambda: rr.container(loss, pen), "container")
        refuses(case, lambda: rr.container(), "container:empty")
        refuses(case, lambda: rr.container(loss, pen, [np.ones(p), 3, "pen", A(p, p)][rng.integers(0, 4)]), "container:foreign")
        g = np.zeros(p, bool)
        g[:p // 2] = True
        h = ~g
        at = lambda m: rr.l1norm(int(m.sum()), lagrange=1.)
        accepts(case, lambda: rr.separable((p,), [at(g), at(h)], [g, h], test_for_overlap=True), "separable")
        h2 = h.copy()
        h2[rng.integers(0, p // 2)] = True
        refuses(case, lambda: rr.separable((p,), [at(g), at(h2)], [g, h2], test_for_overlap=True), "separable:overlap")
    else:
        lab = np.append([0, 1], rng.integers(0, 2, n - 1))
        X = A(n + 1, p)
        accepts(case, lambda: huberized_svm(X, lab, .3), "svm")
        refuses(case, lambda: huberized_svm(X, rng.permutation(np.append([0, 1, 2], rng.integers(0, 3, n - 2))), .3), "svm:labels")
        loss = rr.glm.logistic(X, lab)
        b = rng.standard_normal(p)
        accepts(case, lambda: loss.hessian(b), "hessian")


def f_lengths(case):
    """data of the wrong length never yields an answer"""
    rng = case.rng
    n = int(C.dim(rng, 4, 10))
    m = int(n + rng.choice([-2, -1, 1, 2, 7]))
    if m < 2:
        m = n + 1
    x, bad = rng.standard_normal(n) * 3, rng.standard_normal(m) * 3
    Q = lambda v: rr.identity_quadratic(1., v, 0, 0)
    if case.index % 2:
        g = rng.integers(0, 3, n)
        w = np.abs(rng.standard_normal(n)) + .1
        st = np.array([[-1, -2, -3, -4, 0, 1][i] for i in rng.integers(0, 6, n)])
        atoms = {"weighted_l1norm": rr.weighted_l1norm(w, lagrange=1.), "weighted_supnorm": rr.weighted_supnorm(w, lagrange=1.), "slope": rr.slope(np.sort(w)[::-1], lagrange=1.),
                 "group_lasso": rr.group_lasso(g, lagrange=1.), "sparse_group_lasso": rr.sparse_group_lasso(g, w, lagrange=1.)}
        if (st >= 0).any():
            atoms["mixed_lasso"] = rr.mixed_lasso(st, lagrange=1.)
        name = sorted(atoms)[rng.integers(0, len(atoms))]
        a = atoms[name]
        case.note(kind=name, n=n, m=m)
        accepts(case, lambda: a.proximal(Q(x)), "length")
        accepts(case, lambda: a.nonsmooth_objective(x), "length")
        refuses(case, lambda: a.proximal(Q(bad)), "length:proximal", name)
        refuses(case, lambda: a.nonsmooth_objective(bad), "length:penalty", name)
        return
    t, d = rng.integers(1, 6, n) * 1., rng.integers(0, 2, n) * 1.
    tb, db = rng.integers(1, 6, m) * 1., rng.integers(0, 2, m) * 1.
    mk = {"cox": [lambda s: rr.cox_loglike((s,), t, d), lambda s: rr.glm.cox(rng.standard_normal((s, 2)), t, d)],
          "logistic": [lambda s: logistic_loglike((s,), d), lambda s: rr.glm.logistic(rng.standard_normal((s, 2)), d)],
          "probit": [lambda s: probit_loglike((s,), d), lambda s: rr.glm.probit(rng.standard_normal((s, 2)), d)],
          "cloglog": [lambda s: cloglog_loglike((s,), d), lambda s: rr.glm.cloglog(rng.standard_normal((s, 2)), d)],
          "gaussian": [lambda s: rr.gaussian_loglike((s,), x), lambda s: rr.glm.gaussian(rng.standard_normal((s, 2)), x)],
          "poisson": [lambda s: rr.poisson_loglike((s,), t), lambda s: rr.glm.poisson(rng.standard_normal((s, 2)), t)]}
    name = sorted(mk)[rng.integers(0, len(mk))]
    sat, glm = mk[name]
    mode = ["func", "grad", "both"][rng.integers(0, 3)]
    case.note(kind=name, n=n, m=m, mode=mode)
    accepts(case, lambda: sat(n).smooth_objective(x / 3, mode), "length")
    accepts(case, lambda: glm(n).smooth_objective(np.zeros(2), mode), "length")
    refuses(case, lambda: sat(n).smooth_objective(bad, mode), "length:parameter", name)
    refuses(case, lambda: sat(n).smooth_objective(x, mode, case_weights=np.abs(bad)), "length:call-weights", name)
    refuses(case, lambda: glm(m).smooth_objective(np.zeros(2), mode), "length:response", name)
    refuses(case, lambda: glm(n).smooth_objective(np.zeros(3), mode), "length:coefficients", name)
    if name == "cox":
        for k in [(t, db), (tb, d), (tb, db)]:
            refuses(case, lambda: rr.cox_loglike((n,), *k).smooth_objective(x, mode), "length:survival")
            refuses(case, lambda: rr.cox_loglike((n,), *k).hessian_mult(x, x), "length:survival")


FAMILIES = [Family("forms", f_forms, 300, 6000, need=["refused:form:both", "refused:form:neither", "refused:form:negative", "refused:form:missing-parameter"]),
            Family("weights", f_weights, 300, 5000, need=["refused:weights:negative", "refused:weights:increasing", "refused:weights:not-positive", "refused:keyword:unknown", "refused:weights:group", "refused:curvature:none"]),
            Family("losses", f_losses, 400, 8000, need=["refused:weights:negative", "refused:weights:length", "refused:coef:negative", "refused:response:negative", "refused:response:status", "refused:response:more-than-trials"]),
            Family("algebra", f_algebra, 240, 5000, need=["refused:sum:weights", "refused:stack:vertical", "refused:block:rows", "refused:smooth-sum:negative", "refused:separable:overlap"]),
            Family("lengths", f_lengths, 240, 5000, need=["refused:length:proximal", "refused:length:parameter", "refused:length:response", "refused:length:survival"])]
