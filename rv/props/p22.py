"""P22 multi-response and multinomial losses."""
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
from copy import copy
from scipy.special import logsumexp, softmax
from regreg.smooth import mglm as M, glm as G, affine_smooth
from regreg.affine.block_maps import block_columns
from rv.core import Family, Skip
from rv import catalog as C, losses as S, refloss as L
from rv.props import p19, p05

FAMS = S.ALL + ["cox"]


class Multi(object):
    """coef * sum_i w_i (n_i lse(eta_i) - <y_i, eta_i>); baseline: a last class fixed at zero"""
    def __init__(self, counts, baseline, coef=1., offset=None, w=None):
        self.y = np.asarray(counts, float)
        self.n, self.bl, self.coef = self.y.sum(1), baseline, float(coef)
        J = self.y.shape[1] - bool(baseline)
        self.off = np.zeros((len(self.y), J)) if offset is None else np.asarray(offset, float)
        self.w = np.ones(len(self.y)) if w is None else np.asarray(w, float)

    def weighted(self, w):
        return Multi(self.y, self.bl, self.coef, self.off, self.w * np.asarray(w, float))

    def full(self, x):
        e = np.asarray(x, float) - self.off
        return np.hstack([e, np.zeros((len(e), 1))]) if self.bl else e

    def val(self, x):
        e = self.full(x)
        return self.coef * self.w.dot(self.n * logsumexp(e, axis=1) - (self.y * e).sum(1))

    def grad(self, x):
        e = self.full(x)
        g = self.coef * self.w[:, None] * (self.n[:, None] * softmax(e, axis=1) - self.y)
        return g[:, :-1] if self.bl else g

    def mag(self, x): return self.coef * (self.w * (self.n + 1) * (np.abs(self.full(x)).max(1) + 2)).sum() + 1e-9
    def gmag(self, x): return self.coef * (self.w * (self.n + 1)).max() + 1e-9


class Stack(object):
    """sum of single-response references; columns (common design) or consecutive blocks"""
    def __init__(self, refs, common, coef=1., offset=None, w=None):
        self.refs, self.common, self.coef, self.off, self.w = refs, common, float(coef), offset, w

    def weighted(self, w):
        w = np.asarray(w, float)
        return Stack(self.refs, self.common, self.coef, self.off, w if self.w is None else self.w * w)

    def parts(self, x):
        x = np.asarray(x, float)
        x = x if self.off is None else x - self.off
        if self.common:
            return [(r if self.w is None else r.weighted(self.w), x[:, i]) for i, r in enumerate(self.refs)]
        out, k = [], 0
        for r in self.refs:
            m = len(r.off)
            out.append((r if self.w is None else r.weighted(self.w[k:k + m]), x[k:k + m]))
            k += m
        return out

    def val(self, x): return self.coef * sum(r.val(e) for r, e in self.parts(x))
    def mag(self, x): return self.coef * sum(r.mag(e) for r, e in self.parts(x)) + 1e-9

    def grad(self, x):
        g = [r.grad(e) for r, e in self.parts(x)]
        return self.coef * (np.array(g).T.reshape(np.shape(x)) if self.common else np.hstack(g))

    def gmag(self, x):
        return self.coef * sum(np.max(r.gmag(e)) if hasattr(r, "gmag") else r.coef * (r.w.sum() + 1) for r, e in self.parts(x)) + 1e-9


def observe(case, loss, ref, pts, key, tol=1e-9, **kw):
    so = (lambda x, mode: loss.smooth_objective(x, mode, **kw)) if kw else None
    o = p05.Obs(case, loss, ref.val, ref.grad, ref.mag, lambda x: np.max(ref.gmag(x)), key, tol, so=so)
    for x in pts:
        o(x)


def life(case, loss, ref, pts, key, n, call_weights=True):
    """observe; call-time weights; subsample chain; copy; the original unchanged"""
    rng = case.rng
    observe(case, loss, ref, pts, key)
    if call_weights and rng.random() < .5:
        cw = S.weights(rng, n)
        if cw is not None:
            observe(case, loss, ref.weighted(cw), pts, key + ":call-weights", case_weights=np.array(cw))
            case.event("call-weights")
    before = [(v, np.array(g)) for v, g in (loss.smooth_objective(x, "both") for x in pts)]
    cur, r = loss, ref
    for _ in range(int(rng.integers(1, 3))):
        keep = rng.random(n) < .7
        idx = [keep, np.nonzero(keep)[0], list(np.nonzero(keep)[0])][rng.integers(0, 3)]
        if not keep.any() and isinstance(idx, list):
            idx = keep
        cur, r = cur.subsample(idx), r.weighted(keep)
        observe(case, cur, r, pts, key + ":subsample")
        case.event("subsample")
    c2 = copy(cur)
    c2.coef = 3 * cur.coef
    r2 = copy(r)
    observe(case, cur, r, pts, key + ":after-copy-scaled")
    r2.coef = 3 * r.coef
    observe(case, c2, r2, pts, key + ":copy-scaled")
    for x, (v, g) in zip(pts, before):
        v1, g1 = loss.smooth_objective(x, "both")
        case.same(v1, v, key + ":parent-changed")
        case.same(g1, g, key + ":parent-changed")


def counts(rng, n, J):
    m = rng.integers(0, 5)
    if m == 0:
        y = np.eye(J, dtype=int)[rng.integers(0, J, n)]
    elif m == 1:
        y = rng.integers(0, 5, (n, J))
    elif m == 2:
        y = rng.multinomial(6, np.ones(J) / J, n).astype(float)
    elif m == 3:
        y = np.eye(J)[np.zeros(n, int)]
    else:
        y = rng.poisson(.7, (n, J))
    return y


def etas(rng, n, q):
    m = rng.integers(0, 7)
    return [np.zeros((n, q)), rng.standard_normal((n, q)), rng.integers(-2, 3, (n, q)), rng.uniform(-30, 30, (n, q)),
            rng.uniform(-600, 600, (n, q)), rng.standard_normal((n, q)) + rng.uniform(-90, 90, (n, 1)),
            np.asfortranarray(rng.standard_normal((n, q)) * 3)][m]


def offs2(rng, n, q):
    return [None, rng.standard_normal((n, q)), np.zeros((n, q)), rng.integers(-1, 2, (n, q))][rng.integers(0, 4)]


cp = lambda a: None if a is None else np.array(a)


def f_multinomial(case):
    rng = case.rng
    n, J = C.dim(rng, 1, 8), int(rng.integers(2, 6))
    bl = bool(case.index % 2)
    q = J - bl
    y, w, c, off = counts(rng, n, J), S.weights(rng, n), S.coef(rng), offs2(rng, n, q)
    case.note(n=n, J=J, baseline=bl, y=y, w=w, coef=c, off=off)
    yy = sp.csr_matrix(y) if rng.random() < .2 else y.copy()
    K = rr.multinomial_baseline_loglike if bl else M.multinomial_loglike
    loss = K((n, q), yy, coef=c, offset=cp(off), case_weights=cp(w))
    ref = Multi(y, bl, c, off, w)
    pts = [etas(rng, n, q) for _ in range(3)]
    life(case, loss, ref, pts, "multinomial:%s" % ("baseline" if bl else "full"), n)
    # relations inside the library
    e = pts[1]
    full = M.multinomial_loglike((n, J), y.copy(), coef=c, case_weights=cp(w))
    if bl:
        o = np.zeros((n, q)) if off is None else off
        a0, a1 = (loss.smooth_objective(x, "both") for x in (o, e))
        z = lambda x: np.hstack([x - o, np.zeros((n, 1))])
        b0, b1 = (full.smooth_objective(z(x), "both") for x in (o, e))
        m = max(ref.mag(e), ref.mag(o))
        case.close(a1[0] - a0[0], b1[0] - b0[0], "baseline-is-full:value", 1e-9, m)
        case.close(a1[1], b1[1][:, :-1], "baseline-is-full:grad", 1e-9, ref.gmag(e))
        if J == 2:
            lg = rr.logistic_loglike((n,), y[:, 0].copy(), trials=np.maximum(y.sum(1), 1), coef=c, case_weights=cp(w))
            ok = y.sum(1) > 0
            gl = lg.smooth_objective(np.clip(e - o, -400, 400)[:, 0], "grad")
            big = np.abs(e - o).max() > 400
            if not big:
                case.close(a1[1][ok, 0], gl[ok], "two-class-is-logistic", 1e-9, ref.gmag(e))
                case.event("two-class")
        case.event("baseline")
    else:
        k = rng.uniform(-50, 50, (n, 1)) * rng.choice([0.1, 1, 10])
        v, g = loss.smooth_objective(e, "both")
        v2, g2 = loss.smooth_objective(e + k, "both")
        m = ref.mag(e) + ref.mag(e + k)
        case.close(v2, v, "shift:value", 1e-9, m)
        case.close(g2, g, "shift:grad", 1e-9, ref.gmag(e) + np.abs(k).max() * 1e-3)
        case.close(g.sum(1), np.zeros(n), "shift:grad-sum", 1e-9, ref.gmag(e))
        case.event("shift")
    p05.convex(case, lambda x: loss.smooth_objective(x, "func"), np.asarray(pts[0], float), np.asarray(pts[2], float), "multinomial", ref.mag)


def build_stack(rng, common, n, K, fam=None, coef=None):
    """(list of library losses or constructor call, refs, description)"""
    sizes = [n] * K if common else [int(rng.integers(1, 6)) for _ in range(K)]
    c = S.coef(rng) if coef is None else coef
    named = fam is not None
    specs = []
    for m in sizes:
        f = fam if named else S.ALL[rng.integers(0, len(S.ALL))]     # a survival loss carries pairs as data and cannot be mixed
        if f == "cox":
            t, d = p19.data(rng, m)
            specs.append(dict(fam=f, t=t, d=d))
        else:
            s = S.Spec(rng, f, m, w=None if named else "any", off=not named, c=c if named else None)
            if named and specs and hasattr(specs[0]["s"], "eps"):
                s.eps = specs[0]["s"].eps
            specs.append(dict(fam=f, s=s))
    if named and fam in S.BINARY:
        if any(x["s"].trials is None for x in specs):
            for x in specs:
                x["s"].y, x["s"].trials = (rng.random(x["s"].n) < .5).astype(int), None
    refs = []
    for x, m in zip(specs, sizes):
        refs.append(L.Cox(x["t"], x["d"], c if named else 1.) if x["fam"] == "cox" else x["s"].ref())
    return specs, refs, sizes, c


def lib_losses(specs):
    return [rr.cox_loglike((len(x["t"]),), cp(x["t"]), cp(x["d"])) if x["fam"] == "cox" else x["s"].lib() for x in specs]


def points(rng, specs, sizes, common, k=3):
    out = []
    for _ in range(k):
        cols = [p19.eta(rng, m) if x["fam"] == "cox" else S.etas(rng, x["fam"], m, wild=False) for x, m in zip(specs, sizes)]
        cols = [np.clip(np.asarray(e, float), -9, 9) for e in cols]
        out.append(np.array(cols).T if common else np.hstack(cols))
    return out


def f_stacked(case):
    rng = case.rng
    common = bool(case.index % 2)
    cls = M.stacked_common_loglike if common else G.stacked_loglike
    fam = (FAMS + [None] * 3)[(case.index // 2) % (len(FAMS) + 3)]
    if common and fam in ("probit", "cloglog"):     # no constructor of that name
        fam = None
    n, K = C.dim(rng, 1, 7), int(rng.integers(1, 4))
    specs, refs, sizes, c = build_stack(rng, common, n, K, fam)
    tot = n if common else sum(sizes)
    shape = (n, K) if common else (tot,)
    off = [None, rng.standard_normal(shape), rng.integers(-1, 2, shape)][rng.integers(0, 3)]
    w = S.weights(rng, tot)
    outer = 1. if fam else S.coef(rng)
    case.note(common=common, fam=fam, n=n, K=K, coef=c, off=off, w=w, outer=outer,
              data=[dict(x["s"].desc()) if "s" in x else x for x in specs])
    kw = dict(offset=cp(off), case_weights=cp(w))
    if fam is None:
        loss = cls(lib_losses(specs), coef=outer, **kw)
    elif fam == "cox":
        loss = cls.cox([cp(x["t"]) for x in specs], [cp(x["d"]) for x in specs], coef=c, **kw)
    elif fam in S.BINARY:
        ys, ts = [cp(x["s"].y) for x in specs], [cp(x["s"].trials) for x in specs]
        loss = getattr(cls, fam)(ys, trials=None if ts[0] is None else ts, coef=c, **kw)
    elif fam.startswith("huber"):
        loss = getattr(cls, fam)([cp(x["s"].y) for x in specs], specs[0]["s"].eps, coef=c, **kw)
    else:
        loss = getattr(cls, fam)([cp(x["s"].y) for x in specs], coef=c, **kw)
    ref = Stack(refs, common, outer, off, w)
    life(case, loss, ref, points(rng, specs, sizes, common), "%s:%s" % ("common" if common else "stacked", fam or "mixed"), tot)
    case.event("%s:%s" % ("common" if common else "stacked", fam or "mixed"))


def f_mglm(case):
    rng = case.rng
    n, p = C.dim(rng, 1, 7), C.dim(rng, 1, 4)
    kind3 = case.index % 3
    X, A, kind = S.design(rng, n, p, ("dense", "F", "strided", "int", "csr", "csc"))
    w = S.weights(rng, n)
    if kind3 < 2:
        bl = bool(kind3)
        J = int(rng.integers(2, 5))
        q = J - bl
        y, c, so = counts(rng, n, J), S.coef(rng), offs2(rng, n, q)
        sref = Multi(y, bl, c, so)
        note = dict(y=y, coef=c, so=so)
    else:
        q = int(rng.integers(1, 4))
        specs, refs, sizes, c = build_stack(rng, True, n, q)
        c, so = S.coef(rng), offs2(rng, n, q)
        sref = Stack(refs, True, c, so)
        note = dict(data=[dict(x["s"].desc()) if "s" in x else x for x in specs], coef=c, so=so)
    po = offs2(rng, p, q)
    case.note(kind=kind, A=A, w=w, po=po, which=kind3, **note)
    if rng.random() < .5:
        if kind3 < 2:
            loss = M.mglm.multinomial(X, y.copy(), coef=c, saturated_offset=cp(so), offset=cp(po), case_weights=cp(w), baseline=bl)
        else:
            loss = M.mglm.stacked(X, lib_losses(specs), coef=c, saturated_offset=cp(so), offset=cp(po), case_weights=cp(w))
    else:
        own = S.weights(rng, n) if rng.random() < .5 else None
        if own is not None:
            sref = sref.weighted(own)
        if kind3 < 2:
            K = M.multinomial_baseline_loglike if bl else M.multinomial_loglike
            sat = K((n, q), y.copy(), coef=c, offset=cp(so), case_weights=cp(own))
        else:
            sat = M.stacked_common_loglike(lib_losses(specs), coef=c, offset=cp(so), case_weights=cp(own))
        loss = M.mglm(X, sat, offset=cp(po), case_weights=cp(w))
    o = np.zeros((p, q)) if po is None else po

    class Ref(object):
        coef = 1.
        def __init__(self, s): self.s = s
        def eta(self, b): return A.dot(b - o)
        def val(self, b): return self.coef * self.s.val(self.eta(b))
        def grad(self, b): return self.coef * A.T.dot(self.s.grad(self.eta(b)))
        def mag(self, b): return self.coef * self.s.mag(self.eta(b))
        def gmag(self, b): return self.coef * np.max(self.s.gmag(self.eta(b))) * (np.abs(A).sum(0).max() + 1e-3)
        def weighted(self, w): return Ref(self.s.weighted(w))
    ref = Ref(sref if w is None else sref.weighted(w))
    lim = 8. / (np.abs(A).sum(1).max() + 1)
    pts = [np.clip(C.point(rng, (p, q)), -lim, lim) if rng.random() < .85 else rng.integers(-1, 2, (p, q)) * min(1, int(lim)) for _ in range(3)]
    key = "mglm:" + ("full", "baseline", "stacked")[kind3]
    life(case, loss, ref, pts, key, n, call_weights=False)
    case.close(loss.gradient(pts[0]), ref.grad(pts[0]), key + ":gradient", 1e-9, ref.gmag(pts[0]))
    # the linear predictor is that of the shifted coefficients
    case.event(key)
    case.event("design:" + kind)


def f_block(case):
    """stacked losses behind a block-column map: responses with their own designs, common columns"""
    rng = case.rng
    p, K = C.dim(rng, 1, 4), int(rng.integers(1, 4))
    specs, refs, sizes, c = build_stack(rng, False, 0, K)
    As = [np.round(rng.standard_normal((m, p)), 3) for m in sizes]
    Xs = [a.copy() if rng.random() < .7 else sp.csr_matrix(a) for a in As]
    w, off, tot = S.weights(rng, sum(sizes)), offs2(rng, sum(sizes), 1), sum(sizes)
    off = None if off is None else off[:, 0]
    case.note(As=As, sizes=sizes, w=w, off=off, data=[dict(x["s"].desc()) if "s" in x else x for x in specs])
    sat = G.stacked_loglike(lib_losses(specs), offset=cp(off), case_weights=cp(w))
    loss = affine_smooth(sat, block_columns(Xs))
    sref = Stack(refs, False, 1., off, w)
    eta = lambda b: np.hstack([a.dot(b[:, i]) for i, a in enumerate(As)])

    def grad(b):
        g = sref.grad(eta(b))
        cut = np.cumsum([0] + sizes)
        return np.array([a.T.dot(g[cut[i]:cut[i + 1]]) for i, a in enumerate(As)]).T
    sc = max(np.abs(a).sum() for a in As) + 1
    o = p05.Obs(case, loss, lambda b: sref.val(eta(b)), grad, lambda b: sref.mag(eta(b)), lambda b: np.max(sref.gmag(eta(b))) * sc, "block", 1e-9,
                so=lambda x, mode: loss.smooth_objective(x, mode))
    lim = 8. / sc
    for _ in range(3):
        o(np.clip(C.point(rng, (p, K)), -lim, lim))
    case.event("block")


def f_fit(case):
    """joint fits without coupling are the separate fits"""
    rng = case.rng
    n, p, q = int(rng.integers(6, 14)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    A = np.round(rng.standard_normal((n, p)), 3)
    w = None if rng.random() < .4 else np.round(rng.uniform(.2, 2, n), 2)
    quad = rr.identity_quadratic(1., 0, 0, 0)
    fit = lambda l: np.array(l.solve(quadratic=quad, tol=1e-14, min_its=60, max_its=3000))
    m = case.index % 3
    if m == 0:
        fam = ["gaussian", "logistic", "poisson", "huber", "huber_svm", "cox"][(case.index // 3) % 6]
        specs, refs, sizes, c = build_stack(rng, True, n, q, fam, coef=1.)
        case.note(fam=fam, A=A, w=w, data=[dict(x["s"].desc()) if "s" in x else x for x in specs])
        joint = fit(M.mglm.stacked(A, lib_losses(specs), case_weights=cp(w)))
        for i, x in enumerate(specs):
            one = rr.glm.cox(A, cp(x["t"]), cp(x["d"]), case_weights=cp(w)) if fam == "cox" else x["s"].glm(A, case_weights=cp(w), coef=1.)
            case.close(joint[:, i], fit(one), "joint-fit:" + fam, 2e-4)
        case.event("joint:" + fam)
    elif m == 1:
        y = rng.multinomial(4, [.5, .5], n)
        case.note(A=A, w=w, y=y)
        a = fit(M.mglm.multinomial(A, y, case_weights=cp(w), baseline=True))
        b = fit(rr.glm.logistic(A, y[:, 0], trials=y.sum(1), case_weights=cp(w)))
        case.close(a[:, 0], b, "two-class-fit", 2e-4)
        case.event("joint:multinomial")
    else:
        # lasso penalised joint fit = separate lasso fits
        Y = rng.standard_normal((n, q))
        lam = float(np.round(rng.uniform(.05, 1.5), 2))
        case.note(A=A, w=w, Y=Y, lam=lam)
        L1 = M.mglm(A, M.stacked_common_loglike.gaussian(Y.T), case_weights=cp(w))
        j = np.array(rr.simple_problem(L1, rr.l1norm((p, q), lagrange=lam)).solve(quadratic=quad, tol=1e-14, min_its=60))
        for i in range(q):
            o = rr.simple_problem(rr.glm.gaussian(A, Y[:, i], case_weights=cp(w)), rr.l1norm(p, lagrange=lam)).solve(quadratic=quad, tol=1e-14, min_its=60)
            case.close(j[:, i], o, "joint-lasso", 2e-4)
        case.event("joint:lasso")


FAMILIES = [
    Family("multinomial", f_multinomial, 500, 40000),
    Family("stacked", f_stacked, 500, 40000),
    Family("mglm", f_mglm, 450, 40000),
    Family("block", f_block, 200, 15000),
    Family("fit", f_fit, 72, 2000),
]
