"""P21 equivariance: the same model in other labels, orders, signs and units."""
import warnings
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
from regreg.identity_quadratic import identity_quadratic as iq
from regreg.paths import lasso as PL, group_lasso as PG, sparse_group_lasso as PS, sparse_group_block as PB
from regreg.paths import strong_rules, warm_start, default_lagrange_sequence
from regreg.smooth import glm as G, mglm as M
from rv.core import Family, Skip
from rv import catalog as C, losses as S
from rv.props import p19, p22


def quiet(f):
    def g(case):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return f(case)
    g.__name__ = f.__name__
    return g


class T(object):
    """x -> x' with x'.flat[k] = sign[idx[k]] * x.flat[idx[k]] / unit ; labels: old group name -> new group name"""
    def __init__(self, shape, idx=None, sign=None, unit=1., names=None, scale=1.):
        n = int(np.prod(shape))
        self.shape = shape
        self.idx = np.arange(n) if idx is None else np.asarray(idx)
        self.sign = np.ones(n) if sign is None else np.asarray(sign, float)
        self.unit, self.names, self.scale = unit, names, scale

    def fwd(self, x):
        x = np.asarray(x, float)
        return (self.sign * x.ravel())[self.idx].reshape(self.shape) / self.unit

    def dual(self, g):              # gradients, linear terms
        return self.fwd(g) * self.unit ** 2

    def idx_of(self, w):            # per coordinate attributes (weights, groups)
        return np.asarray(w).ravel()[self.idx]

    def cols(self, A):
        return (np.asarray(A) * self.sign)[:, self.idx] * self.unit

    def name(self, g):
        return g if self.names is None else self.names[g]

    def groups(self, g):
        return [self.name(v) for v in np.asarray(g).tolist()]


def newnames(rng, ids):
    """other labels, in another order, of another type"""
    ids = list(ids)
    k = len(ids)
    m = rng.integers(0, 5)
    new = [rng.permutation(k) * 5 - 11, np.arange(k)[::-1], rng.permutation(np.array(["zyxwvutsrqponmlkjihgfedcba"[i % 26] + str(i) for i in range(k)])),
           rng.permutation(k) * .5 - 1, rng.permutation(k) + 10 ** 6][m]
    return dict(zip(ids, new.tolist()))


SYM = ["l1norm", "supnorm", "l2norm", "weighted_l1norm", "weighted_supnorm", "slope", "slope_conjugate", "group_lasso", "group_lasso_dual",
       "sparse_group_lasso", "sparse_group_lasso_dual", "sparse_group_block", "sparse_group_block_dual", "l1_l2", "linf_l2", "l1_l1", "linf_linf",
       "block_sum", "block_max", "nuclear_norm", "operator_norm"]
ONE = ["positive_part", "constrained_max", "constrained_positive_part", "max_positive_part"]
CONE = ["nonnegative", "nonpositive", "zero", "zero_constraint", "simplex_constraint", "maximum", "l1_epigraph", "l1_epigraph_polar", "l2_epigraph",
        "l2_epigraph_polar", "linf_epigraph", "linf_epigraph_polar", "group_lasso_epigraph", "group_lasso_epigraph_polar", "group_lasso_dual_epigraph"]


class Spec(object):
    """a penalty that can be rebuilt under a transformation"""
    def __init__(self, rng, kind, form=None, param=None, tame=False):
        form = form or ("lagrange" if rng.random() < .5 else "bound")
        self.kind, self.form = kind, form
        self.cone = kind in CONE
        # the parameters are taken from the catalogue's own generator
        it = C.make(rng, kind, form, param=param, zero_param=False, zero_weights=not tame)
        self.item, self.shape, self.d = it, it.shape, it.desc
        self.param = it.param
        self.prox = it.prox

    def build(self, t, offset=None, quadratic=None):
        k, d = self.kind, self.d
        kw = dict(offset=offset, quadratic=quadratic)
        if not self.cone:
            u = t.scale * t.unit if self.form == "lagrange" else 1. / t.unit
            kw[self.form] = self.param * u
        cls = getattr(rr, k, None) or getattr(__import__("rv.catalog", fromlist=[k]), k)
        if k in C.WEIGHTED:
            return cls(t.idx_of(d["weights"]), **kw)
        if k in C.SLOPE:
            return cls(np.array(d["weights"]), **kw)
        if k in C.GROUP or k in C.SGL:
            w = {t.name(g): v for g, v in d["weights"].items()}
            g = t.groups(t.idx_of(d["groups"]))
            if k in C.GROUP:
                return cls(np.array(g), weights=w, **kw)
            return cls(np.array(g), t.idx_of(d["lasso_weights"]).astype(float), weights=w, **kw)
        if k.startswith("group_lasso") and "epigraph" in k:
            w = {t.name(g): v for g, v in d["weights"].items()}
            return cls(np.array(t.groups(np.asarray(d["groups"])[t.idx[:-1]])), weights=w, **kw)
        if k in C.SGB:
            return cls(self.shape, d["l1"], d["l2"], **kw)
        if k in ("block_sum", "block_max"):
            return cls(getattr(rr, d["inner"]), self.shape, **kw)
        return cls(self.shape, **kw)

    def ids(self):
        return list(dict.fromkeys(np.asarray(self.d["groups"]).tolist())) if "groups" in self.d else None

    def transform(self, rng, signs=True, units=True):
        n = int(np.prod(self.shape))
        names = None
        if self.ids() is not None and rng.random() < .7:
            names = newnames(rng, self.ids())
        idx, sign = np.arange(n), np.ones(n)
        perm = rng.random() < .75
        flip = signs and rng.random() < .6
        if len(self.shape) == 2:
            r, c = self.shape
            if perm:
                idx = np.arange(n).reshape(r, c)[rng.permutation(r)][:, rng.permutation(c)].ravel()
            if flip:
                sign = np.multiply.outer(rng.choice([-1, 1], r), rng.choice([-1, 1], c)).ravel() if self.kind in C.SVD else rng.choice([-1, 1], n)
        elif "epigraph" in self.kind:
            if perm:
                idx = np.hstack([rng.permutation(n - 1), n - 1])
            if flip:
                sign = np.hstack([rng.choice([-1, 1], n - 1), 1])
        else:
            if perm:
                idx = rng.permutation(n)
            if flip and self.kind in SYM:
                sign = rng.choice([-1, 1], n)
        unit = scale = 1.
        if units and not self.cone and rng.random() < .4:
            unit = float(10 ** rng.uniform(-1.5, 1.5))
        if units and self.kind != "maximum" and rng.random() < .4:
            scale = float(10 ** rng.uniform(-2, 2))
        return T(self.shape, idx, sign.astype(float), unit, names, scale)


def tdesc(t):
    return dict(idx=t.idx, sign=t.sign, unit=t.unit, names=t.names, scale=t.scale)


def vclose(case, a, b, key, tol, scale):
    if not np.isfinite(a) or not np.isfinite(b):
        case.check(a == b, key, "%r vs %r" % (a, b))
    else:
        case.close(a, b, key, tol, scale)


@quiet
def f_atoms(case):
    rng = case.rng
    kinds = SYM + ONE + CONE
    sp_ = Spec(rng, kinds[case.index % len(kinds)])
    t, one = sp_.transform(rng), T(sp_.shape)
    a, b = sp_.build(one), sp_.build(t)
    case.note(kind=sp_.kind, form=sp_.form, d=sp_.d, T=tdesc(t))
    key = sp_.kind
    for k in range(3):
        x = C.point(rng, sp_.shape)
        y = t.fwd(x)
        # values
        va, vb = a.nonsmooth_objective(x), b.nonsmooth_objective(y)
        vclose(case, vb, va * t.scale, "value:" + key, 1e-9 if sp_.item.vtol < 1e-8 else 10 * sp_.item.vtol, abs(va) * t.scale + t.scale * np.abs(x).max())
        if "groups" in sp_.d and not sp_.cone:
            ta, tb = np.asarray(a.terms(x)), np.asarray(b.terms(y))
            ids = sorted(sp_.ids())
            order = sorted(range(len(ids)), key=lambda i: t.name(ids[i]))
            vec = lambda v: np.where(np.isfinite(v), v, -1.)       # a group of weight zero
            case.close(vec(tb), vec(ta / t.unit)[order], "terms:" + key, max(1e-8, 10 * sp_.item.vtol), 1 + np.abs(y).max() * 10)
            case.event("terms")
        z = C.point(rng, sp_.shape)
        L = float(np.exp(rng.uniform(-2, 2)))
        lin = C.point(rng, sp_.shape) if rng.random() < .5 else None
        if sp_.prox:
            case.event("prox")
            q = iq(L, z.copy(), None if lin is None else lin.copy(), 0)
            r = iq(L * t.scale * t.unit ** 2, t.fwd(z), None if lin is None else t.dual(lin) * t.scale, 0)
            pa, pb = np.asarray(a.proximal(q)), np.asarray(b.proximal(r))
            s = 1 + np.abs(z).max() + (0 if lin is None else np.abs(lin).max() / L)
            case.close(pb * t.unit, t.fwd(pa) * t.unit, "prox:" + key, max(1e-8, 3 * sp_.item.tol), s)
        if not sp_.cone and sp_.prox and sp_.kind not in ("sparse_group_lasso_dual", "sparse_group_block_dual") and t.unit == 1 and t.scale == 1:
            # the conjugate of the transformed penalty is the transformed conjugate
            c, d = a.conjugate, b.conjugate
            ca, cb = c.nonsmooth_objective(x, check_feasibility=True), d.nonsmooth_objective(y, check_feasibility=True)
            vclose(case, cb, ca, "conjugate:" + key, 1e-8, (abs(ca) if np.isfinite(ca) else 0) + np.abs(x).max())
            case.event("conjugate")
    for m in (["perm"] if np.any(t.idx != np.arange(len(t.idx))) else []) + (["sign"] if np.any(t.sign < 0) else []) + \
            (["names"] if t.names else []) + (["unit"] if t.unit != 1 else []) + (["scale"] if t.scale != 1 else []):
        case.event("T:" + m)
    case.event("atom")


class Loss(object):
    """a single response loss that can be rebuilt with other case order, features, scale, and cases repeated instead of weighted"""
    FAMS = S.ALL + ["cox"]

    def __init__(self, rng, fam, n, p, positive=False):
        self.fam, self.n = fam, n
        A = np.round(rng.standard_normal((n, p)) * (rng.random((n, p)) < .85), 3)
        if fam in ("poisson", "cloglog"):
            A = np.round(A / max(1., np.abs(A).sum(1).max() / 3.), 6)
        self.A = A
        self.c = S.coef(rng)
        if fam == "cox":
            self.t, self.d = p19.data(rng, n)
            self.w, self.o = S.weights(rng, n), S.offs(rng, n)
            self.trials = self.eps = None
            self.y = None
        else:
            s = S.Spec(rng, fam, n)
            self.y, self.trials, self.eps, self.w, self.o = np.asarray(s.y), s.trials, s.eps, s.w, s.offset
        if self.w is not None:
            self.w = np.minimum(self.w, 20)

    def desc(self):
        d = {k: v for k, v in self.__dict__.items()}
        return d

    def build(self, t=None, rows=None, w="own", quadratic=None, sparse=False):
        rows = np.arange(self.n) if rows is None else np.asarray(rows)
        A = (self.A if t is None else t.cols(self.A))[rows]
        X = sp.csr_matrix(A) if sparse else A
        pick = lambda v: None if v is None else np.array(np.asarray(v)[rows])
        w = pick(self.w) if isinstance(w, str) else (None if w is None else np.array(w))
        kw = dict(coef=float(self.c) * (1. if t is None else t.scale), saturated_offset=pick(self.o), case_weights=w, quadratic=quadratic)
        f = getattr(rr.glm, self.fam)
        if self.fam == "cox":
            return f(X, pick(self.t), pick(self.d), **kw)
        if self.eps is not None:
            return f(X, pick(self.y), self.eps, **kw)
        if self.fam in S.BINARY:
            return f(X, pick(self.y), trials=pick(self.trials), **kw)
        return f(X, pick(self.y), **kw)

    def linear(self, rng, scale=1.):
        return np.round(rng.standard_normal(self.A.shape[1]) * scale, 3)


@quiet
def f_losses(case):
    """values, gradients and curvature under case order, repetition, feature order, sign, unit and scale"""
    rng = case.rng
    fam = Loss.FAMS[case.index % len(Loss.FAMS)]
    n, p = C.dim(rng, 1, 12), C.dim(rng, 1, 6)
    l = Loss(rng, fam, n, p)
    rep = rng.random() < .35
    if rep:
        l.w = rng.integers(1, 4, n)
    t = T((p,), rng.permutation(p), rng.choice([-1., 1.], p), float(10 ** rng.uniform(-1, 1)) if rng.random() < .4 else 1.,
          None, float(10 ** rng.uniform(-2, 2)) if rng.random() < .5 else 1.)
    rows = rng.permutation(np.repeat(np.arange(n), l.w)) if rep else rng.permutation(n)
    case.note(rep=rep, rows=rows, T=tdesc(t), **l.desc())
    a = l.build()
    b = l.build(t, rows, None if rep else "own", sparse=rng.random() < .3)
    vals = []
    for k in range(3):
        x = l.linear(rng, [.3, 1., 2.][k])
        y = t.fwd(x)
        fa, ga = a.smooth_objective(x, "both")
        fb, gb = b.smooth_objective(y, "both")
        wsum = float(l.n if l.w is None else np.sum(l.w)) + 1
        eta = np.abs(l.A.dot(x)).max() + (0 if l.o is None else np.abs(l.o).max()) + 1
        big = 1. if l.y is None else 1 + float(np.abs(l.y.astype(float)).max()) + (0 if l.trials is None else np.max(l.trials))
        m = l.c * wsum * (eta * big + eta ** 2 + (np.exp(min(eta, 60)) if fam in ("poisson", "cloglog") else 0) + big ** 2)
        vals.append((fa, fb))
        case.close(np.asarray(gb), t.dual(ga) * t.scale, "loss-grad:" + fam, 1e-9, m * t.scale * t.unit * (1 + np.abs(l.A).max()))
        # values up to a constant that does not depend on the parameter
        case.close(vals[-1][1] - vals[0][1], (vals[-1][0] - vals[0][0]) * t.scale, "loss-value:" + fam, 1e-9, m * t.scale)
        if not rep:
            case.close(fb, fa * t.scale, "loss-constant:" + fam, 1e-9, m * t.scale)
        if fam not in ("huber", "huber_svm"):
            Ha, Hb = [h.toarray() if sp.issparse(h) else np.asarray(h) for h in (a.hessian(x), b.hessian(y))]
            Da = np.outer(t.sign, t.sign) * np.asarray(Ha)
            case.close(np.asarray(Hb), Da[t.idx][:, t.idx] * t.unit ** 2 * t.scale, "loss-hessian:" + fam, 1e-9,
                       m * t.scale * t.unit ** 2 * (1 + np.abs(l.A).max()) ** 2)
            case.event("hessian")
    case.event("loss:" + fam)
    if rep: case.event("replicated")


@quiet
def f_flip(case):
    """symmetries of particular losses: exchanged outcomes, units of the response, monotone times, exchanged classes"""
    rng = case.rng
    n = C.dim(rng, 1, 10)
    w, o = S.weights(rng, n), S.offs(rng, n)
    cp = lambda v: None if v is None else np.array(v)
    m = case.index % 8
    eta = rng.standard_normal(n) * 2
    neg = lambda v: None if v is None else -np.asarray(v)
    if m in (0, 1, 2):
        fam = ["logistic", "probit", "huber_svm"][m]
        y, tr = S.response(rng, fam, n)
        N = np.ones(n) if tr is None else np.asarray(tr, float)
        y = np.asarray(y, float)
        cls = S.cls(fam)
        e = [S.eps(rng)] if m == 2 else []
        kw = {} if m == 2 or tr is None else dict(trials=cp(tr))
        a = cls((n,), y, *e, offset=cp(o), case_weights=cp(w), **kw)
        b = cls((n,), N - y, *e, offset=neg(o), case_weights=cp(w), **kw)
        case.note(fam=fam, y=y, tr=tr, e=e, o=o, w=w, eta=eta)
        d = lambda f, x: f.smooth_objective(x, "func") - f.smooth_objective(np.zeros(n), "func")
        sc = (1. if w is None else np.sum(w)) * N.max() * 60
        if o is None:
            case.close(d(a, eta), d(b, -eta), "flip-value:" + fam, 1e-9, sc)
        case.close(a.smooth_objective(eta, "grad"), -b.smooth_objective(-eta, "grad"), "flip-grad:" + fam, 1e-9, sc)
    elif m in (3, 4):
        fam = ["gaussian", "huber"][m - 3]
        y = np.asarray(S.response(rng, fam, n)[0], float)
        u, sh = float(10 ** rng.uniform(-2, 2)), float(np.round(rng.standard_normal() * 3, 2))
        e = S.eps(rng)
        cls = S.cls(fam)
        args = lambda y, u: ((n,), y) if fam == "gaussian" else ((n,), y, e * u)
        a = cls(*args(y, 1.), offset=cp(o), case_weights=cp(w))
        b = cls(*args(u * y + sh, u), offset=None if o is None else u * np.asarray(o), case_weights=cp(w))
        case.note(fam=fam, y=y, u=u, sh=sh, e=e, o=o, w=w, eta=eta)
        pw = 2 if fam == "gaussian" else 1
        fa, ga = a.smooth_objective(eta, "both")
        fb, gb = b.smooth_objective(u * eta + sh, "both")
        sc = (n if w is None else np.sum(w) + 1) * (np.abs(y).max() + 10 + abs(sh) / u) ** pw
        case.close(fb / u ** pw, fa, "unit-value:" + fam, 1e-9, sc * (1 + abs(sh) / u))
        case.close(gb / u ** (pw - 1), ga, "unit-grad:" + fam, 1e-9, sc * (1 + abs(sh) / u) + 1. / min(u * e, 1))
    elif m == 5:
        fam = "cox"
        t, d = p19.data(rng, n)
        # order and ties of the times are kept exactly
        rank = np.unique(t, return_inverse=True)[1]
        t2 = [lambda: np.cumsum(rng.exponential(size=n) + 1e-3)[rank], lambda: 4. * np.asarray(t), lambda: rank][rng.integers(0, 3)]()
        a = rr.cox_loglike((n,), cp(t), cp(d), offset=cp(o), case_weights=cp(w))
        b = rr.cox_loglike((n,), t2, cp(d), offset=cp(o), case_weights=cp(w))
        case.note(t=t, d=d, t2=t2, o=o, w=w, eta=eta)
        sh = float(rng.standard_normal() * 5)
        sc = (n if w is None else np.sum(w) + 1) * 20
        case.close(b.smooth_objective(eta + sh, "func"), a.smooth_objective(eta, "func"), "cox-value", 1e-9, sc)
        case.close(b.smooth_objective(eta + sh, "grad"), a.smooth_objective(eta, "grad"), "cox-grad", 1e-9, sc)
    else:
        fam = ["multinomial", "stacked"][m - 6]
        q = int(rng.integers(2, 5))
        B = rng.standard_normal((n, q))
        pc, pr = rng.permutation(q), rng.permutation(n)
        if fam == "multinomial":
            y = p22.counts(rng, n, q)
            f = lambda y, w: M.multinomial_loglike(y.shape, y, case_weights=w)
        else:
            y = np.round(rng.standard_normal((n, q)), 3)
            w = None
            f = lambda y, w: M.stacked_common_loglike.gaussian(np.ascontiguousarray(y.T))
        case.note(fam=fam, y=y, w=w, B=B, pc=pc, pr=pr)
        a, b = f(np.array(y), cp(w)), f(np.array(y[pr][:, pc]), None if w is None else np.asarray(w)[pr])
        fa, ga = a.smooth_objective(B, "both")
        fb, gb = b.smooth_objective(B[pr][:, pc], "both")
        sc = (n if w is None else np.sum(w) + 1) * (np.abs(y).sum(1).max() + 1) * 20
        case.close(fb, fa, "classes-value:" + fam, 1e-10, sc)
        case.close(gb, np.asarray(ga)[pr][:, pc], "classes-grad:" + fam, 1e-10, sc)
    case.event("flip:" + fam)


TIGHT = dict(tol=1e-14, min_its=60)


def ridge(rng, shape):
    mu = float(np.round(np.exp(rng.uniform(-1.5, 1)), 3))
    return mu, np.round(rng.standard_normal(shape), 3), np.round(rng.standard_normal(shape), 3) if rng.random() < .5 else None


def tquad(q, t):
    mu, z, lin = q
    return iq(mu * t.scale * t.unit ** 2, t.fwd(z), None if lin is None else t.dual(lin) * t.scale, 0)


FITK = [k for k in SYM + ONE if True] + ["nonnegative", "nonpositive", "simplex_constraint", "maximum"]
VEC = [k for k in FITK if k not in C.SGB + C.BLOCK + C.SVD]
SOLVERS = ["simple", "fista", "container", "plain", "separable"]


def solve(how, loss, pen, q, shape, start):
    if how == "simple":
        prob = rr.simple_problem(loss, pen)
        prob.coefs[:] = start
        v, x = prob.solve(q, return_optimum=True, **TIGHT)
    elif how == "fista":
        prob = rr.simple_problem(loss, pen)
        prob.quadratic = q
        prob.coefs[:] = start
        s = rr.FISTA(prob)
        s.fit(**TIGHT)
        x = s.composite.coefs
        v = prob.objective(x)
    elif how == "container":
        prob = rr.container(loss, pen)
        prob.coefs[:] = start
        v, x = prob.solve(q, return_optimum=True, **TIGHT)
    elif how == "plain":
        prob = rr.simple_problem(loss, pen)
        prob.coefs[:] = start
        v, x = prob.solve(q, return_optimum=True, FISTA=False, tol=1e-14, min_its=400, max_its=20000)
    else:
        prob = rr.separable_problem(loss, shape, [pen], [slice(None)])
        prob.coefs[:] = start
        v, x = prob.solve(q, return_optimum=True, **TIGHT)
    return float(v), np.array(x, float)


@quiet
def f_fits(case):
    """fitted coefficients and optimal values of single penalty problems"""
    rng = case.rng
    kind = VEC[case.index % len(VEC)]
    form = None
    if (kind, "lagrange") in C.NOPROX: form = "bound"
    if (kind, "bound") in C.NOPROX: form = "lagrange"
    sp_ = Spec(rng, kind, form, param=float(np.round(np.exp(rng.uniform(-1.5, 1.5)), 3)), tame=rng.random() < .5)
    p = sp_.shape[0]
    l = Loss(rng, Loss.FAMS[int(rng.integers(0, len(Loss.FAMS)))], C.dim(rng, 2, 14), p)
    t, one = sp_.transform(rng), T(sp_.shape)
    rows = rng.permutation(l.n) if rng.random() < .7 else np.arange(l.n)
    q = ridge(rng, (p,))
    how = SOLVERS[int(rng.integers(0, 5))]
    case.note(how=how, kind=kind, form=sp_.form, param=sp_.param, d=sp_.d, q=q, rows=rows, T=tdesc(t), loss=l.desc())
    off = np.round(rng.standard_normal(p), 2) if rng.random() < .3 else None
    if sp_.item.pen.outside(np.zeros(p)) > 0:
        off = None
    start = np.zeros(p)
    if how == "separable" and off is not None:
        off = None
    v, x = solve(how, l.build(), sp_.build(one, offset=off), tquad(q, one), (p,), start)
    w, y = solve(how, l.build(t, rows), sp_.build(t, offset=None if off is None else t.fwd(off)), tquad(q, t), (p,), start)
    S0 = abs(l.build().smooth_objective(np.zeros(p), "func")) + abs(v) + 1
    case.check(np.isfinite(v) and np.isfinite(w), "fit:finite", "%r %r" % (v, w))
    vt, xt = (1e-8, 1e-4) if how != "plain" else (1e-6, 3e-3)
    case.close(w / t.scale, v, "fit-value:" + how, vt, S0)
    case.close(y * t.unit, t.fwd(x) * t.unit, "fit-coefs:" + how, xt, np.abs(x).max() + 1, msg=kind)
    case.event("fit:" + how)
    case.event("kind:" + kind)
    if np.any(x != 0): case.event("nonzero")


@quiet
def f_matrix(case):
    """matrix penalties: rows and columns exchanged, signs, transposition, rotation"""
    rng = case.rng
    kinds = [k for k in SYM if k in C.SGB + C.BLOCK + C.SVD]
    kind = kinds[case.index % len(kinds)]
    form = "bound" if (kind, "lagrange") in C.NOPROX else "lagrange" if (kind, "bound") in C.NOPROX else None
    sp_ = Spec(rng, kind, form, param=float(np.round(np.exp(rng.uniform(-1.5, 1.5)), 3)))
    r, c = sp_.shape
    t, one = sp_.transform(rng), T(sp_.shape)
    Z = np.round(rng.standard_normal((r, c)) * 2, 3)
    q = ridge(rng, (r, c))
    case.note(kind=kind, form=sp_.form, param=sp_.param, d=sp_.d, q=q, Z=Z, T=tdesc(t))

    def fit(atom, Z, q, sc):
        prob = rr.simple_problem(rr.signal_approximator(np.ascontiguousarray(Z), coef=sc), atom)
        v, x = prob.solve(q, return_optimum=True, **TIGHT)
        return float(v), np.array(x)
    v, x = fit(sp_.build(one), Z, tquad(q, one), 1.)
    w, y = fit(sp_.build(t), t.fwd(Z), tquad(q, t), t.scale * t.unit ** 2)
    s0 = 1 + (Z ** 2).sum() + abs(v)
    case.close(w / t.scale, v, "matrix-value:" + kind, 1e-7, s0)
    case.close(y * t.unit, t.fwd(x) * t.unit, "matrix-coefs:" + kind, 1e-4, np.abs(Z).max() + 1)
    if kind in C.SVD + ["l1_l1", "linf_linf"]:
        sp2 = getattr(rr, kind)((c, r), **{sp_.form: sp_.param})
        qt = (q[0], q[1].T.copy(), None if q[2] is None else q[2].T.copy())
        w, y = fit(sp2, Z.T, iq(qt[0], qt[1], qt[2], 0), 1.)
        case.close(w, v, "transpose-value:" + kind, 1e-7, s0)
        case.close(y.T, x, "transpose-coefs:" + kind, 1e-4, np.abs(Z).max() + 1)
        case.event("transposed")
    if kind in C.SVD + ["l1_l2", "linf_l2"]:
        R1 = np.linalg.qr(rng.standard_normal((r, r)))[0] if kind in C.SVD else np.eye(r)
        R2 = np.linalg.qr(rng.standard_normal((c, c)))[0]
        rot = lambda a: None if a is None else R1.dot(a).dot(R2)
        w, y = fit(sp_.build(one), rot(Z), iq(q[0], rot(q[1]), rot(q[2]), 0), 1.)
        case.close(w, v, "rotate-value:" + kind, 1e-7, s0)
        case.close(y, rot(x), "rotate-coefs:" + kind, 1e-4, np.abs(Z).max() + 1)
        case.event("rotated")
    case.event("matrix:" + kind)


@quiet
def f_container(case):
    """penalties of linear images: features, rows of the map, cases, scale"""
    rng = case.rng
    p, m = C.dim(rng, 2, 6), C.dim(rng, 1, 6)
    kinds = ["l1norm", "supnorm", "l2norm", "group_lasso", "weighted_l1norm", "positive_part", "nonnegative"]
    kind = kinds[case.index % len(kinds)]
    sp_ = None
    for _ in range(200):
        s = Spec(rng, kind, None, param=float(np.round(np.exp(rng.uniform(-1, 1)), 3)), tame=True)
        if s.shape == (m,):
            sp_ = s
            break
    if sp_ is None:
        raise Skip("no size")
    if sp_.kind == "weighted_l1norm" and (np.max(sp_.d["weights"]) > 20 or np.min(sp_.d["weights"]) < .05):
        raise Skip("badly scaled")
    D = np.round(rng.standard_normal((m, p)), 2)
    l = Loss(rng, ["gaussian", "logistic", "huber"][rng.integers(0, 3)], C.dim(rng, 2, 10), p)
    tr = sp_.transform(rng, units=False)                     # acts on the rows of D
    tc = T((p,), rng.permutation(p), rng.choice([-1., 1.], p), 1., None, float(10 ** rng.uniform(-1, 1)) if rng.random() < .5 else 1.)
    tr.scale = tc.scale
    rows = rng.permutation(l.n)
    q = ridge(rng, (p,))
    D2 = (tr.sign[:, None] * tc.cols(D))[tr.idx]
    case.note(kind=kind, form=sp_.form, param=sp_.param, d=sp_.d, D=D, q=q, rows=rows, tr=tdesc(tr), tc=tdesc(tc), loss=l.desc())

    def fit(loss, atom, D, q):
        from rv.props.p11 import affine_atom
        a = affine_atom(atom, rr.linear_transform(D.copy()))
        prob = rr.container(loss, a)
        v, x = prob.solve(q, return_optimum=True, tol=1e-14, min_its=50, max_its=3000)
        return float(v), np.array(x)
    v, x = fit(l.build(), sp_.build(T(sp_.shape)), D, tquad(q, T((p,))))
    w, y = fit(l.build(tc, rows), sp_.build(tr), D2, tquad(q, tc))
    s0 = 1 + abs(v) + abs(l.build().smooth_objective(np.zeros(p), "func"))
    if np.isfinite(v) or np.isfinite(w):
        if sp_.form == "lagrange" and not sp_.cone:
            case.close(w / tc.scale, v, "container-value", 1e-4, s0)
        case.close(y, tc.fwd(x), "container-coefs", 2e-2, np.abs(x).max() + 1)
    case.event("container:" + kind)


PK = ["lasso", "group", "sgl", "multi"]


@quiet
def f_paths(case):
    """regularisation paths: labels, feature order, case order, signs, common scale"""
    rng = case.rng
    kind = PK[case.index % 4]
    n, p = int(rng.integers(10, 31)), int(rng.choice([2, 3, 5, 8, 12]))
    alpha = [.5, .8, .9][rng.integers(0, 3)]
    c = float(10 ** rng.uniform(-1, 1)) if rng.random() < .5 else 1.
    rows = rng.permutation(n)
    A = np.round(rng.standard_normal((n, p)), 3)
    if kind == "multi":
        q = int(rng.integers(2, 4))
        t = T((p, q), np.arange(p * q).reshape(p, q)[rng.permutation(p)].ravel(), None, 1., None, c)
        pr = t.idx.reshape(p, q)[:, 0] // q
        pc = rng.permutation(q)
        sg = rng.choice([-1., 1.], p)
        which = ["gaussian", "multinomial"][rng.integers(0, 2)]
        Y = np.round(rng.standard_normal((n, q)) * 2, 3) if which == "gaussian" else np.eye(q)[np.arange(n) % q][rng.permutation(n)]
        l1, l2 = float(np.round(rng.uniform(.2, 2), 2)), float(np.round(rng.uniform(.2, 2), 2))

        def make(Y, A, c):
            f = M.stacked_common_loglike.gaussian(np.ascontiguousarray(Y.T)) if which == "gaussian" else M.multinomial_loglike(Y.shape, Y.copy(), coef=c)
            return PB.sparse_group_common_path(f, A.copy(), l1, l2, elastic_net_param=np.ones((p, q)), alpha=alpha)
        if which == "gaussian":
            c = 1.
        case.note(kind=kind, which=which, Y=Y, A=A, l1=l1, l2=l2, pr=pr, pc=pc, rows=rows, alpha=alpha, c=c, sg=sg)
        a, b = make(Y, A, 1.), make(Y[rows][:, pc], (A * sg)[:, pr][rows], c)
        fwd = lambda B: (B * sg[:, None])[pr][:, pc]
        shape = (p, q)
    else:
        fam = ["gaussian", "logistic", "poisson", "cox", "huber", "probit"][case.index // 4 % 6]
        l = Loss(rng, fam, n, p)
        if fam == "cox" and np.sum(l.d) == 0:
            raise Skip("no events")
        l.A = A if fam != "poisson" else np.round(A / 3, 3)
        if l.w is not None:
            l.w = np.clip(l.w, 0, 5)
        if fam in S.BINARY:
            l.y, l.trials = (np.arange(n) % 2)[rng.permutation(n)], None
        t = T((p,), rng.permutation(p), rng.choice([-1., 1.], p), 1., None, c)
        free = rng.random(p) < .15
        if kind != "lasso" or fam in S.BINARY or fam in ("cox", "poisson", "huber"):
            free[:] = False
        lab = rng.integers(0, max(1, p // 2) + 1, p)
        ids = sorted(set(lab.tolist()))
        t.names = newnames(rng, ids)
        w = np.where(free, 0, np.round(rng.uniform(.3, 2, p), 2))
        gw = {g: float(np.round(rng.uniform(.3, 2), 2)) for g in ids}
        given = gw if rng.random() < .7 else {}
        if free.all():
            raise Skip("nothing penalised")
        e = np.round(rng.uniform(.3, 2, p), 2) if rng.random() < .5 else np.ones(p)

        def make(t, rows):
            pick = lambda v: None if v is None else np.array(np.asarray(v)[rows])
            kw = dict(coef=t.scale, offset=pick(l.o), case_weights=pick(l.w))
            if fam == "cox":
                f = rr.cox_loglike((n,), pick(l.t), pick(l.d), **kw)
            elif fam == "huber":
                f = G.huber_loss((n,), pick(l.y), l.eps, **kw)
            else:
                f = S.cls(fam)((n,), pick(l.y), **kw)
            # documented convention: the ridge of unpenalised features is not multiplied by the penalty parameter
            X, en = t.cols(l.A)[rows], (e * np.where(free, t.scale, 1.))[t.idx]
            if kind == "lasso":
                return PL.lasso_path(f, X, w[t.idx], elastic_net_param=en, alpha=alpha)
            g = np.array(t.groups(lab[t.idx]))
            gwt = {t.name(k): v for k, v in given.items()}
            if kind == "group":
                return PG.group_lasso_path(f, X, g, weights=gwt, elastic_net_param=en, alpha=alpha)
            return PS.sparse_group_lasso_path(f, X, g, np.where(w == 0, .7, w)[t.idx], weights=gwt, l1_alpha=.6, elastic_net_param=en, alpha=alpha)
        case.note(kind=kind, fam=fam, lab=lab, w=w, gw=given, e=e, rows=rows, alpha=alpha, T=tdesc(t), loss=l.desc())
        a, b = make(T((p,)), np.arange(n)), make(t, rows)
        fwd, shape = t.fwd, (p,)
    k = int(rng.integers(2, 7))
    sa = np.asarray(default_lagrange_sequence(a.penalty, a.grad_solution, lagrange_proportion=.1, nstep=k, alpha=a.alpha))
    sb = np.asarray(default_lagrange_sequence(b.penalty, b.grad_solution, lagrange_proportion=.1, nstep=k, alpha=b.alpha))
    if sa[0] < 1e-6:
        raise Skip("null gradient")
    rough = kind == "lasso" and np.any(w == 0)
    case.close(sb, sa * c, "path-sequence:" + kind, 2e-2 if rough else 1e-5, sa[0] * c)
    how = ["warm", "strong"][rng.integers(0, 2)]
    case.note(how=how)
    out = []
    for path, seq in ((a, sa), (b, sa * c)):
        np.random.seed(case.index)
        init = (path.solution, path.grad_solution)
        if how == "warm":
            out.append(np.asarray(warm_start(path, seq, init, inner_tol=1e-12, solve_args=dict(max_its=20000))["beta"]))
        else:
            out.append(np.asarray(strong_rules(path, seq, init, inner_tol=1e-12)["beta"]))
    case.check(out[0].shape == out[1].shape and len(out[0]) == k, "path-length:" + kind, "%s %s" % (out[0].shape, out[1].shape))
    mu = min(1., .3 if kind != "multi" else 1.) * (1 - alpha)
    slack = 1e-3 if how == "warm" else 1e-3 + .02 * np.sqrt(np.prod(shape)) * 2 / mu * .1
    for x, y in zip(*out):
        x, y = np.asarray(x).T.reshape(shape), np.asarray(y).T.reshape(shape)
        case.close(y, fwd(x), "path-coefs:%s:%s" % (kind, how), slack, np.abs(x).max())
        case.event("path-point")
    case.event("path:%s:%s" % (kind, how))


FAMILIES = [
    Family("atoms", f_atoms, 400, 40000, need=["atom", "prox", "conjugate", "T:names", "T:perm", "T:sign", "T:unit", "T:scale"], timeout=60),
    Family("losses", f_losses, 240, 20000, need=["loss:" + f for f in Loss.FAMS] + ["replicated", "hessian"], timeout=60),
    Family("flip", f_flip, 160, 16000, need=["flip:" + f for f in ("logistic", "probit", "huber_svm", "gaussian", "huber", "cox", "multinomial", "stacked")], timeout=60),
    Family("fits", f_fits, 300, 12000, need=["fit:" + s for s in SOLVERS] + ["nonzero"], timeout=120),
    Family("matrix", f_matrix, 90, 5000, need=["transposed", "rotated"], timeout=120),
    Family("container", f_container, 42, 2000, need=["container:l1norm", "container:group_lasso"], timeout=300),
    Family("paths", f_paths, 96, 4000, need=["path-point"] + ["path:%s:%s" % (k, h) for k in PK for h in ("warm", "strong")], timeout=120),
]
