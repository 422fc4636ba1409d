"""P07 case weights = replication / deletion; subsampling = rebuilding from the kept cases."""
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
from rv.core import Family, Skip
from rv import catalog as C, losses as S, refloss as L
from rv.props import p19

FAMS = S.ALL + ["cox"]


class Data(object):
    """rows of a data set; rows() rebuilds the same data restricted to / repeated by an index"""
    def __init__(self, rng, fam, n, p):
        self.fam, self.n, self.p = fam, n, p
        self.X, self.A, self.kind = S.design(rng, n, p, ("dense", "F", "int", "csr", "csc"))
        self.coef, self.so, self.po = S.coef(rng), S.offs(rng, n), S.offs(rng, p, .3)
        self.eps = S.eps(rng)
        if fam == "cox":
            self.t, self.d = p19.data(rng, n)
        else:
            self.y, self.tr = S.response(rng, fam, n)

    def desc(self):
        return dict((k, v) for k, v in self.__dict__.items() if k not in ("X",))

    def _rows(self, a, rows):
        return None if a is None else np.array(np.asarray(a)[rows])

    def glm(self, rows=None, w=None):
        r = slice(None) if rows is None else rows
        X = self.X[r] if rows is not None else (self.X.copy())
        g = lambda a: self._rows(a, r)
        kw = dict(coef=self.coef, saturated_offset=g(self.so), offset=None if self.po is None else self.po.copy(),
                  case_weights=None if w is None else np.array(w))
        f = getattr(rr.glm, self.fam)
        if self.fam == "cox":
            return f(X, g(self.t), g(self.d), **kw)
        if self.fam.startswith("huber"):
            return f(X, g(self.y), self.eps, **kw)
        if self.fam in S.BINARY:
            return f(X, g(self.y), trials=g(self.tr), **kw)
        return f(X, g(self.y), **kw)

    def sat(self, rows=None, w=None):
        r = slice(None) if rows is None else rows
        g = lambda a: self._rows(a, r)
        kw = dict(coef=self.coef, offset=g(self.so), case_weights=None if w is None else np.array(w))
        n = len(np.arange(self.n)[r])
        if self.fam == "cox":
            return rr.cox_loglike((n,), g(self.t), g(self.d), **kw)
        c = S.cls(self.fam)
        if self.fam.startswith("huber"):
            return c((n,), g(self.y), self.eps, **kw)
        if self.fam in S.BINARY:
            return c((n,), g(self.y), trials=g(self.tr), **kw)
        return c((n,), g(self.y), **kw)

    def points(self, rng, k=3):
        lim = (8. if self.fam in ("poisson", "cloglog") else 25.) / (np.abs(self.A).sum(1).max() + 1)
        return [np.clip(C.point(rng, (self.p,)), -lim, lim) for _ in range(k)]

    def scale(self, b, w):
        w = np.ones(self.n) if w is None else np.asarray(w, float)
        o = 0 if self.po is None else self.po
        so = 0 if self.so is None else self.so
        e = self.A.dot(b - o) - so
        if self.fam == "cox":
            m = np.abs(e).max() + np.log(self.n + 1) + 1
            return self.coef * w.sum() * m
        r = L.FAM[self.fam](self.y, self.tr, self.eps)
        return self.coef * (w * r.mag(e)).sum() + 1e-9


def same_model(case, D, a, b, pts, w, key):
    """equal objective differences, gradients and (where offered) Hessians"""
    va = [a.smooth_objective(x, "both") for x in pts]
    vb = [b.smooth_objective(x, "both") for x in pts]
    cs = np.abs(D.A).sum(0).max() + 1
    for i, x in enumerate(pts):
        sc = max(D.scale(x, w), D.scale(pts[0], w))
        case.close(va[i][0] - va[0][0], vb[i][0] - vb[0][0], key + ":value", 1e-9, sc)
        case.close(va[i][1], vb[i][1], key + ":grad", 1e-9, sc * cs)
    if hasattr(D, "y") and D.fam.startswith("huber"):
        return
    d = lambda H: H.toarray() if sp.issparse(H) else H
    case.close(d(a.hessian(pts[0])), d(b.hessian(pts[0])), key + ":hessian", 1e-8, D.scale(pts[0], w) * cs ** 2)


def index_kinds(rng, keep):
    k = np.nonzero(keep)[0]
    m = rng.integers(0, 5)
    if m == 0:
        return k
    if m == 1:
        return keep.copy()
    if m == 2:
        return list(k)
    if m == 3:
        return rng.permutation(k)
    return np.concatenate([k, k[:1]]) if len(k) else k


def setup(case):
    rng = case.rng
    fam = FAMS[case.index % len(FAMS)]
    n, p = C.dim(rng, 2, 9), C.dim(rng, 1, 4)
    D = Data(rng, fam, n, p)
    case.note(**D.desc())
    return rng, fam, n, D


def f_replicate(case):
    rng, fam, n, D = setup(case)
    w = rng.integers(0, 4, n)
    if not w.any():
        w[0] = 2
    rows = np.repeat(np.arange(n), w)
    wt = [w, w.astype(float), list(w) if False else w][rng.integers(0, 3)]
    case.note(w=w)
    pts = D.points(rng)
    a, b = D.glm(w=wt), D.glm(rows)
    same_model(case, D, a, b, pts, w, "replicate:" + fam)
    same_model(case, D, a, b, pts, w, "replicate-again:" + fam)
    # fractional weights are linear: w = u + v (not for the survival loss, whose risk sets are weighted too)
    if fam != "cox":
        u = np.round(rng.uniform(0, 2, n), 3)
        A_, B_ = D.glm(w=u), D.glm(w=w + u)
        for x in pts:
            sc = D.scale(x, w + u)
            ga, gb, gc = (l.smooth_objective(x, "grad") for l in (A_, B_, a))
            case.close(gb, ga + gc, "additive:" + fam, 1e-9, sc * (np.abs(D.A).sum(0).max() + 1))
    # saturated level
    s1, s2 = D.sat(w=w), D.sat(rows)
    for x in pts:
        eta = D.A.dot(x)
        sc = D.scale(x, w)
        v1, g1 = s1.smooth_objective(eta, "both")
        v2, g2 = s2.smooth_objective(eta[rows], "both")
        acc = np.zeros(n)
        np.add.at(acc, rows, g2)
        case.close(g1, acc, "replicate-sat:%s:grad" % fam, 1e-9, sc)
        v3, g3 = D.sat().smooth_objective(eta, "both", case_weights=wt)
        case.close(g3, g1, "call-weights:%s" % fam, 1e-12, sc)
        case.close(v3, v1, "call-weights:%s" % fam, 1e-12, sc)
    case.event("replicate:" + fam)


def f_subsample(case):
    rng, fam, n, D = setup(case)
    w = S.weights(rng, n)
    pts = D.points(rng)
    full = D.glm(w=w)
    gc = float(rng.choice([1., 1., 2.5]))       # scale set on the model itself
    full.coef = full.coef * gc
    case.note(glm_coef=gc)
    before = [full.smooth_objective(x, "both") for x in pts]
    before = [(v, np.array(g)) for v, g in before]
    cw0 = np.array(full.case_weights)
    W = np.ones(n) if w is None else np.asarray(w, float)
    cur, keep = full, np.ones(n, bool)
    chain = []
    for step in range(int(rng.integers(1, 4))):
        k = rng.random(n) < 0.7
        idx = index_kinds(rng, k)
        keep = keep & k
        cur = cur.subsample(idx)
        chain.append(cur)
        case.note(**{"idx%d" % step: k, "w": w})
        rows = np.nonzero(keep)[0]
        if len(rows) == 0 or not W[rows].any():
            g = cur.smooth_objective(pts[0], "grad")
            case.close(g, np.zeros(D.p), "empty-subsample", 1e-12, 1.)
            case.event("empty")
            continue
        ref = D.glm(rows, w=None if w is None else W[rows])
        ref.coef = ref.coef * gc
        same_model(case, D, cur, ref, pts, W * keep, "subsample:" + fam)
        # interleave: the parent has not changed
        i = int(rng.integers(0, len(pts)))
        v, g = full.smooth_objective(pts[i], "both")
        case.same(v, before[i][0], "parent-changed:" + fam)
        case.same(g, before[i][1], "parent-changed:" + fam)
        case.event("chain:%d" % (step + 1))
    case.same(full.case_weights, cw0, "parent-weights:" + fam)
    case.event("subsample:" + fam)


def f_saturated(case):
    """subsampling the saturated loss itself, with and without its own weights"""
    rng, fam, n, D = setup(case)
    w = S.weights(rng, n)
    W = np.ones(n) if w is None else np.asarray(w, float)
    sat = D.sat(w=w)
    pts = [D.A.dot(x) for x in D.points(rng)]
    before = [(v, np.array(g)) for v, g in (sat.smooth_objective(e, "both") for e in pts)]
    keep = np.ones(n, bool)
    cur = sat
    for step in range(int(rng.integers(1, 4))):
        k = rng.random(n) < .7
        keep &= k
        cur = cur.subsample(index_kinds(rng, k))
        rows = np.nonzero(keep)[0]
        extra = S.weights(rng, n) if rng.random() < .3 else None
        ex = np.ones(n) if extra is None else np.asarray(extra, float)
        kw = {} if extra is None else dict(case_weights=np.array(extra))
        if len(rows) == 0 or not (W * ex)[rows].any():
            continue
        ref = D.sat(rows, w=(W * ex)[rows])
        va = [cur.smooth_objective(e, "both", **kw) for e in pts]
        vb = [ref.smooth_objective(e[rows], "both") for e in pts]
        sc = max(D.coef * 1e-3, max(abs(v[0]) for v in vb + va)) + D.coef * (W * ex).sum() * max(np.abs(e).max() ** 2 + 1 for e in pts)
        for i in range(len(pts)):
            case.close(va[i][0] - va[0][0], vb[i][0] - vb[0][0], "sat-subsample:%s:value" % fam, 1e-9, sc)
            case.close(va[i][1][rows], vb[i][1], "sat-subsample:%s:grad" % fam, 1e-9, sc)
            case.close(np.delete(va[i][1], rows), np.zeros(n - len(rows)), "sat-subsample:%s:dropped" % fam, 1e-12, sc)
        for e, (v, g) in zip(pts, before):
            v1, g1 = sat.smooth_objective(e, "both")
            case.same(v1, v, "sat-parent-changed:" + fam)
            case.same(g1, g, "sat-parent-changed:" + fam)
        case.event("sat:" + fam)


def f_fit(case):
    """fits of weighted, replicated and subsampled models coincide"""
    rng = case.rng
    fam = FAMS[case.index % len(FAMS)]
    n, p = int(rng.integers(6, 12)), int(rng.integers(1, 4))
    D = Data(rng, fam, n, p)
    w = rng.integers(0, 3, n)
    w[:2] = 1
    rows = np.repeat(np.arange(n), w)
    case.note(w=w, **D.desc())
    q = rr.identity_quadratic(1., 0, 0, 0)
    fit = lambda l: l.solve(quadratic=q, tol=1e-14, min_its=50, max_its=2000).copy()
    a, b = fit(D.glm(w=w)), fit(D.glm(rows))
    case.close(a, b, "fit-replicate:" + fam, 2e-4)
    k = rng.random(n) < .7
    k[:2] = True
    r2 = np.nonzero(k)[0]
    c, d = fit(D.glm(w=w).subsample(r2)), fit(D.glm(r2, w=w[r2]))
    case.close(c, d, "fit-subsample:" + fam, 2e-4)
    case.event("fit:" + fam)


FAMILIES = [
    Family("replicate", f_replicate, 700, 50000),
    Family("subsample", f_subsample, 700, 50000),
    Family("saturated", f_saturated, 500, 40000),
    Family("fit", f_fit, 80, 2000),
]
