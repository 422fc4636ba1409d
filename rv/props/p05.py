"""P05 smooth losses: value (up to a constant), gradient, mode agreement, convexity."""
import numpy as np
import scipy.sparse as sp
from scipy import special
import regreg.api as rr
from regreg.smooth import sum as smooth_sum, affine_smooth
from regreg.smooth.losses import huberized_svm
from regreg.smooth.quadratic import squared_error, signal_approximator, quadratic_loss
from rv.core import Family, Skip
from rv import catalog as C, losses as S, refloss as L


class Obs(object):
    """asks a loss in every mode, in random order, and compares with reference functions of the argument"""
    def __init__(self, case, loss, val, grad, mag, gscale, key, tol=1e-9, so=None):
        self.case, self.val, self.grad, self.mag, self.gscale, self.key, self.tol = case, val, grad, mag, gscale, key, tol
        self.so = so or loss.smooth_objective
        self.base = None
        self.bufs = {} if case.rng.random() < .4 else None

    def __call__(self, x):
        case, key = self.case, self.key
        x0 = np.array(x)
        if self.bufs is not None and isinstance(x, np.ndarray) and x.dtype == float:      # the caller keeps one array and refills it
            b = self.bufs.setdefault(x.shape, np.empty(x.shape))
            b[...] = x
            x = b
        ans = {}
        for m in case.rng.permutation(["func", "grad", "both", "func"]):
            r = self.so(x, mode=str(m))
            if m == "both":
                ans.setdefault("v", []).append(r[0])
                ans.setdefault("g", []).append(np.array(r[1]))
            elif m == "func":
                ans.setdefault("v", []).append(r)
            else:
                ans.setdefault("g", []).append(np.array(r))
        case.same(x, x0, key + ":argument-changed")
        v, g = ans["v"][0], ans["g"][0]
        mag = self.mag(x0)
        for o in ans["v"][1:]:
            case.close(o, v, key + ":modes-value", 1e-12, mag)
        gs = self.gscale(x0)
        for o in ans["g"][1:]:
            case.close(o, g, key + ":modes-grad", 1e-12, np.max(gs))
        rv, rg = self.val(x0), self.grad(x0)
        case.check(np.shape(v) == (), key + ":scalar", np.shape(v))
        if self.base is None:
            self.base = (v - rv, mag)
        case.close(v - rv, self.base[0], key + ":value", self.tol, max(mag, self.base[1]), "value %r ref %r" % (v, rv))
        case.check(np.shape(g) == np.shape(rg), key + ":grad-shape", "%s %s" % (np.shape(g), np.shape(rg)))
        d = np.abs(np.asarray(g, float) - rg)
        lim = self.tol * (np.max(gs) if np.ndim(gs) == 0 else gs) + 1e-11
        case.event("check:gradient")
        case.check((d <= lim).all(), key + ":grad", lambda: "got %s ref %s x %s dev %.3g" % (g, rg, x0, d.max()))
        return v, g


def convex(case, f, a, b, key, mag):
    """f at a point of the segment is not above the chord"""
    t = case.rng.random()
    m = t * a + (1 - t) * b
    va, vb, vm = f(a), f(b), f(m)
    case.leq(vm, t * va + (1 - t) * vb, key + ":convex", 1e-9, mag(a) + mag(b))


MEANS = dict(gaussian=lambda e: e, poisson=np.exp, logistic=special.expit, probit=special.ndtr,
             cloglog=lambda e: -np.expm1(-np.exp(np.minimum(e, 700))))


def f_saturated(case):
    rng = case.rng
    fam = S.ALL[case.index % len(S.ALL)]
    n = C.dim(rng, 1, 10)
    sp_ = S.Spec(rng, fam, n)
    case.note(**sp_.desc())
    loss, ref = sp_.lib(), sp_.ref()
    kw = {}
    if rng.random() < 0.4:
        cw = S.weights(rng, n)
        if cw is not None:
            kw = dict(case_weights=np.array(cw))
            ref = ref.weighted(cw)
    off = np.zeros(n) if sp_.offset is None else sp_.offset
    so = lambda x, mode: loss.smooth_objective(x, mode=mode, **kw)
    obs = Obs(case, loss, ref.val, ref.grad, ref.mag, ref.gmag, "sat:" + fam, so=so)
    pts = []
    for _ in range(3):
        x = S.etas(rng, fam, n)
        pts.append(x)
        obs(x)
    if kw:
        case.same(kw["case_weights"], cw, "sat:%s:weights-changed" % fam)
    convex(case, lambda x: so(x, "func"), pts[0].astype(float), pts[1].astype(float), "sat:" + fam, ref.mag)
    case.event("sat:" + fam)
    if fam in MEANS:             # the mean of an observation with linear predictor e
        for e in (pts[0].astype(float), rng.standard_normal(n) * 10 ** rng.uniform(-2, 3.5 if fam != "poisson" else 2)):
            e0 = e.copy()
            m, want = loss.mean_function(e), MEANS[fam](e)
            case.same(e, e0, "mean:%s:argument-changed" % fam)
            d = np.abs(np.asarray(m) - want)
            case.check(np.shape(m) == (n,) and (d <= 1e-12 + 1e-9 * np.abs(want)).all(), "mean:" + fam, lambda: "at %s: %s, not %s" % (e, m, want))
            case.event("mean:" + fam)
    if case.index % 3 == 0:      # replace the data
        y2, t2 = S.response(rng, fam, n)
        if fam in S.BINARY:
            t2 = np.ones(n) if t2 is None else t2
            loss.data = (np.array(y2), np.array(t2))
        else:
            loss.data = np.array(y2)
        sp_.y, sp_.trials = y2, t2
        ref = sp_.ref()
        if kw:
            ref = ref.weighted(cw)
        obs = Obs(case, loss, ref.val, ref.grad, ref.mag, ref.gmag, "sat-newdata:" + fam, so=so)
        obs(S.etas(rng, fam, n))
        obs(S.etas(rng, fam, n))
        case.event("sat-newdata")
    # changing the scale
    if case.index % 4 == 1:
        c2 = S.coef(rng)
        loss.coef = c2
        sp_.coef = c2
        ref = sp_.ref()
        if kw:
            ref = ref.weighted(cw)
        obs = Obs(case, loss, ref.val, ref.grad, ref.mag, ref.gmag, "sat-newcoef:" + fam, so=so)
        obs(S.etas(rng, fam, n))
        obs(S.etas(rng, fam, n))


def f_glm(case):
    rng = case.rng
    fam = S.ALL[case.index % len(S.ALL)]
    n, p = C.dim(rng, 1, 10), C.dim(rng, 1, 6)
    s = S.Spec(rng, fam, n)
    X, A, kind = S.design(rng, n, p, ("dense", "F", "strided", "int", "csr", "csc"))
    # glm asks X.shape and copies X, so the documented alternatives are arrays and sparse matrices
    poff = S.offs(rng, p)
    case.note(kind=kind, p=p, poff=poff, **s.desc())
    loss = s.glm(X, offset=None if poff is None else np.array(poff))
    ref = s.ref()
    o = np.zeros(p) if poff is None else poff
    sc = np.abs(A).sum(0) + 1
    mag = lambda b: ref.mag(A.dot(b - o))
    gmag = lambda b: np.abs(A.T).dot(ref.gmag(A.dot(b - o))) + 1e-12
    obs = Obs(case, loss, lambda b: ref.val(A.dot(b - o)), lambda b: A.T.dot(ref.grad(A.dot(b - o))), mag, gmag, "glm:" + fam)
    pts = []
    lim = S.LIMIT[fam] / (np.abs(A).sum(1).max() + 1) / 2
    for _ in range(3):
        b = np.clip(C.point(rng, (p,)), -lim, lim) if rng.random() < 0.8 else rng.integers(-1, 2, p)
        b = b + np.clip(o, -lim, lim) if rng.random() < .3 else b
        if np.abs(A.dot(b - o)).max() + (0 if s.offset is None else np.abs(s.offset).max()) > S.LIMIT[fam]:
            continue
        v, g = obs(b)
        case.close(loss.objective(b), v, "glm:%s:objective()" % fam, 1e-12, mag(b))
        case.close(loss.gradient(b), g, "glm:%s:gradient()" % fam, 1e-12, gmag(b).max())
        case.close(loss.linear_predictor(b), A.dot(b), "glm:%s:linear_predictor" % fam, 1e-12)
        pts.append(np.asarray(b, float))
    if len(pts) < 2:
        raise Skip("points out of range")
    convex(case, loss.objective, pts[0], pts[1], "glm:" + fam, mag)
    case.event("glm:" + fam)
    case.event("design:" + kind)


def f_quadratic(case):
    rng = case.rng
    n, p = C.dim(rng, 1, 8), C.dim(rng, 1, 6)
    m = case.index % 8
    c = S.coef(rng)
    X, A, kind = S.design(rng, n, p)
    y = C.point(rng, (n,)) if rng.random() < .8 else rng.integers(-3, 4, n)
    case.note(m=m, coef=c, n=n, p=p, kind=kind)
    Q = None
    if m == 0:
        loss, off = squared_error(X, y.copy(), coef=c), y
        f = lambda b: (A.dot(b) - y)
        T, q, k = A, None, "squared_error"
    elif m == 1:
        A = np.eye(n)
        loss, off, T, q, k = signal_approximator(y.copy(), coef=c), y, np.eye(n), None, "signal_approximator"
    elif m == 2:
        loss, off, T, q, k = quadratic_loss.affine(X, y.copy(), coef=c), -y, A, None, "affine"
    elif m == 3:
        off = C.point(rng, (n,))
        loss, T, q, k = quadratic_loss.linear(X, coef=c, offset=off.copy()), A, None, "linear"
    elif m == 4:
        B = rng.standard_normal((p, p + 1)); q = B.dot(B.T)
        off = C.point(rng, (p,))
        loss, T, k = quadratic_loss((p,), Q=q.copy(), coef=c, offset=off.copy()), np.eye(p), "Q"
    elif m == 5:
        d = np.abs(C.point(rng, (p,)))
        off = C.point(rng, (p,))
        q = np.diag(d)
        loss, T, k = quadratic_loss((p,), Q=d.copy(), Qdiag=True, coef=c, offset=off.copy()), np.eye(p), "Qdiag"
    elif m == 6:
        c, off = 1., C.point(rng, (p,))
        loss, T, q, k = quadratic_loss.squared_transform(X, offset=off.copy()), np.eye(p), A.T.dot(A), "squared_transform"
    else:
        c, off = 1., C.point(rng, (p,))
        if rng.random() < .5:
            d = np.abs(C.point(rng, (p,)))
            loss, T, q, k = quadratic_loss.diagonal(d.copy(), offset=off.copy()), np.eye(p), np.diag(d), "diagonal"
        else:
            B = rng.standard_normal((p, p + 1)); q = B.dot(B.T)
            loss, T, k = quadratic_loss.fromarray(q.copy(), offset=off.copy()), np.eye(p), "fromarray"
    if q is None:
        q = np.eye(T.shape[0])
    r = lambda b: T.dot(b) - off
    val = lambda b: c / 2. * r(b).dot(q).dot(r(b))
    grad = lambda b: c * T.T.dot(q.dot(r(b)))
    mag = lambda b: c * ((np.abs(T).dot(np.abs(b)) + np.abs(off))).dot(np.abs(q)).dot(np.abs(T).dot(np.abs(b)) + np.abs(off)) + 1e-12
    gm = lambda b: c * np.abs(T.T).dot(np.abs(q)).dot(np.abs(T).dot(np.abs(b)) + np.abs(off)) + 1e-12
    obs = Obs(case, loss, val, grad, mag, gm, "quad:" + k)
    pts = []
    for _ in range(3):
        b = C.point(rng, (T.shape[1],)) if rng.random() < .8 else rng.integers(-3, 4, T.shape[1])
        v, _ = obs(b)
        case.close(v, val(b), "quad:%s:exact-value" % k, 1e-10, mag(b))
        pts.append(np.asarray(b, float))
    convex(case, lambda x: loss.smooth_objective(x, "func"), pts[0], pts[1], "quad", mag)
    case.event("quad:" + k)


def f_sum(case):
    """weighted sums and affine compositions of arbitrary losses"""
    rng = case.rng
    p = C.dim(rng, 1, 5)
    K = int(rng.integers(1, 4))
    atoms, parts = [], []
    ws = [None, np.round(rng.uniform(0, 2, K), 3), rng.integers(0, 3, K), list(rng.integers(1, 3, K))][rng.integers(0, 4)]
    fams = []
    for k in range(K):
        fam = S.ALL[rng.integers(0, len(S.ALL))]
        n = C.dim(rng, 1, 6)
        s = S.Spec(rng, fam, n)
        X, A, kind = S.design(rng, n, p)
        A = A / (np.abs(A).sum(1).max() + 1.)
        m = rng.integers(0, 4)
        b = np.zeros(n)
        if m == 0:
            atoms.append(affine_smooth(s.lib(), A.copy()))
        elif m == 1:
            b = rng.standard_normal(n)
            atoms.append(affine_smooth(s.lib(), rr.affine_transform(A.copy(), b.copy())))
        elif m == 2:
            atoms.append(affine_smooth(s.lib(), sp.csr_matrix(A)))
        else:
            atoms.append(s.glm(A.copy()))
        parts.append((s.ref(), A, b))
        fams.append(fam)
    case.note(fams=fams, weights=ws, p=p)
    W = np.ones(K) if ws is None else np.asarray(ws, float)
    loss = smooth_sum(atoms, weights=ws)
    val = lambda x: sum(w * r.val(A.dot(x) + b) for w, (r, A, b) in zip(W, parts))
    grad = lambda x: sum(w * A.T.dot(r.grad(A.dot(x) + b)) for w, (r, A, b) in zip(W, parts)) + np.zeros(p)
    mag = lambda x: sum(w * r.mag(A.dot(x) + b) for w, (r, A, b) in zip(W, parts)) + 1e-12
    gm = lambda x: sum(w * np.abs(A.T).dot(r.gmag(A.dot(x) + b)) for w, (r, A, b) in zip(W, parts)) + 1e-12
    pts = []
    obs = Obs(case, loss, val, grad, mag, gm, "sum")
    for _ in range(3):
        x = np.clip(C.point(rng, (p,)), -8, 8)
        obs(x)
        pts.append(x)
    convex(case, lambda x: loss.smooth_objective(x, "func"), pts[0], pts[1], "sum", mag)
    # the members still answer as before
    for (r, A, b), a in zip(parts, atoms):
        Obs(case, a, lambda x: r.val(A.dot(x) + b), lambda x: A.T.dot(r.grad(A.dot(x) + b)),
            lambda x: r.mag(A.dot(x) + b), lambda x: np.abs(A.T).dot(r.gmag(A.dot(x) + b)) + 1e-12, "sum-member")(pts[2])
    case.event("sum")


def f_svm(case):
    rng = case.rng
    n, p = C.dim(rng, 1, 8), C.dim(rng, 1, 5)
    A = np.round(rng.standard_normal((n, p)), 3)
    y = rng.integers(0, 2, n)
    e = S.eps(rng)
    c = S.coef(rng)
    lab = [y, 2 * y - 1, y * 1., 3 + y * 2][rng.integers(0, 4)]
    off = S.offs(rng, p)
    case.note(n=n, p=p, eps=e, coef=c, lab=lab, off=off)
    loss = huberized_svm(A.copy(), lab.copy(), e, coef=c, offset=None if off is None else off.copy())
    yy = (lab == lab.max()) * 1.
    ref = L.Sat(L.HuberSVM(yy, eps=e), c)
    o = np.zeros(p) if off is None else off
    obs = Obs(case, loss, lambda b: ref.val(A.dot(b - o)), lambda b: A.T.dot(ref.grad(A.dot(b - o))), lambda b: ref.mag(A.dot(b - o)),
              lambda b: np.abs(A.T).dot(ref.gmag(A.dot(b - o))), "huberized_svm")
    for _ in range(3):
        obs(C.point(rng, (p,)))
    case.event("huberized_svm")


def f_attached(case):
    """a quadratic attached to a loss, to the loss inside a composition, or to the members of a sum, is part of the objective"""
    rng = case.rng
    m = case.index % 5
    n, p = C.dim(rng, 1, 6), C.dim(rng, 1, 5)
    X, A, kind = S.design(rng, n, p)
    A = A / (np.abs(A).sum(1).max() + 1.)
    fam = S.ALL[rng.integers(0, len(S.ALL))]
    s = S.Spec(rng, fam, n)
    b0 = rng.standard_normal(n) if rng.random() < .5 else np.zeros(n)
    tr = rr.affine_transform(A.copy(), b0.copy()) if b0.any() else A.copy()

    def quad(k):
        parts = C.quad_parts(rng, (k,), coef=float(rng.choice([0., .5, 2.])))
        return parts, C.quad_obj(parts)

    def qv(parts, x):
        c, ctr, lin, k = parts
        ctr = 0. if ctr is None else ctr
        d = x - ctr
        return c / 2. * d.dot(d) + (0. if lin is None else np.sum(lin * x)) + k

    def qg(parts, x):
        c, ctr, lin, k = parts
        return c * (x - (0. if ctr is None else ctr)) + (0. if lin is None else lin)

    def qm(parts, x):
        c, ctr, lin, k = parts
        d = np.abs(x) + (0. if ctr is None else np.abs(ctr))
        return c * d.dot(d) + (0. if lin is None else np.sum(np.abs(lin * x))) + abs(k) + 1e-9

    inner, iobj = quad(n)
    outer, oobj = quad(p)
    zero_n, zero_p = (0., None, None, 0.), (0., None, None, 0.)
    bare = s.lib()        # the same loss with nothing attached, judged by the other families
    ref = s.ref()

    class r(object):
        val = staticmethod(lambda e: bare.smooth_objective(e, 'func'))
        grad = staticmethod(lambda e: bare.smooth_objective(e, 'grad'))
        mag = staticmethod(ref.mag)
        gmag = staticmethod(ref.gmag)
    if m == 0:      # the loss itself
        loss = s.lib()
        loss.quadratic = iobj
        A, b0, inner, outer = np.eye(n), np.zeros(n), zero_n, inner
        k = "plain"
    elif m in (1, 2):    # inside, or inside and outside a composition
        base = s.lib()
        base.quadratic = iobj
        loss = affine_smooth(base, tr)
        if m == 2:
            loss.quadratic = oobj
        else:
            outer = zero_p
        k = "composed"
    elif m == 3:    # the constructors
        y = rng.standard_normal(n)
        c = S.coef(rng)
        if rng.random() < .5:
            loss = quadratic_loss.affine(A.copy(), y.copy(), coef=c, quadratic=iobj)
            o = -y
        else:
            loss = quadratic_loss.linear(A.copy(), coef=c, offset=y.copy(), quadratic=iobj)
            o = y
        b0, outer = np.zeros(n), zero_p

        class r(object):
            val = staticmethod(lambda e: c / 2. * ((e - o) ** 2).sum())
            grad = staticmethod(lambda e: c * (e - o))
            mag = staticmethod(lambda e: c * ((np.abs(e) + np.abs(o)) ** 2).sum() + 1e-12)
            gmag = staticmethod(lambda e: c * (np.abs(e) + np.abs(o)) + 1e-12)
        # the quadratic belongs to the inner function, whose own argument is the value of the transform
        k = "constructor"
        fam = "quadratic"
    else:           # a weighted sum
        w = float(np.round(rng.uniform(0, 2), 2))
        base = s.lib()
        base.quadratic = iobj
        comp = affine_smooth(base, tr)
        comp.quadratic = oobj
        other = rr.signal_approximator(np.zeros(p))
        loss = smooth_sum([comp, other], weights=[w, 1.])
        k = "sum"
    case.note(k=k, fam=fam, n=n, p=p, inner=inner, outer=outer, affine=bool(b0.any()))
    for _ in range(3):
        x = np.clip(C.point(rng, (A.shape[1],)), -8, 8)
        eta = A.dot(x) + b0
        val = r.val(eta) + qv(inner, eta) + qv(outer, x)
        grad = A.T.dot(r.grad(eta) + qg(inner, eta)) + qg(outer, x)
        mag = r.mag(eta) + qm(inner, eta) + qm(outer, x)
        gm = np.abs(A.T).dot(r.gmag(eta) + np.abs(qg(inner, eta)) + 1.) + np.abs(qg(outer, x)) + 1.
        if k == "sum":
            val, grad = w * val + .5 * x.dot(x), w * grad + x
            mag, gm = w * mag + x.dot(x), w * gm + np.abs(x)
        got = loss.smooth_objective(x.copy(), "func") + loss.nonsmooth_objective(x.copy())
        case.close(got, val, "attached:%s:value" % k, 1e-9, mag)
        g = loss.smooth_objective(x.copy(), "grad") + loss.quadratic.objective(x.copy(), "grad")
        case.close(g, grad, "attached:%s:gradient" % k, 1e-8, np.max(gm))
        v, g2 = loss.smooth_objective(x.copy(), "both")
        case.close(v + loss.nonsmooth_objective(x.copy()), val, "attached:%s:value-both" % k, 1e-9, mag)
        case.close(g2 + loss.quadratic.objective(x.copy(), "grad"), grad, "attached:%s:gradient-both" % k, 1e-8, np.max(gm))
    case.event("attached:" + k)


FAMILIES = [
    Family("saturated", f_saturated, 1400, 120000),
    Family("glm", f_glm, 1200, 80000),
    Family("quadratic", f_quadratic, 500, 30000),
    Family("attached", f_attached, 100, 20000, need=("attached:plain", "attached:composed", "attached:constructor", "attached:sum")),
    Family("sum", f_sum, 400, 20000),
    Family("svm", f_svm, 150, 8000),
]
