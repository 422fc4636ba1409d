"""P19 the survival loss against explicit risk sets."""
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
from rv.core import Family, Skip
from rv import catalog as C, losses as S, refloss as L


def data(rng, n):
    """event times with ties, failure indicators"""
    m = rng.integers(0, 7)
    t = [rng.exponential(size=n), rng.integers(1, 4, n), np.ones(n), np.arange(n)[::-1] + 1., rng.integers(-2, 3, n) * 0.5,
         np.sort(rng.integers(0, max(n // 2, 1), n)).astype(float), rng.permutation(n)][m]
    if rng.random() < .15:      # other units; nearly equal times
        t = np.asarray(t, float) * 10. ** rng.integers(-12, 12)
    elif rng.random() < .1:
        t = 3. + np.asarray(t, float) * 2. ** -46
    m = rng.integers(0, 6)
    d = [rng.integers(0, 2, n), np.ones(n, int), np.zeros(n, int), rng.random(n) < 0.7, (rng.random(n) < 0.5) * 1., rng.integers(0, 2, n)][m]
    return t, d


def eta(rng, n):
    m = rng.integers(0, 7)
    return [np.zeros(n), rng.standard_normal(n), rng.standard_normal(n) * 3, rng.integers(-3, 4, n), rng.standard_normal(n) + 50 * rng.standard_normal(),
            rng.uniform(-100, 100, n), np.repeat(rng.standard_normal(n), 2)[::2]][m]


def make(case, n=None):
    rng = case.rng
    n = n or C.dim(rng, 1, 12)
    t, d = data(rng, n)
    w, c, so = S.weights(rng, n), S.coef(rng), S.offs(rng, n)
    case.note(t=t, d=d, w=w, coef=c, so=so)
    cp = lambda a: None if a is None else np.array(a)
    loss = rr.cox_loglike((n,), cp(t), cp(d), coef=c, offset=cp(so), case_weights=cp(w))
    return n, t, d, w, c, so, loss, L.Cox(t, d, c, so, w)


def ask(case, loss, x, ref, key, **kw):
    x0 = np.array(x)
    v = None
    for m in case.rng.permutation(["func", "grad", "both"]):
        r = loss.smooth_objective(x, str(m), **kw)
        if m != "grad":
            u = r if m == "func" else r[0]
            v = u if v is None else v
            case.close(u, v, key + ":modes", 1e-12, ref.mag(x0))
            case.close(u, ref.val(x0), key + ":value", 1e-10, ref.mag(x0))
        if m != "func":
            g = r if m == "grad" else r[1]
            case.close(g, ref.grad(x0), key + ":grad", 1e-10, ref.coef * (ref.w.sum() + 1))
    case.same(x, x0, key + ":argument-changed")
    return v


def f_value(case):
    rng = case.rng
    n, t, d, w, c, so, loss, ref = make(case)
    kw = {}
    if rng.random() < 0.4:
        cw = S.weights(rng, n)
        if cw is not None:
            kw, ref = dict(case_weights=np.array(cw)), ref.weighted(cw)
    for _ in range(3):
        x = eta(rng, n)
        ask(case, loss, x, ref, "cox", **kw)
        h = ref.hess(np.asarray(x, float))
        v = rng.standard_normal(n)
        case.close(loss.hessian_mult(x, v, **kw), h.dot(v), "cox:hessian_mult", 1e-9, c * ref.w.sum() * np.abs(v).max())
        case.event("ties" if len(np.unique(t)) < n else "distinct")
        case.event("censored" if not np.asarray(d).any() else "failures")
    if case.index % 3 == 0:     # new data on the same object
        t2, d2 = data(rng, n)
        loss.data = np.array([t2, d2]).T
        r2 = L.Cox(t2, d2, c, so, w)
        if kw:
            r2 = r2.weighted(cw)
        ask(case, loss, eta(rng, n), r2, "cox-newdata", **kw)
        case.event("newdata")


def f_invariance(case):
    """library against library: reordering, monotone time changes, constant shifts, rescaled weights"""
    rng = case.rng
    n, t, d, w, c, so, loss, ref = make(case)
    x = np.asarray(eta(rng, n), float)
    v, g = loss.smooth_objective(x, "both")
    g = np.array(g)
    mag = ref.mag(x)
    gm = c * (ref.w.sum() + 1)
    pi = rng.permutation(n)
    take = lambda a: None if a is None else np.asarray(a)[pi]
    l2 = rr.cox_loglike((n,), take(t), take(d), coef=c, offset=take(so), case_weights=take(w))
    v2, g2 = l2.smooth_objective(x[pi], "both")
    case.close(v2, v, "perm:value", 1e-10, mag)
    case.close(g2, g[pi], "perm:grad", 1e-10, gm)
    f = [lambda s: np.exp(np.asarray(s, float)), lambda s: 3. * np.asarray(s) - 7, lambda s: np.asarray(s, float) ** 3,
         lambda s: np.searchsorted(np.unique(s), s)][rng.integers(0, 4)]
    if rng.random() < .5:       # times in other units, far from zero, or nearly equal; the order must survive exactly
        a = 10. ** rng.integers(-13, 13)
        f = [lambda s: np.asarray(s, float) * a, lambda s: np.asarray(s, float) * a - 5 * a, lambda s: 1. + np.searchsorted(np.unique(s), s) * 2. ** -50,
             lambda s: 1e6 + np.searchsorted(np.unique(s), s) * 1e-8, lambda s: np.nextafter(0, 1) * np.searchsorted(np.unique(s), s)][rng.integers(0, 5)]
        if rng.random() < .3 and len(t) > 1:
            f = lambda s: np.where(np.asarray(s) == np.max(s), 1e300, np.asarray(s, float))
        case.event("extreme-times")
    tt = f(t)
    if np.array_equal(np.unique(tt, return_inverse=True)[1], np.unique(t, return_inverse=True)[1]):
        l3 = rr.cox_loglike((n,), tt, d, coef=c, offset=so, case_weights=w)
        v3, g3 = l3.smooth_objective(x, "both")
        case.close(v3, v, "monotone:value", 1e-10, mag)
        case.close(g3, g, "monotone:grad", 1e-10, gm)
        case.event("monotone")
    k = float(rng.choice([1., -3., 20., 500., -800.]))
    v4, g4 = loss.smooth_objective(x + k, "both")
    case.close(v4, v, "shift:value", 1e-9, mag + abs(k) * c * ref.w.sum())
    case.close(g4, g, "shift:grad", 1e-9, gm)
    case.close(np.sum(g), 0., "shift:grad-sum", 1e-9, gm)
    # indicator dtype
    for dd in (np.asarray(d).astype(bool), np.asarray(d).astype(float), np.asarray(d).astype(int)):
        l5 = rr.cox_loglike((n,), t, dd, coef=c, offset=so, case_weights=w)
        case.close(l5.smooth_objective(x, "func"), v, "dtype", 1e-12, mag)
    case.event("invariance")


def f_glm(case):
    rng = case.rng
    n, p = C.dim(rng, 1, 10), C.dim(rng, 1, 5)
    t, d = data(rng, n)
    w, c, so, po = S.weights(rng, n), S.coef(rng), S.offs(rng, n), S.offs(rng, p)
    X, A, kind = S.design(rng, n, p, ("dense", "F", "strided", "int", "csr", "csc"))
    case.note(t=t, d=d, w=w, coef=c, so=so, po=po, kind=kind)
    cp = lambda a: None if a is None else np.array(a)
    loss = rr.glm.cox(X, cp(t), cp(d), case_weights=cp(w), coef=c, saturated_offset=cp(so), offset=cp(po))
    ref = L.Cox(t, d, c, so, w)
    o = np.zeros(p) if po is None else po
    for k in range(3):
        b = C.point(rng, (p,)) if rng.random() < .8 else rng.integers(-2, 3, p)
        e = A.dot(b - o)
        if np.ptp(e - (0 if so is None else so)) > 500:
            continue
        v, g = loss.smooth_objective(b, "both")
        gs = np.abs(A).sum(0).max() * c * ref.w.sum()
        case.close(v, ref.val(e), "glm:value", 1e-10, ref.mag(e))
        case.close(g, A.T.dot(ref.grad(e)), "glm:grad", 1e-10, gs)
        case.close(loss.gradient(b), g, "glm:modes", 1e-12, gs)
        case.close(loss.objective(b), v, "glm:modes", 1e-12, ref.mag(e))
        H = loss.hessian(b)
        H = H.toarray() if sp.issparse(H) else H
        case.close(H, A.T.dot(ref.hess(e)).dot(A), "glm:hessian", 1e-9, gs * np.abs(A).sum(0).max())
        case.event("glm")
        if k == 1:
            m = rng.random(n) < .7
            loss, ref = loss.subsample(m), ref.weighted(m)
            case.event("glm:subsample")


FAMILIES = [
    Family("value", f_value, 1500, 120000),
    Family("invariance", f_invariance, 800, 60000),
    Family("glm", f_glm, 500, 40000),
]
