"""P09 normalize: oracle is the explicitly centred and scaled dense matrix."""
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
from rv.core import Family, Skip
from rv import catalog as C


def design(rng, n, p):
    """dense float64 reference and the object handed to the library"""
    X = rng.standard_normal((n, p))
    kinds = []
    for j in range(p):
        k = int(rng.integers(0, 12))
        kinds.append(k)
        if k == 0:
            X[:, j] = [0., 1., 0.1, -3.7, 1e5 / 3, 1e-3][rng.integers(0, 6)]
        elif k == 1:
            X[:, j] = X[:, j] * 10. ** rng.integers(-4, 5)
        elif k == 2:
            X[:, j] = X[:, j] + 10. ** rng.integers(0, 4) * rng.choice([-1, 1])
        elif k == 3:
            X[:, j] *= rng.random(n) < 0.3
        elif k == 4:
            X[:, j] = rng.integers(0, 3, n)
        elif k == 5 and j:
            X[:, j] = -X[:, j - 1]
        elif k == 6:
            X[:, j] = 0
            X[rng.integers(0, n), j] = rng.standard_normal()
    if rng.random() < .15:      # the whole design in other units
        X = X * 10. ** rng.choice([-14, -12, -10, -8, 8, 12])
    m = rng.integers(0, 8)
    if m == 0:
        X = np.round(X).clip(-1000, 1000)
        return X, X.astype([np.int64, np.int32, np.int16][rng.integers(0, 3)]), "int"
    if m == 1:
        return X, np.asfortranarray(X), "F"
    if m == 2:
        return X, np.repeat(X, 2, axis=0)[::2], "strided"
    if m in (3, 4, 5):
        X = X * (rng.random((n, p)) < 0.6)
        f = [sp.csr_matrix, sp.csc_matrix][rng.integers(0, 2)]
        S = f(X)
        if rng.random() < 0.2:
            X = np.round(X).clip(-1000, 1000)
            S = f(X.astype(int))
        elif rng.random() < 0.3 and S.nnz:         # explicitly stored zeros
            S.data[rng.random(S.nnz) < .3] = 0.
            X = S.toarray()
        return X, S, "sparse"
    return X, X.copy(), "dense"


def explicit(X, center, scale, value, ddof):
    n = X.shape[0]
    mu = X.mean(0) if center else np.zeros(X.shape[1])
    Xc = X - mu
    const = np.all(X == X[0], axis=0) if center else np.all(X == 0, axis=0)
    Xc[:, const] = 0
    if scale:
        d = ddof if center else ddof - 1
        if center:
            Xc = Xc - Xc.mean(0)
        sd = np.sqrt((Xc ** 2).sum(0) / (n - d))
        sd[const] = 1.
        Xc = Xc / sd * value
    return Xc, mu, const


def options(rng, n):
    o = {}
    if rng.random() < .6:
        o["center"] = bool(rng.random() < .5)
    if rng.random() < .6:
        o["scale"] = bool(rng.random() < .6)
    if rng.random() < .4:
        o["intercept"] = bool(rng.random() < .7)
    if rng.random() < .4:
        o["value"] = float([2., .5, np.sqrt(n), 1. / np.sqrt(n), 10][rng.integers(0, 5)])
    if rng.random() < .4:
        o["ddof"] = int(rng.integers(0, 3))
    return o


def opt(o):
    return (o.get("center", True), o.get("scale", True), o.get("intercept", False), o.get("value", 1), o.get("ddof", 1))


def unscalable(X, o):
    """columns so close to constant that centering leaves rounding only"""
    c, s, i, v, d = opt(o)
    if not (c and s):
        return False
    Xc = X - X.mean(0)
    const = np.all(X == X[0], axis=0)
    r = np.sqrt((Xc ** 2).mean(0))
    return bool(np.any(~const & (r <= 1e-9 * np.abs(X).max(0))))


def make(rng, nmin=3, nmax=20, pmax=8, o=None):
    n, p = C.dim(rng, nmin, nmax), C.dim(rng, 1, pmax)
    X, M, kind = design(rng, n, p)
    o = options(rng, n) if o is None else o
    if unscalable(X, o):
        raise Skip("numerically constant column")
    A, mu, const = explicit(X, *[opt(o)[k] for k in (0, 1, 3, 4)])
    if opt(o)[2]:
        A = np.hstack([np.ones((n, 1)), A])
    return X, M, kind, o, A, const


def lossfactor(X, o):
    """how much cancellation the composition centre(M diag x) itself amplifies"""
    c, s, i, v, d = opt(o)
    if not c:
        return np.ones(X.shape[1])
    sd = (X - X.mean(0)).std(0)
    return 1 + np.where(sd > 0, np.abs(X.mean(0)) / np.where(sd > 0, sd, 1), 0)


def snapshot(M):
    return (M.toarray().copy(), M.data.copy(), M.indices.copy(), M.indptr.copy()) if sp.issparse(M) else M.copy()


def unchanged(case, M, snap, key):
    if sp.issparse(M):
        for a, b in zip((M.toarray(), M.data, M.indices, M.indptr), snap):
            case.same(a, b, key)
    else:
        case.same(M, snap, key)


def f_map(case):
    rng = case.rng
    X, M, kind, o, A, const = make(rng, nmin=2 if rng.random() < .3 else 4)
    case.note(X=X, kind=kind, o=o)
    n, p = X.shape
    if opt(o)[1] and n - (opt(o)[4] if opt(o)[0] else opt(o)[4] - 1) <= 0:
        raise Skip("no degrees of freedom")
    snap = snapshot(M)
    L = rr.normalize(M, **o)
    unchanged(case, M, snap, "untouched")
    case.check(tuple(L.input_shape) == (A.shape[1],) and tuple(L.output_shape) == (n,), "shapes", (L.input_shape, L.output_shape))
    amp = lossfactor(X, o).max()
    q = A.shape[1]
    for x in [C.point(rng, (q,)), rng.standard_normal(q)] + [np.eye(q)[j] for j in range(q)]:
        x0 = x.copy()
        s = np.abs(A).dot(np.abs(x)).max() * amp
        raw = (np.abs(X).max() * np.abs(x).max() if not opt(o)[1] else 0)
        case.close(L.linear_map(x), A.dot(x), "forward", 1e-12 * q, s + raw)
        case.close(L.affine_map(x), A.dot(x), "affine", 1e-12 * q, s + raw)
        case.same(x, x0, "forward:input")
    for u in [C.point(rng, (n,)), rng.standard_normal(n), np.ones(n), np.eye(n)[rng.integers(0, n)]]:
        u0 = u.copy()
        s = np.abs(A).T.dot(np.abs(u)).max() * amp
        if opt(o)[0]:
            # centring u first and then taking M' keeps |M| |u| rounding
            s = s + (np.abs(A).max() + 1) * amp * np.abs(u).sum()
        case.close(L.adjoint_map(u), A.T.dot(u), "adjoint", 1e-12 * n, s + np.abs(X).max() * np.abs(u).sum() * (not opt(o)[1]))
        case.same(u, u0, "adjoint:input")
    if not opt(o)[2] and kind != "sparse":
        B = rng.standard_normal((q, 3))
        case.close(L.linear_map(B), A.dot(B), "columns", 1e-12 * q, np.abs(A).dot(np.abs(B)).max() * amp + np.abs(X).max() * 10 * (not opt(o)[1]))
    unchanged(case, M, snap, "untouched")
    c, s, i = opt(o)[:3]
    case.event("normalize:%s%s%s%s" % ("c" if c else "-", "s" if s else "-", "i" if i else "-", ":sparse" if kind == "sparse" else ""))
    if c and s and const.any():
        case.event("constant-column")
        for j in np.nonzero(const)[0]:
            e = np.zeros(q)
            e[j + int(i)] = 1
            case.close(L.linear_map(e), np.zeros(n), "constant-column", 1e-12, 0)


def f_weird_integer(case):
    """narrow integer types, whose squares overflow"""
    rng = case.rng
    n, p = C.dim(rng, 4, 30), C.dim(rng, 1, 5)
    dt = [np.int8, np.uint8, np.int16, np.uint16, np.float32][case.index % 5]
    X = rng.integers(0, 100, (n, p)).astype(dt)
    o = options(rng, n)
    case.note(X=X, o=o)
    if unscalable(X.astype(float), o):
        raise Skip("numerically constant column")
    A = explicit(X.astype(float), *[opt(o)[k] for k in (0, 1, 3, 4)])[0]
    o["intercept"] = False
    L = rr.normalize(X, **o)
    x = rng.standard_normal(p)
    tol = 1e-4 if dt == np.float32 else 1e-11
    case.close(L.linear_map(x), A.dot(x), "forward:narrow", tol, 100 * np.abs(x).sum())
    u = rng.standard_normal(n)
    case.close(L.adjoint_map(u), A.T.dot(u), "adjoint:narrow", tol, 100 * np.abs(u).sum())
    case.event("narrow:" + np.dtype(dt).name)


def f_fit(case):
    """models fitted through the transform agree with the explicit matrix"""
    rng = case.rng
    o = options(rng, 30)
    n, p = C.dim(rng, 12, 30), C.dim(rng, 1, 5)
    X, M, kind, o, A, const = make(rng, nmin=12, nmax=30, pmax=5, o=o)
    n = X.shape[0]
    # keep the comparison well conditioned: look at optimal values and gradients rather than coefficients
    q = A.shape[1]
    if np.abs(A).max() > 1e3 or lossfactor(X, o).max() > 1e4:
        raise Skip("badly scaled")
    L = rr.normalize(M, **o)
    Y = rng.standard_normal(n) + A.dot(rng.standard_normal(q)) / (1 + np.abs(A).max())
    fam = ["gaussian", "logistic", "poisson"][case.index % 3]
    if fam == "gaussian":
        mk = [lambda D: rr.squared_error(D, Y), lambda D: rr.glm.gaussian(D, Y)][rng.integers(0, 2)]
    elif fam == "logistic":
        Yb = (Y > np.median(Y)).astype(float)
        mk = lambda D: rr.glm.logistic(D, Yb)
    else:
        Yc = rng.poisson(1.5, n).astype(float)
        mk = lambda D: rr.glm.poisson(D, Yc)
    l1, l2 = mk(L), mk(A)
    case.note(X=X, kind=kind, o=o, fam=fam)
    for _ in range(3):
        b = rng.standard_normal(q) / (1 + np.abs(A).max() * np.sqrt(q))
        v1, g1 = l1.smooth_objective(b, "both")
        v2, g2 = l2.smooth_objective(b, "both")
        case.close(v1, v2, "fit:value", 1e-9)
        case.close(g1, g2, "fit:grad", 1e-8, np.abs(A).max() * n)
    lam = 0.1 * np.abs(l2.smooth_objective(np.zeros(q), "grad")).max() + 0.01
    pen = rr.l1norm(q, lagrange=lam)
    ridge = rr.identity_quadratic(0.5, 0, 0, 0)
    s1 = rr.simple_problem(l1, pen).solve(ridge, tol=1e-13, min_its=50)
    s2 = rr.simple_problem(l2, pen).solve(ridge, tol=1e-13, min_its=50)
    obj = lambda b: l2.smooth_objective(b, "func") + lam * np.abs(b).sum() + 0.25 * (b ** 2).sum()
    case.close(obj(s1), obj(s2), "fit:objective", 1e-7)
    case.close(s1, s2, "fit:solution", 2e-4, np.abs(s2).max())
    if opt(o)[0] and opt(o)[1]:
        for j in np.nonzero(const)[0]:
            case.close(s1[j + int(opt(o)[2])], 0., "fit:constant", 1e-10)
    case.event("fit:" + fam)


FAMILIES = [Family("map", f_map, 2500, 12000, need=["normalize:cs-", "normalize:-s-", "normalize:c--", "normalize:csi", "normalize:cs-:sparse",
                                                  "normalize:-s-:sparse", "constant-column"]),
            Family("narrow", f_weird_integer, 40, 400),
            Family("fit", f_fit, 150, 600, need=["fit:gaussian", "fit:logistic", "fit:poisson"])]
