"""P20 factored matrices: numpy's dense SVD is the oracle."""
import numpy as np
import regreg.api as rr
import regreg.affine as ra
import regreg.affine.factored_matrix as fm
from rv.core import Family, Skip
from rv import catalog as C


def spectrum(rng, k):
    """singular values with gaps (ratio <= .6) or exact ties"""
    s, cur = [], 1.
    tied = rng.random() < .35
    for _ in range(k):
        s.append(cur)
        if not (tied and rng.random() < .6):
            cur *= rng.uniform(.25, .6)
    return np.array(s)


def orth(rng, n, k):
    return np.linalg.qr(rng.standard_normal((n, k)))[0]


def matrix(rng, n=None, p=None, r=None, scale=True):
    n = int(C.dim(rng, 1, 14)) if n is None else n
    p = int(C.dim(rng, 1, 14)) if p is None else p
    k = min(n, p)
    r = int(rng.integers(0, min(k, 9) + 1)) if r is None else r
    D = spectrum(rng, r) * (10. ** rng.uniform(-7, 7) if scale and rng.random() < .5 else rng.uniform(.5, 5))
    if rng.random() < .25:           # singular vectors with disjoint supports
        U, V = np.eye(n)[:, rng.permutation(n)[:r]], np.eye(p)[:, rng.permutation(p)[:r]]
        U = U * rng.choice([-1, 1], r)
    else:
        U, V = orth(rng, n, r), orth(rng, p, r)
    return (U * D).dot(V.T), U, D, V


def dense(T, shape):
    return np.array([T.linear_map(e) for e in np.eye(shape[1])]).T.reshape(shape)


def acts(case, F, X, tag, tol, offset=None):
    rng = case.rng
    n, p = X.shape
    s = max(np.linalg.norm(X, 2), 0) if X.size else 0
    lim = lambda m: tol * s * m
    def near(a, b, m, key):
        a, b = np.asarray(a), np.asarray(b)
        case.check(a.shape == b.shape, key + ":shape", (a.shape, b.shape))
        d = np.abs(a - b).max() if a.size else 0.
        case.check(d <= lim(m) + 1e-300, key, lambda: "deviation %g > %g" % (d, lim(m)))
    case.check(tuple(F.input_shape) == (p,) and tuple(F.output_shape) == (n,), tag + ":shapes", (F.input_shape, F.output_shape))
    for x in (rng.standard_normal(p), rng.integers(-3, 4, p), rng.standard_normal((p, 3))):
        near(F.linear_map(x), X.dot(x), np.linalg.norm(x), tag + ":forward")
        if offset is None:
            near(F.affine_map(x), X.dot(x), np.linalg.norm(x), tag + ":affine")
        elif x.ndim == 1:
            d = np.abs(F.affine_map(x) - (X.dot(x) + offset)).max()
            case.check(d <= lim(np.linalg.norm(x)) + 1e-12 * np.abs(offset).max(), tag + ":affine", d)
    for u in (rng.standard_normal(n), rng.integers(-3, 4, n), rng.standard_normal((n, 3))):
        near(F.adjoint_map(u), X.T.dot(u), np.linalg.norm(u), tag + ":adjoint")
    x, u = rng.standard_normal(p), rng.standard_normal(n)
    a, b = u.dot(F.linear_map(x)), x.dot(F.adjoint_map(u))
    case.check(abs(a - b) <= 1e-11 * s * np.linalg.norm(x) * np.linalg.norm(u) * 10 + 1e-300, tag + ":adjoint-identity", (a, b))


def orthonormal(case, U, D, VT, tag):
    k = U.shape[1]
    case.check(VT.shape[0] == k and np.size(D) == k, tag + ":factor-shapes", (U.shape, np.shape(D), VT.shape))
    case.close(U.T.dot(U), np.eye(k), tag + ":orthonormal-left", 1e-9)
    case.close(VT.dot(VT.T), np.eye(k), tag + ":orthonormal-right", 1e-9)
    case.check(np.all(np.asarray(D) >= 0), tag + ":nonnegative", D)


def f_factor(case):
    rng = case.rng
    X, U, D, V = matrix(rng)
    n, p = X.shape
    r = len(D)
    kw = {}
    if rng.random() < .4:
        kw["initial_rank"] = int(rng.integers(1, min(n, p) + 4))
    big = max(n, p)
    if rng.random() < .4 and r:
        m = rng.integers(0, 4)
        side = (U if n >= p else V)
        if m == 0:
            kw["initial"] = side[:, -1].copy()                # orthogonal to the leading one
        elif m == 1:
            kw["initial"] = rng.standard_normal((big, int(rng.integers(1, 8))))
        elif m == 2:
            kw["initial"] = side[:, ::-1].copy()
        else:
            kw["initial"] = rng.standard_normal(big)
    if rng.random() < .3:
        kw["min_singular"] = 1e-8
    off = rng.standard_normal(n) if rng.random() < .3 else None
    if off is not None:
        kw["affine_offset"] = off.copy()
    case.note(n=n, p=p, D=D, kw=kw)
    X0 = X.copy()
    lin = X if rng.random() < .6 else [ra.astransform(X), ra.adjoint(ra.astransform(X.T)), ra.composition(ra.astransform(U * D), ra.astransform(V.T.copy())) if r else X][rng.integers(0, 3)]
    F = fm.factored_matrix(lin, tol=1e-13, **kw)
    case.same(X, X0, "factor:input")
    FU, FD, FV = F.factors
    s1 = D[0] if r else 1.
    orthonormal(case, FU, FD, FV, "factor")
    d = np.sort(np.asarray(FD).reshape(-1))[::-1]
    keep = max(r, 1)
    case.check(len(d) <= keep, "factor:rank", (d, D))
    case.check(len(d) == keep or D[len(d):].max() <= 1.001e-8 * s1, "factor:rank-lost", lambda: (d, D))
    if r:
        case.check(np.abs(d - D[:len(d)]).max() <= 1e-6 * s1, "factor:singular-values", lambda: (d, D))
    acts(case, F, X, "factor", 1e-5, off)
    case.check(np.abs(F.X - X).max() <= 1e-5 * s1, "factor:X", lambda: np.abs(F.X - X).max())
    G = F.copy()
    acts(case, G, X, "copy", 1e-5, off)
    G.factors[1][...] = 0
    acts(case, F, X, "copy-independent", 1e-5, off)
    case.event("factor:%s" % ("wide" if n < p else "tall"))
    case.event("factor:rank%s" % (r if r < 2 else "n"))
    if "initial" in kw:
        case.event("factor:guess")
    else:
        Y = matrix(rng, n, p)[0]          # replaced map
        F.X = Y
        acts(case, F, Y, "reset", 1e-5, off)


def f_truncated(case):
    rng = case.rng
    n, p = int(C.dim(rng, 3, 14)), int(C.dim(rng, 3, 14))
    r = int(rng.integers(2, min(n, p, 9) + 1))
    X, U, D, V = matrix(rng, n, p, r)
    cut = float(np.sqrt(D[r // 2] * D[r // 2 - 1]) / D[0]) if D[r // 2] < D[r // 2 - 1] else None
    if cut is None:
        raise Skip("tied at the cut")
    case.note(n=n, p=p, D=D, cut=cut)
    # the iteration stops when the first `rank` values have converged; the padding comes along with less accuracy
    tight = rng.random() < .6
    F = fm.factored_matrix(X, min_singular=cut, tol=1e-13, initial_rank=r if tight else int(rng.integers(1, r + 1)))
    FU, FD, FV = F.factors
    orthonormal(case, FU, FD, FV, "truncated")
    d = np.sort(np.asarray(FD).reshape(-1))[::-1]
    case.check(len(d) >= r // 2, "truncated:lost", lambda: (d, D, cut))
    case.check(len(d) <= r, "truncated:rank", lambda: (d, D, cut))
    case.check(np.abs(d - D[:len(d)]).max() <= (1e-6 if tight else 5e-2) * D[0], "truncated:leading", lambda: (d, D))
    k = len(d)
    best = (U[:, :k] * D[:k]).dot(V[:, :k].T)
    if tight and (k == r or D[k] < D[k - 1]):
        acts(case, F, best, "truncated", 1e-5)
    # the partial decomposition
    rank = int(rng.integers(1, min(n, p) + 2))
    pad = int(rng.integers(0, 5))
    full = bool(rng.random() < .4)
    PU, PD, PV = fm.partial_svd(X, rank=rank, padding=pad, tol=1e-13, return_full=full)
    orthonormal(case, PU, PD, PV, "partial")
    q = min(rank + (pad if full else 0), n, p, r)
    case.check(len(PD) == q, "partial:rank", (len(PD), q))
    if not full:
        case.check(np.abs(np.sort(PD)[::-1] - D[:q]).max() <= 1e-5 * D[0], "partial:leading", lambda: (PD, D))
        if q == r or D[q] < D[q - 1]:
            d = np.abs((PU * PD).dot(PV) - (U[:, :q] * D[:q]).dot(V[:, :q].T)).max()
            case.check(d <= 1e-4 * D[0], "partial:best-approximation", d)
    case.event("truncated")


def f_given(case):
    """built from given factors"""
    rng = case.rng
    n, p = int(C.dim(rng, 1, 9)), int(C.dim(rng, 1, 9))
    k = int(rng.integers(0, min(n, p) + 1))
    U, V, D = orth(rng, n, k), orth(rng, p, k), np.sort(np.abs(rng.standard_normal(k)))[::-1].copy()
    X = (U * D).dot(V.T)
    off = rng.standard_normal(n) if rng.random() < .5 else None
    DD = D
    if k == 1:
        m = rng.integers(0, 3)
        DD = [D, D.reshape((1, 1)), D][m]
        U_, V_ = (U, V.T) if m < 2 else (U[:, 0], V[:, 0])
    else:
        U_, V_ = U, V.T
    case.note(n=n, p=p, D=D)
    F = fm.factored_matrix([(U_, DD, V_), [U_, DD, V_]][rng.integers(0, 2)], affine_offset=off)
    acts(case, F, X, "given", 1e-12, off)
    case.check(np.abs(F.X - X).max() <= 1e-12 * (1 + D.max() if k else 1), "given:X")
    acts(case, F.copy(), X, "given-copy", 1e-12, off)
    case.event("given:%s" % (k if k < 2 else "n"))


def l1ball(d, b):
    if d.sum() <= b:
        return d
    u = np.sort(d)[::-1]
    c = np.cumsum(u) - b
    k = np.nonzero(u * np.arange(1, len(u) + 1) > c)[0][-1]
    return np.maximum(d - c[k] / (k + 1.), 0)


def f_prox(case):
    """low rank proximal maps, also with a history of different matrices through one atom"""
    rng = case.rng
    n, p = int(C.dim(rng, 1, 13)), int(C.dim(rng, 1, 13))
    kind = ["nuclear", "operator"][case.index % 2]
    form = ["lagrange", "bound"][(case.index // 2) % 2]
    tight = rng.random() < .7
    par = float(np.exp(rng.uniform(-1.5, 1.5)))
    cls = fm.nuclear_norm if kind == "nuclear" else fm.operator_norm
    kw = {form: par}
    if rng.random() < .4:
        kw["initial_rank"] = int(rng.integers(1, min(n, p) + 3))
    if rng.random() < .3:
        kw["warm_start"] = rng.standard_normal((max(n, p), kw.get("initial_rank", 10)))
    atom = cls((n, p), **kw)
    conj = rng.random() < .35
    if conj:                          # reached as the conjugate of the other atom, in the other form
        other = fm.operator_norm if kind == "nuclear" else fm.nuclear_norm
        atom = other((n, p), **{["bound", "lagrange"][form == "bound"]: par}, **{k: v for k, v in kw.items() if k != form})
        atom = atom.conjugate
        case.check(isinstance(atom, cls), "prox:conjugate-kind", lambda: type(atom))
        case.check(getattr(atom, form) == par and tuple(atom.shape) == (n, p), "prox:conjugate-form", lambda: (atom.bound, atom.lagrange))
    if tight:
        atom.svd_tol = 1e-13
        if kind == "operator":
            atom._nuclear_atom.svd_tol = 1e-13
    tol = 2e-5 if tight else 3e-2
    case.note(n=n, p=p, kind=kind, form=form, par=par, kw=sorted(kw))
    for step in range(int(rng.integers(1, 5))):
        X, U, D, V = matrix(rng, n, p, scale=False)
        L = float(np.exp(rng.uniform(-1, 1))) if rng.random() < .5 else 1.
        q = par
        if rng.random() < .3:
            q = float(np.exp(rng.uniform(-1.5, 1.5)))
        if form == "lagrange":
            call = lambda: atom.lagrange_prox(X, L) if q == par else atom.lagrange_prox(X, L, lagrange=q)
            nd = np.maximum(D - q / L, 0) if kind == "nuclear" else D - l1ball(D, q / L)
        else:
            call = lambda: atom.bound_prox(X) if q == par else atom.bound_prox(X, bound=q)
            nd = l1ball(D, q) if kind == "nuclear" else np.minimum(D, q)
        X0 = X.copy()
        how = "direct"
        if q == par and rng.random() < .4 and kind == "nuclear":
            how = "proximal"
            T = atom.proximal(rr.identity_quadratic(L, X, 0, 0))
        else:
            T = call()
        got = dense(T, (n, p))
        exp = (U * nd).dot(V.T)
        s = max(D.max() if len(D) else 0., q / L, q)
        d = np.abs(got - exp).max()
        case.check(d <= tol * s, "prox:%s:%s" % (kind, form), lambda: "dev %g > %g (step %d, D=%s, new=%s)" % (d, tol * s, step, D, nd))
        case.same(X, X0, "prox:input")
        u = rng.standard_normal(n)
        case.check(np.abs(T.adjoint_map(u) - got.T.dot(u)).max() <= 1e-9 * s * n, "prox:adjoint")
        if kind == "nuclear":
            orthonormal(case, *T.factors, tag="prox")
        case.event("prox:%s:%s" % (kind, form))
        if step:
            case.event("prox:history")
        if conj:
            case.event("prox:conjugate")


FAMILIES = [Family("factor", f_factor, 500, 12000, need=["factor:wide", "factor:tall", "factor:rank0", "factor:rank1", "factor:rankn", "factor:guess"]),
            Family("truncated", f_truncated, 300, 8000, need=["truncated"]),
            Family("given", f_given, 200, 4000, need=["given:0", "given:1", "given:n"]),
            Family("prox", f_prox, 400, 8000, need=["prox:%s:%s" % (k, f) for k in ("nuclear", "operator") for f in ("lagrange", "bound")] + ["prox:history", "prox:conjugate"])]
