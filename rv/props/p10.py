"""P10 structured signal operators: oracles are textbook recursions and explicitly enumerated edges / intervals."""
from copy import copy
from math import factorial
import numpy as np
import regreg.api as rr
import regreg.affine as ra
from regreg.affine import fused_lasso as FL
from regreg.affine.image2d import formD, formD_smaller, image2d_differences
from regreg.affine.multiscale import multiscale, SMUCE_stat, choose_tuning_parameter
from rv.core import Family, Skip
from rv import catalog as C


def knots(rng, n):
    m = rng.integers(0, 6)
    if m == 0:
        k = np.arange(n)
    elif m == 1:
        k = rng.permutation(np.arange(n) * 2 - 5)
    elif m == 2:
        k = np.cumsum(rng.uniform(.2, 2, n))
    elif m == 3:
        k = rng.permutation(np.cumsum(rng.uniform(.2, 2, n)) - 4)
    elif m == 4:
        k = (np.arange(n) * 1.)[::-1]
    else:
        k = np.cumsum(rng.choice([.25, 1., 3.], n))
    if rng.random() < .15:      # other units
        k = k * 10. ** rng.integers(-12, 9)
    return k


def divided(x, f, order):
    """all divided differences f[x_i..x_{i+order}] by the two-term recursion, f may have columns"""
    t = np.array(f, float)
    for j in range(1, order + 1):
        t = np.array([(t[i + 1] - t[i]) / (x[i + j] - x[i]) for i in range(len(t) - 1)]).reshape((len(t) - 1,) + t.shape[1:])
    return t


def signal(rng, n):
    m = rng.integers(0, 4)
    x = rng.standard_normal(n) if m else np.asarray(rng.integers(-3, 4, n))
    if m == 2:
        x = np.repeat(x, 2)[::2]
    return x


def f_diff(case):
    rng = case.rng
    order = int(rng.choice([1, 1, 2, 2, 3, 4, 0]))
    n = int(C.dim(rng, order + 1, 14))
    k = knots(rng, n)
    xs = np.sort(k)
    case.note(k=k, order=order)
    k0 = np.array(k)
    ksorted = bool(rng.random() < .3)
    arg = xs.copy() if ksorted else (k.copy() if rng.random() < .8 else list(k))
    D = FL.difference_transform(arg, order=order, sorted=ksorted, transform=True)
    Dm = FL.difference_transform(arg, order=order, sorted=ksorted).toarray()
    ref = divided(xs * 1., np.eye(n), order).reshape((n - order, n))
    s = np.abs(ref).max() if ref.size else 0
    case.close(Dm, ref, "difference:matrix", 1e-10, s)
    objs = [("difference", D)]
    if order >= 1 and n > order:
        objs.append(("trend_filter", FL.trend_filter(k.copy(), order=order, sorted=bool(rng.random() < .3) and np.all(k == xs))))
        if rng.random() < .3:
            objs.append(("grid", FL.trend_filter.grid(n, order=order)))
    case.same(np.array(arg), xs if ksorted else k0, "difference:input")
    for name, T in objs:
        xx = np.arange(n) * 1. if name == "grid" else xs * 1.
        rf = divided(xx, np.eye(n), order).reshape((n - order, n))
        case.check(tuple(T.input_shape) == (n,) and tuple(T.output_shape) == (n - order,), name + ":shapes")
        for _ in range(2):
            f = signal(rng, n)
            f0 = f.copy()
            sc = (np.abs(rf).dot(np.abs(f)).max() if rf.size else 0)
            case.close(T.linear_map(f), divided(xx, f, order), name + ":forward", 1e-10, sc)
            case.close(T.affine_map(f), divided(xx, f, order), name + ":affine", 1e-10, sc)
            case.same(f, f0, name + ":input")
            u = signal(rng, n - order)
            case.close(T.adjoint_map(u), rf.T.dot(u), name + ":adjoint", 1e-10, (np.abs(rf).T.dot(np.abs(u)).max() if rf.size else 0))
        F = rng.standard_normal((n, 3))
        case.close(T.linear_map(F), divided(xx, F, order), name + ":columns", 1e-10, (np.abs(rf).dot(np.abs(F)).max() if rf.size else 0))
        U = rng.standard_normal((n - order, 2))
        case.close(T.adjoint_map(U), rf.T.dot(U), name + ":adjoint-columns", 1e-10, (np.abs(rf).T.dot(np.abs(U)).max() if rf.size else 0))
        # polynomials of lower degree vanish, the leading coefficient is what is left
        for d in range(order + 1):
            c = xx - xx.mean()
            v = T.linear_map(c ** d)
            case.close(v, np.full(n - order, 1. if d == order else 0.), name + ":polynomial", 1e-9,
                       (np.abs(rf).dot(np.abs(c ** d)).max() if rf.size else 0))
        case.event("polynomials:%s:%d" % (name, order))


def f_inverse(case):
    rng = case.rng
    n = int(C.dim(rng, 2, 14))
    k = knots(rng, n)
    xs = np.sort(k) * 1.
    case.note(k=k)
    T = FL.trend_filter_inverse.grid(n) if rng.random() < .1 else FL.trend_filter_inverse(k.copy())
    if np.any(T.knots != xs):
        xs = np.arange(n) * 1.
    D = divided(xs, np.eye(n), 1).reshape((n - 1, n))
    P = np.linalg.pinv(D)
    s = np.abs(P).max() * n
    case.check(tuple(T.input_shape) == (n - 1,) and tuple(T.output_shape) == (n,), "inverse:shapes")
    for _ in range(2):
        x = signal(rng, n - 1)
        case.close(T.linear_map(x), P.dot(x), "inverse:forward", 1e-10, s * np.abs(x).max())
        case.close(T.affine_map(x), P.dot(x), "inverse:affine", 1e-10, s * np.abs(x).max())
        case.close(D.dot(T.linear_map(x)), x, "inverse:left", 1e-10, s * np.abs(x).max() * np.abs(D).max())
        u = signal(rng, n)
        case.close(T.adjoint_map(u), P.T.dot(u), "inverse:adjoint", 1e-10, s * np.abs(u).max())
    X, U = rng.standard_normal((n - 1, 3)), rng.standard_normal((n, 2))
    case.close(T.linear_map(X), P.dot(X), "inverse:columns", 1e-10, s * np.abs(X).max())
    case.close(T.adjoint_map(U), P.T.dot(U), "inverse:adjoint-columns", 1e-10, s * np.abs(U).max())
    case.raises(lambda: FL.trend_filter_inverse(k, order=2), "inverse:order")
    case.event("inverse")


def edges_of(row, shape):
    nz = np.nonzero(row)[0]
    if len(nz) == 0:
        return None
    a, b = sorted(nz)
    return a, b


def f_lattice(case):
    rng = case.rng
    m, n = [(C.dim(rng, 1, 7), C.dim(rng, 1, 7)), (1, C.dim(rng, 1, 7)), (C.dim(rng, 1, 7), 1)][int(rng.choice([0, 0, 0, 0, 1, 2]))]
    m, n = int(m), int(n)
    case.note(m=m, n=n)
    vid = lambda i, j: i * n + j
    interior = [(i, j) for i in range(m - 1) for j in range(n - 1)]
    down = {(vid(i, j), vid(i + 1, j)): (i, j) for i in range(m - 1) for j in range(n)}
    right = {(vid(i, j), vid(i, j + 1)): (i, j) for i in range(m) for j in range(n - 1)}
    alle = set(down) | set(right)
    for name, D in (("formD", formD(m, n)), ("formD_smaller", formD_smaller(m, n))):
        A = D.toarray()
        case.check(A.shape[1] == m * n, name + ":shape")
        case.check(A.shape[0] == (2 * (m * n - 1) if name == "formD" else len(alle)), name + ":rows", A.shape)
        seen = {}
        for r, row in enumerate(A):
            nz = np.nonzero(row)[0]
            if len(nz) == 0:
                case.check(name == "formD", name + ":empty-row")
                continue
            case.check(len(nz) == 2, name + ":row-support", nz)
            e = tuple(nz)
            case.check(e in alle, name + ":not-an-edge", e)
            case.check(e not in seen, name + ":edge-twice", e)
            case.check(row[e[0]] == 1 and row[e[1]] == -1, name + ":signs", row[nz])
            seen[e] = r
        case.check(set(seen) == alle, name + ":edge-missing", alle - set(seen))
        # documented order: interior vertices first
        if interior:
            rows = [seen[(vid(i, j), vid(i + 1, j))] for i, j in interior]
            case.check(max(rows) < len(interior), name + ":order")
        if name == "formD" and m * n > 1:
            half = m * n - 1
            for i, j in interior:       # the two edges of one vertex sit in the same row of the two column output
                case.check(seen[(vid(i, j), vid(i, j + 1))] - half == seen[(vid(i, j), vid(i + 1, j))], "formD:pairing")
            for e, r in seen.items():
                if r >= half:
                    case.check(e in right and right[e] in interior, "formD:second-column")
    case.event("lattice")
    if m * n < 2:
        return
    off = [None, None, rng.standard_normal((m * n - 1, 2)), 1.5][rng.integers(0, 4)]
    shape = (m, n) if rng.random() < .8 else [m, n]
    T = image2d_differences(shape, affine_offset=None if off is None else (off if np.isscalar(off) else off.copy()))
    case.check(tuple(T.input_shape) == (m, n) and tuple(T.output_shape) == (m * n - 1, 2), "image:shapes")
    for _ in range(2):
        x = [rng.standard_normal((m, n)), rng.integers(-3, 4, (m, n)), np.asfortranarray(rng.standard_normal((m, n))), rng.standard_normal((n, m)).T][rng.integers(0, 4)]
        x0 = x.copy()
        v = T.linear_map(x)
        case.check(v.shape == (m * n - 1, 2), "image:shape", v.shape)
        for r, (i, j) in enumerate(interior):
            case.close(v[r], np.array([x[i, j] - x[i + 1, j], x[i, j] - x[i, j + 1]]), "image:pair", 1e-13, np.abs(x).max())
        exp = sorted([x.ravel()[e[0]] - x.ravel()[e[1]] for e in alle] + [0.] * (2 * (m * n - 1) - len(alle)))
        case.close(np.sort(v.ravel()), np.array(exp), "image:all-edges", 1e-13, np.abs(x).max())
        a = T.affine_map(x)
        case.close(a, v + (0 if off is None else off), "image:affine", 1e-13)
        u = rng.standard_normal((m * n - 1, 2)) if rng.random() < .7 else rng.integers(-2, 3, (2, m * n - 1)).T
        u0 = u.copy()
        w = T.adjoint_map(u)
        case.check(w.shape == (m, n), "image:adjoint-shape")
        G = np.array([T.linear_map(np.eye(m * n)[q].reshape((m, n))).ravel() for q in range(m * n)])
        case.close(w.ravel(), G.dot(u.ravel()), "image:adjoint", 1e-12, np.abs(u).max() * 4)
        case.same(x, x0, "image:input")
        case.same(u, u0, "image:input")
    const = np.full((m, n), 3.25)
    case.close(T.linear_map(const), np.zeros((m * n - 1, 2)), "image:constant", 1e-13)


def mmatrix(p, sl, scaling):
    A = np.zeros((len(sl), p))
    for r, (i, j) in enumerate(sl):
        A[r, i:j] = 1. / (j - i)
    A = A - A.mean(1)[:, None]
    if scaling is not None:
        A = A * (np.asarray(scaling) * np.ones(len(sl)))[:, None]
    return A


def watch_multi(case, M, sl, scaling, p, tag):
    rng = case.rng
    A = mmatrix(p, sl, scaling)
    case.check(tuple(M.input_shape) == (p,) and tuple(M.output_shape) == (len(sl),), tag + ":shapes", (M.output_shape, len(sl)))
    case.check([tuple(s) for s in M.slices] == [tuple(s) for s in sl], tag + ":slices")
    for T, B in ((M, A), (ra.adjoint(M), A.T)):
        for _ in range(2):
            x, u = signal(rng, B.shape[1]), signal(rng, B.shape[0])
            x0, u0 = x.copy(), u.copy()
            s = (np.abs(A).max() if A.size else 0) * p
            case.close(T.linear_map(x), B.dot(x), tag + ":forward", 1e-11, s * (np.abs(x).max() if x.size else 0))
            case.close(T.affine_map(x), B.dot(x), tag + ":affine", 1e-11, s * (np.abs(x).max() if x.size else 0))
            case.close(T.adjoint_map(u), B.T.dot(u), tag + ":adjoint", 1e-11, s * (np.abs(u).max() if u.size else 0) * len(sl))
            case.same(x, x0, tag + ":input")
            case.same(u, u0, tag + ":input")
    case.event("multiscale:" + tag)


def intervals(rng, p):
    k = int(rng.integers(1, 9))
    out = []
    for _ in range(k):
        i = int(rng.integers(0, p))
        j = int(rng.integers(i + 1, p + 1))
        out.append((i, j))
    if rng.random() < .3:
        out.append((0, p))
    if rng.random() < .3:
        out.append(out[0])
    return out


def scalings(rng, k):
    return [None, None, 2., rng.uniform(.5, 2, k)][rng.integers(0, 4)]


def present(rng, sl):
    m = rng.integers(0, 3)
    if m == 0:
        return list(sl)
    if m == 1:
        return np.array(sl)
    return np.array(sl, multiscale.dtype)


def f_multi(case):
    rng = case.rng
    p = int(C.dim(rng, 2, 14))
    case.note(p=p)
    if rng.random() < .6:
        minsize = int(rng.integers(1, p)) if rng.random() < .6 else None
        M = multiscale(p, minsize=minsize)
        ms = minsize or int(np.around(p ** (1 / 3.)))
        case.check(M.minsize == ms, "all:minsize")
        # every interval [i, j) with i, j among the sample positions 0..p-1 (as the reference matrix of the documentation)
        sl = [(i, j) for i in range(p) for j in range(i, p) if j - i >= ms]
        sc = None
        if rng.random() < .4:
            sc = scalings(rng, len(sl))
            M = multiscale(p, minsize=minsize, scaling=sc)
        case.note(minsize=minsize, sc=sc)
        if not sl:
            raise Skip("no interval")
        watch_multi(case, M, sl, sc, p, "all")
        if sc is None and rng.random() < .5:
            M.scaling = sc = np.sqrt(M.sizes)
            watch_multi(case, M, sl, sc, p, "scaling-set")
    else:
        sl = intervals(rng, p)
        sc = scalings(rng, len(sl))
        given = [tuple(s) for s in sl] if rng.random() < .5 else np.array(sl, multiscale.dtype)
        M = multiscale(p, slices=given, scaling=sc)
        case.note(sl=sl, sc=sc)
        watch_multi(case, M, sl, sc, p, "chosen")
    keep, kargs = None, None
    for step in range(int(rng.integers(1, 4))):
        op = rng.integers(0, 4)
        if op == 0:
            keep, kargs = copy(M), (list(sl), None if sc is None else np.array(sc))
            watch_multi(case, keep, sl, sc, p, "copy")
        elif op == 1:
            X, length = M.form_matrix(M.slices)
            A = mmatrix(p, sl, None)
            case.close(length, np.array([j - i for i, j in sl]) * 1., "form_matrix:length", 0)
            case.close(X, (A * np.sqrt(length)[:, None]).T, "form_matrix", 1e-12)
        sl = intervals(rng, p)
        sc = scalings(rng, len(sl))
        arg = present(rng, sl)
        if sc is None and rng.random() < .5:
            M.update_slices(arg)
        else:
            M.update_slices(arg, scaling=sc)
        case.note(**{"update%d" % step: [sl, sc]})
        watch_multi(case, M, sl, sc, p, "updated")
        if keep is not None:
            watch_multi(case, keep, kargs[0], kargs[1], p, "copy-after-update")
    # a second object built afterwards starts from scratch
    ms = int(np.around(p ** (1 / 3.)))
    sl2 = [(i, j) for i in range(p) for j in range(i, p) if j - i >= ms]
    watch_multi(case, multiscale(p), sl2, None, p, "fresh")


def f_smuce(case):
    rng = case.rng
    p = int(C.dim(rng, 6, 20))
    M = multiscale(p, minsize=int(rng.integers(1, 4)))
    sc = [None, np.sqrt(M.sizes)][rng.integers(0, 2)]
    M.scaling = None if sc is None else sc.copy()
    Z = rng.standard_normal(p) + 3. * (np.arange(p) > p // 2)
    sigma = [None, 1.3][rng.integers(0, 2)]
    case.note(p=p, Z=Z, sigma=sigma)
    sl = [tuple(s) for s in M.slices]
    sizes = np.array([j - i for i, j in sl]) * 1.

    def stat(Z, sigma):
        s = np.std(Z) if sigma is None else sigma
        v = np.abs(mmatrix(p, sl, np.sqrt(sizes)).dot(Z)) / s - np.sqrt(2 * np.log(p / sizes))
        return v
    v, which = SMUCE_stat(M, Z.copy(), sigma=sigma)
    ref = stat(Z, sigma)
    case.close(v, ref.max(), "smuce:stat", 1e-10)
    case.close(ref[sl.index(tuple(which))], ref.max(), "smuce:interval", 1e-10)
    watch_multi(case, M, sl, sc, p, "after-smuce")
    st = np.random.get_state()
    t = choose_tuning_parameter(M, ndraw=8, quantile=.9, sigma=sigma)
    np.random.set_state(st)
    exp = np.percentile([stat(np.random.standard_normal(p), sigma).max() for _ in range(8)], 90)
    case.close(t, exp, "smuce:tuning", 1e-9)
    watch_multi(case, M, sl, sc, p, "after-tuning")


FAMILIES = [Family("difference", f_diff, 500, 12000, need=["polynomials:trend_filter:%d" % o for o in (1, 2, 3, 4)]),
            Family("inverse", f_inverse, 300, 8000, need=["inverse"]),
            Family("lattice", f_lattice, 200, 4000, need=["lattice"]),
            Family("multiscale", f_multi, 400, 8000, need=["multiscale:" + t for t in ("all", "chosen", "updated", "copy-after-update", "fresh", "scaling-set")]),
            Family("smuce", f_smuce, 60, 1000)]
