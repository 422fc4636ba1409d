"""P08 affine transforms: every transform is built together with its dense matrix and offset."""
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
import regreg.affine as ra
from regreg.affine.block_maps import block_columns, block_rows
from rv.core import Family, Skip, Violation
from rv import catalog as C


class T(object):
    """library transform obj with reference A (prod(out) x prod(in)), b, and whether matrices of columns are accepted"""
    def __init__(self, obj, A, b, ins, outs, cols, name):
        self.obj, self.A, self.ins, self.outs, self.cols, self.name = obj, np.asarray(A, float), tuple(ins), tuple(outs), cols, name
        self.b = np.zeros(self.A.shape[0]) if b is None else np.asarray(b, float).reshape(-1)


def mat(rng, n, p):
    m = rng.integers(0, 4)
    X = rng.standard_normal((n, p)) * (rng.random((n, p)) < 0.7)
    if m == 0:
        X = rng.integers(-3, 4, (n, p))
    elif m == 1:
        X = np.asfortranarray(X)
    elif m == 2:
        X = np.repeat(X, 2, axis=1)[:, ::2]
    return X


def vec(rng, n):
    m = rng.integers(0, 6)
    if m == 3:                      # sums to exactly zero
        v = np.zeros(n)
        for _ in range(int(rng.integers(1, 3))):
            i, j = rng.integers(0, n, 2)
            c = float(rng.integers(1, 4))
            v[i] += c
            v[j] -= c
        return v
    if m == 4:                      # +-c, so that two offsets may cancel each other
        return np.full(n, float(rng.choice([-1, 1])) * float(rng.choice([1, 2])))
    return [None, rng.standard_normal(n), rng.integers(-2, 3, n)][rng.integers(0, 3)]


def sparse(rng, X):
    f = [sp.csr_matrix, sp.csc_matrix, sp.coo_matrix][rng.integers(0, 3)]
    return f(X)


LEAVES = ["dense", "raw", "sparse", "affine", "affine_sparse", "diag", "identity", "scaler", "centering", "row", "shift",
          "intercept", "selector"]
COMB = ["composition", "dot", "sum", "sum_w", "scalar", "hstack", "vstack", "product", "residual", "adjoint", "aslinear", "nest",
        "intercept_of", "selector_of", "block_columns", "block_rows", "posneg", "tensorize", "matrix_input", "linear_of", "selector_reshape"]


def leaf(rng, p=None, n=None, kind=None):
    """a transform R^p -> R^n; either may be prescribed"""
    kind = kind or LEAVES[rng.integers(0, len(LEAVES))]
    square = kind in ("diag", "identity", "scaler", "centering", "shift")
    if square and p is not None and n is not None and p != n or kind == "row" and n not in (None, 1) or \
       kind == "intercept" and p is not None and p < 2 or kind == "selector" and (p is not None and n is not None and n > 3 * p):
        kind = "dense"
        square = False
    p = p if p is not None else (n if square and n is not None else int(C.dim(rng, 2 if kind == "intercept" else 1, 6)))
    n = n if n is not None else (p if square else int(C.dim(rng, 1, 6)))
    if kind == "dense":
        X = mat(rng, n, p)
        return T(rr.astransform(X), X, None, (p,), (n,), True, "dense")
    if kind == "raw":
        X = mat(rng, n, p)
        return T(rr.linear_transform(X) if hasattr(rr, "linear_transform") else ra.linear_transform(X), X, None, (p,), (n,), True, "linear_transform")
    if kind == "sparse":
        X = mat(rng, n, p)
        return T(rr.astransform(sparse(rng, X)), X, None, (p,), (n,), True, "sparse")
    if kind == "affine":
        X, b = mat(rng, n, p), vec(rng, n)
        return T(ra.affine_transform(X, b), X, b, (p,), (n,), True, "affine")
    if kind == "affine_sparse":
        X, b = mat(rng, n, p), vec(rng, n)
        bb = sp.csr_matrix(np.asarray(b, float)) if b is not None and rng.random() < 0.3 else b
        return T(ra.affine_transform(sparse(rng, X), bb), X, b, (p,), (n,), True, "affine_sparse")
    if kind == "diag":
        d, b = C.point(rng, (p,)), vec(rng, p)
        return T(ra.affine_transform(d.copy(), b, diag=True), np.diag(d), b, (p,), (p,), True, "diag")
    if kind == "identity":
        return T(ra.identity((p,)), np.eye(p), None, (p,), (p,), True, "identity")
    if kind == "scaler":
        d = C.point(rng, (p,))
        return T(ra.scaler(d.copy() if rng.random() < .5 else list(d)), np.diag(d), None, (p,), (p,), True, "scaler")
    if kind == "centering":
        return T(ra.centering((p,)), np.eye(p) - np.ones((p, p)) / p, None, (p,), (p,), True, "centering")
    if kind == "row":
        d = C.point(rng, (p,))
        return T(ra.linear_transform(d.copy()), d.reshape(1, -1), None, (p,), (1,), True, "row")
    if kind == "shift":
        b = C.point(rng, (p,))
        return T(ra.affine_transform(None, b.copy()), np.eye(p), b, (p,), (p,), True, "shift")
    if kind == "intercept":
        X = mat(rng, n, p - 1)
        return T(ra.add_intercept(X), np.hstack([np.ones((n, 1)), X]), None, (p,), (n,), False, "intercept")
    if kind == "selector":
        idx, S = index(rng, p, n)
        return T(ra.selector(idx, (p,)), S, None, (p,), (S.shape[0],), False, "selector") if S.shape[0] == n else leaf(rng, p, n, "dense")


def index(rng, p, n):
    """an index object and its selection matrix; tries to select n entries"""
    m = rng.integers(0, 4)
    if m == 0 and n <= p:
        a = int(rng.integers(0, p - n + 1))
        idx = slice(a, a + n)
    elif m == 1 and n <= p:
        idx = np.zeros(p, bool)
        idx[rng.permutation(p)[:n]] = True
    elif m == 2 and n <= p:
        idx = rng.permutation(p)[:n]
    else:
        idx = rng.integers(0, p, n)     # may repeat
    return idx, np.eye(p)[idx]


def combine(rng, kind, ts):
    """the parts put together; parts are square of equal size"""
    import scipy.linalg as sl
    k, (n,), objs = len(ts), ts[0].outs, [t.obj for t in ts]
    name = "%s(%s)" % (kind, ",".join(t.name for t in ts))
    if kind in ("sum", "sum_w"):
        w = np.ones(k) if kind == "sum" else rng.choice([1., -1., 2.], k)
        return T(rr.affine_sum(objs, weights=None if kind == "sum" else w.copy()), sum(a * t.A for a, t in zip(w, ts)),
                 sum(a * t.b for a, t in zip(w, ts)), (n,), (n,), False, name)
    if kind == "composition":
        A, b = np.eye(n), np.zeros(n)
        for t in ts[::-1]:
            A, b = t.A.dot(A), t.A.dot(b) + t.b
        return T(rr.affine_composition(*objs), A, b, (n,), (n,), False, name)
    if kind == "residual":
        return T(ra.residual(objs[0]), np.eye(n) - ts[0].A, -ts[0].b, (n,), (n,), False, name)
    if kind == "scalar":
        s = float(rng.choice([1., -1., 2.]))
        return T(ra.scalar_multiply(objs[0], s), s * ts[0].A, s * ts[0].b, (n,), (n,), False, name)
    if kind == "hstack":
        return T(ra.hstack(objs), np.hstack([t.A for t in ts]), sum(t.b for t in ts), (n * k,), (n,), False, name)
    if kind == "vstack":
        return T(ra.vstack(objs), np.vstack([t.A for t in ts]), np.hstack([t.b for t in ts]), (n,), (n * k,), False, name)
    return T(ra.product(objs), sl.block_diag(*[t.A for t in ts]), np.hstack([t.b for t in ts]), (n * k,), (n * k,), False, name)


SQUARE = ["identity", "shift", "scaler", "dense", "diag", "affine"]


def square_parts(rng, lo=1, hi=3, kinds=SQUARE):
    """parts which may hand back the very array they are given, among others"""
    n = int(C.dim(rng, 1, 5))
    return [leaf(rng, n, n, kinds[rng.integers(0, len(kinds))]) for _ in range(int(rng.integers(lo, hi + 1)))]


MIXED = ["sum", "sum_w", "composition", "residual", "scalar", "product", "vstack", "hstack"]


def f_parts(case):
    """combinations of maps some of which return their argument itself"""
    kind = MIXED[case.index % len(MIXED)]
    t = combine(case.rng, kind, square_parts(case.rng))
    case.note(name=t.name, A=t.A, b=t.b)
    observe(case, t, "parts")
    case.event("parts:" + kind)


def gen(rng, depth, p=None, n=None, kind=None):
    if depth <= 0 and kind is None:
        return leaf(rng, p, n)
    kind = kind or COMB[rng.integers(0, len(COMB))]
    P = p if p is not None else int(C.dim(rng, 1, 6))
    N = n if n is not None else int(C.dim(rng, 1, 6))
    sub = lambda pp=None, nn=None: gen(rng, depth - 1 if rng.random() < 0.7 else 0, pp, nn)
    if kind in ("composition", "dot"):
        inner = sub(P)
        outer = sub(inner.outs[0], N)
        if kind == "dot":
            obj = outer.obj.dot(inner.obj)
        elif rng.random() < 0.3:
            mid = leaf(rng, inner.outs[0], inner.outs[0])
            obj = rr.affine_composition(outer.obj, mid.obj, inner.obj)
            return T(obj, outer.A.dot(mid.A).dot(inner.A), outer.A.dot(mid.A.dot(inner.b) + mid.b) + outer.b, (P,), (N,),
                     outer.cols and inner.cols and mid.cols, "comp(%s,%s,%s)" % (outer.name, mid.name, inner.name))
        else:
            obj = rr.affine_composition(outer.obj, inner.obj)
        return T(obj, outer.A.dot(inner.A), outer.A.dot(inner.b) + outer.b, (P,), (N,), outer.cols and inner.cols,
                 "comp(%s,%s)" % (outer.name, inner.name))
    if kind in ("sum", "sum_w"):
        ts = [sub(P, N) for _ in range(int(rng.integers(1, 4)))]
        w = np.ones(len(ts)) if kind == "sum" else rng.standard_normal(len(ts))
        obj = rr.affine_sum([t.obj for t in ts], weights=None if kind == "sum" else (w.copy() if rng.random() < .5 else list(w)))
        return T(obj, sum(a * t.A for a, t in zip(w, ts)), sum(a * t.b for a, t in zip(w, ts)), (P,), (N,), all(t.cols for t in ts),
                 "sum(%s)" % ",".join(t.name for t in ts))
    if kind == "scalar":
        t = sub(P, N)
        s = [1., -1., 0., 2, float(rng.standard_normal())][rng.integers(0, 5)]
        return T(ra.scalar_multiply(t.obj, s), s * t.A, s * t.b, (P,), (N,), t.cols, "scale(%s)" % t.name)
    if kind in ("hstack", "vstack", "product"):
        k = int(rng.integers(1, 4))
        if kind == "hstack":
            parts = split(rng, P, k)
            ts = [sub(q, N) for q in parts]
            return T(ra.hstack([t.obj for t in ts]), np.hstack([t.A for t in ts]), sum(t.b for t in ts), (P,), (N,), False,
                     "hstack(%s)" % ",".join(t.name for t in ts))
        if kind == "vstack":
            parts = split(rng, N, k)
            ts = [sub(P, q) for q in parts]
            return T(ra.vstack([t.obj for t in ts]), np.vstack([t.A for t in ts]), np.hstack([t.b for t in ts]), (P,), (N,), False,
                     "vstack(%s)" % ",".join(t.name for t in ts))
        a, b = split(rng, P, k), split(rng, N, k)
        m = min(len(a), len(b))
        a, b = a[:m - 1] + [sum(a[m - 1:])], b[:m - 1] + [sum(b[m - 1:])]
        ts = [sub(i, j) for i, j in zip(a, b)]
        import scipy.linalg as sl
        return T(ra.product([t.obj for t in ts]), sl.block_diag(*[t.A for t in ts]), np.hstack([t.b for t in ts]), (P,), (N,), False,
                 "product(%s)" % ",".join(t.name for t in ts))
    if kind == "residual":
        if p is not None and n is not None and p != n:
            return leaf(rng, p, n)
        P = p if p is not None else (n if n is not None else P)
        t = sub(P, P)
        return T(ra.residual(t.obj), np.eye(P) - t.A, -t.b, (P,), (P,), t.cols, "residual(%s)" % t.name)
    if kind == "adjoint":
        t = sub(N, P)
        return T(t.obj.T if rng.random() < 0.5 else rr.adjoint(t.obj) if hasattr(rr, "adjoint") else ra.adjoint(t.obj), t.A.T, None, (P,), (N,), False,
                 "adjoint(%s)" % t.name)
    if kind == "aslinear":
        t = sub(P, N)
        return T(ra.aslinear(t.obj), t.A, None, (P,), (N,), t.cols, "aslinear(%s)" % t.name)
    if kind == "linear_of":
        t = sub(P, N)
        return T(ra.linear_transform(t.obj), t.A, None, (P,), (N,), t.cols, "linear(%s)" % t.name)
    if kind == "nest":
        t, b = sub(P, N), vec(rng, N)
        return T(ra.affine_transform(t.obj, b), t.A, t.b if b is None else t.b + b, (P,), (N,), t.cols, "nest(%s)" % t.name)
    if kind == "intercept_of":
        if P < 2:
            return leaf(rng, P, N)
        t = sub(P - 1, N)
        return T(ra.add_intercept(t.obj), np.hstack([np.ones((N, 1)), t.A]), t.b, (P,), (N,), False, "intercept(%s)" % t.name)
    if kind == "selector_of":
        k = int(rng.integers(1, P + 1))
        idx, S = index(rng, P, k)
        t = sub(S.shape[0], N)
        return T(ra.selector(idx, (P,), t.obj), t.A.dot(S), t.b, (P,), (N,), False, "selector(%s)" % t.name)
    if kind == "selector_reshape":
        # a block of coordinates seen as a matrix and mapped column by column
        q, r = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        tot = q * r
        if p is not None and p < tot:
            return leaf(rng, p, n)
        P = p if p is not None else tot + int(rng.integers(0, 3))
        idx, S = index(rng, P, tot)
        if rng.random() < 0.5:
            # only a change of shape
            obj = ra.selector(idx, (P,), reshape=(q, r))
            t2 = T(obj, S, None, (P,), (q, r), False, "selreshape")
        else:
            rows = int(rng.integers(1, 4))
            X = mat(rng, rows, q)
            obj = ra.selector(idx, (P,), ra.affine_transform(X, None, input_shape=(q, r)), reshape=(q, r))
            t2 = T(obj, np.kron(X, np.eye(r)).dot(S), None, (P,), (rows, r), False, "selreshape(X)")
        return flatten(rng, t2, P, n)
    # two dimensional ones, flattened to vectors by reshape on both sides
    if kind == "matrix_input":
        q, r, rows = [int(rng.integers(1, 4)) for _ in range(3)]
        X = mat(rng, rows, q)
        b = rng.standard_normal(rows) if rng.random() < .5 else None
        obj = ra.affine_transform(X if rng.random() < 0.7 else sp.csr_matrix(X), b, input_shape=(q, r))
        t2 = T(obj, np.kron(X, np.eye(r)), None if b is None else np.repeat(b, r), (q, r), (rows, r), False, "matrix_input")
    elif kind == "tensorize":
        t, r = colleaf(rng), int(rng.integers(1, 4))
        t2 = T(ra.tensorize(t.obj, r), np.kron(t.A, np.eye(r)), np.repeat(t.b, r), t.ins + (r,), t.outs + (r,), False, "tensorize(%s)" % t.name)
    elif kind == "posneg":
        t = sub(None, None)
        t2 = T(ra.posneg(ra.aslinear(t.obj)), np.hstack([t.A, -t.A]), None, (2,) + t.ins, t.outs, False, "posneg(%s)" % t.name)
    elif kind == "block_columns":
        k, pp = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        ts = [sub(pp, None) for _ in range(k)]
        A = np.zeros((sum(t.outs[0] for t in ts), pp * k))
        at = 0
        for i, t in enumerate(ts):
            A[at:at + t.outs[0], i::k] = t.A
            at += t.outs[0]
        t2 = T(block_columns([t.obj for t in ts]), A, np.hstack([t.b for t in ts]), (pp, k), (A.shape[0],), False,
               "block_columns(%s)" % ",".join(t.name for t in ts))
    elif kind == "block_rows":
        k, nn = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        ts = [sub(None, nn) for _ in range(k)]
        tot = sum(t.ins[0] for t in ts)
        A = np.zeros((nn * k, tot))
        at = 0
        for i, t in enumerate(ts):
            A[i::k, at:at + t.ins[0]] = t.A
            at += t.ins[0]
        t2 = T(block_rows([t.obj for t in ts]), A, np.array([t.b for t in ts]).T.reshape(-1), (tot,), (nn, k), False,
               "block_rows(%s)" % ",".join(t.name for t in ts))
    return flatten(rng, t2, p, n)


def colleaf(rng):
    while True:
        t = leaf(rng)
        if t.cols:
            return t


def split(rng, n, k):
    k = min(n, k)
    cuts = np.sort(rng.permutation(n - 1)[:k - 1] + 1) if n > 1 else []
    e = [0] + [int(c) for c in cuts] + [n]
    return [b - a for a, b in zip(e[:-1], e[1:])]


def flatten(rng, t, p, n):
    """as a map between vectors, then forced to the required sizes by a dense map on either side"""
    for have, want in ((t.obj.input_shape, t.ins), (t.obj.output_shape, t.outs)):
        if tuple(have) != tuple(want):
            raise Violation("map:inner-shape", "%s declares %s, maps %s" % (t.name, have, want))
    maps, A, b = [t.obj], t.A, t.b
    pin, nout = int(np.prod(t.ins)), int(np.prod(t.outs))
    if len(t.ins) > 1:
        maps = maps + [ra.reshape((pin,), t.ins)]
    if len(t.outs) > 1:
        maps = [ra.reshape(t.outs, (nout,))] + maps
    if p is not None and pin != p:
        s = leaf(rng, p, pin, "dense")
        maps, A, b = maps + [s.obj], A.dot(s.A), b + A.dot(s.b)
        pin = p
    if n is not None and nout != n:
        s = leaf(rng, nout, n, "dense")
        maps, A, b = [s.obj] + maps, s.A.dot(A), s.A.dot(b) + s.b
        nout = n
    if p is None and n is None and rng.random() < 0.5:
        return t                       # keep the native shape at top level
    if len(maps) == 1:
        return t
    return T(rr.affine_composition(*maps), A, b, (pin,), (nout,), False, "flat(%s)" % t.name)


def one(a):
    return None


def observe(case, t, key):
    rng = case.rng
    o = t.obj
    case.check(tuple(o.input_shape) == t.ins, key + ":input_shape", "%s != %s (%s)" % (o.input_shape, t.ins, t.name))
    case.check(tuple(o.output_shape) == t.outs, key + ":output_shape", "%s != %s (%s)" % (o.output_shape, t.outs, t.name))
    sA = np.abs(t.A).sum(1).max() if t.A.size else 0.
    sT = np.abs(t.A).sum(0).max() if t.A.size else 0.
    kept, bufs, refill = [], {}, rng.random() < .4       # the caller may keep one array and refill it
    ops = [0, 1, 2, 0, 1, 2]
    rng.shuffle(ops)
    for op in ops:
        shape = t.outs if op == 2 else t.ins
        v = C.point(rng, shape)
        if rng.random() < 0.2:
            v = np.round(v).astype(int)
        elif rng.random() < 0.2 and v.ndim == 1:
            v = np.repeat(v, 2)[::2]
        if refill and v.dtype == float:
            b = bufs.setdefault(v.shape, np.empty(v.shape))
            b[...] = v
            v = b
            kept = [k for k in kept if not np.shares_memory(k[0], b)]
        keep = v.copy()
        if op == 0:
            r, exp, s = o.linear_map(v), t.A.dot(v.reshape(-1)), sA * np.abs(v).max()
        elif op == 1:
            r, exp, s = o.affine_map(v), t.A.dot(v.reshape(-1)) + t.b, sA * np.abs(v).max() + np.abs(t.b).max()
        else:
            r, exp, s = o.adjoint_map(v), t.A.T.dot(v.reshape(-1)), sT * np.abs(v).max()
        r = np.asarray(r)
        case.same(v, keep, key + ":argument-changed")
        case.check(r.shape == (t.ins if op == 2 else t.outs), key + ":result-shape", "op %d: %s (%s)" % (op, r.shape, t.name))
        case.close(r.reshape(-1), exp, key + ":" + ["linear", "affine", "adjoint"][op], 1e-10, s, t.name)
        for (a, b) in kept:
            case.same(a, b, key + ":earlier-result-overwritten", t.name)
        if not np.shares_memory(r, v):
            kept.append((r, r.copy()))
    off = getattr(o, "affine_offset", None)
    if off is not None and np.ndim(off) == 1 and len(t.outs) == 2:
        off = np.asarray(off)[:, None]          # one offset per row, repeated over the columns
    case.close(np.zeros(t.b.shape) if off is None else (np.asarray(off, float) * np.ones(t.outs)).reshape(-1), t.b, key + ":affine_offset", 1e-10, None, t.name)
    # the transpose view
    u = C.point(rng, t.outs)
    case.close(np.asarray(o.T.linear_map(u)).reshape(-1), t.A.T.dot(u.reshape(-1)), key + ":T", 1e-10, sT * np.abs(u).max(), t.name)
    x = C.point(rng, t.ins)
    case.close(np.asarray(o.dot(x)).reshape(-1), t.A.dot(x.reshape(-1)), key + ":dot", 1e-10, sA * np.abs(x).max(), t.name)
    if t.cols and len(t.ins) == 1:
        k = int(rng.integers(1, 4)) if rng.random() < .6 else t.ins[0]
        X = C.point(rng, (t.ins[0], k))
        U = C.point(rng, (t.outs[0], k))
        case.close(np.asarray(o.linear_map(X)), t.A.dot(X), key + ":columns-linear", 1e-10, sA * np.abs(X).max(), t.name)
        case.close(np.asarray(o.affine_map(X)), t.A.dot(X) + t.b[:, None], key + ":columns-affine", 1e-10, sA * np.abs(X).max() + np.abs(t.b).max(), t.name)
        case.close(np.asarray(o.adjoint_map(U)), t.A.T.dot(U), key + ":columns-adjoint", 1e-10, sT * np.abs(U).max(), t.name)
        case.close(np.asarray(ra.todense(o)), t.A, key + ":todense", 1e-10, None, t.name)
        case.event("affine:columns")


def f_leaf(case):
    kind = LEAVES[case.index % len(LEAVES)]
    t = leaf(case.rng, kind=kind)
    case.note(name=t.name, A=t.A, b=t.b)
    observe(case, t, "leaf")
    case.event("leaf:" + kind)


def f_comb(case):
    kind = COMB[case.index % len(COMB)]
    t = gen(case.rng, int(case.rng.integers(1, 4)), kind=kind)
    case.note(name=t.name, A=t.A, b=t.b)
    observe(case, t, "comb")
    case.event("comb:" + kind)


def f_power(case):
    rng = case.rng
    t = gen(rng, int(rng.integers(0, 3)))
    case.note(name=t.name, A=t.A)
    s = np.linalg.norm(t.A, 2) ** 2
    v = rr.power_L(t.obj)
    case.leq(v, s, "power_L:above", 1e-9, s)
    case.leq(0.9 * s, v, "power_L:below", 1e-9, s)
    case.event("power_L")


def f_refuse(case):
    rng = case.rng
    a, b = leaf(rng, 3, 2, "dense"), leaf(rng, 4, 2, "dense")
    c = leaf(rng, 3, 4, "affine")
    case.note(i=case.index)
    case.raises(lambda: ra.vstack([a.obj, b.obj]), "refuse:vstack")
    case.raises(lambda: ra.hstack([a.obj, c.obj]), "refuse:hstack")
    case.raises(lambda: ra.residual(a.obj), "refuse:residual")
    case.raises(lambda: block_columns([a.obj, b.obj]), "refuse:block_columns")
    case.raises(lambda: block_rows([a.obj, c.obj]), "refuse:block_rows")
    case.raises(lambda: ra.affine_transform(None, None), "refuse:none")
    case.raises(lambda: ra.linear_transform(None), "refuse:none")
    case.raises(lambda: ra.affine_sum([a.obj, a.obj], weights=[1.]), "refuse:weights")
    case.raises(lambda: rr.affine_composition(a.obj, b.obj), "refuse:composition")


FAMILIES = [
    Family("leaf", f_leaf, 780, 26000),
    Family("comb", f_comb, 1680, 63000),
    Family("parts", f_parts, 400, 12000, need=["parts:" + k for k in MIXED]),
    Family("power", f_power, 200, 6000),
    Family("refuse", f_refuse, 10, 30),
]
