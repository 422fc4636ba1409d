"""P13 the algebra of quadratic terms, against four numbers (coef, center, linear, constant) kept aside."""
import numpy as np
import regreg.api as rr
from copy import copy
from rv.core import Family, Skip
from rv import catalog as C

iq = C.iq


class Q(object):
    """reference quadratic with arrays"""
    def __init__(self, shape, c, m, l, k):
        self.shape, self.c = shape, float(c or 0)
        self.m = np.zeros(shape) if m is None else np.asarray(m, float) * np.ones(shape)
        self.l = np.zeros(shape) if l is None else np.asarray(l, float) * np.ones(shape)
        self.k = float(k or 0)

    def __call__(self, x):
        return 0.5 * self.c * ((x - self.m) ** 2).sum() + (self.l * x).sum() + self.k

    def grad(self, x):
        return self.c * (x - self.m) + self.l

    def mag(self, x):
        return 0.5 * self.c * ((np.abs(x) + np.abs(self.m)) ** 2).sum() + np.abs(self.l * x).sum() + abs(self.k) + \
            0.5 * self.c * (self.m ** 2).sum()


def shape_of(rng):
    return [(C.dim(rng, 1, 8),), (C.dim(rng, 1, 4), C.dim(rng, 1, 4))][int(rng.random() < 0.3)]


def gen(rng, shape, scalar_center_ok=False):
    m = rng.integers(0, 5)
    coef = [0., 0, None, float(np.exp(rng.uniform(-2, 2))), int(rng.integers(1, 4)), float(np.exp(rng.uniform(-2, 2)))][rng.integers(0, 6)]
    center = [None, 0, 0., C.point(rng, shape), rng.integers(-3, 4, shape)][m]
    m = rng.integers(0, 5)
    lin = [None, 0, float(np.round(rng.standard_normal(), 2)), C.point(rng, shape), rng.integers(-3, 4, shape)][m]
    const = [0, None, float(np.round(rng.standard_normal(), 2)), 2][rng.integers(0, 4)]
    return coef, center, lin, const


def build(parts):
    return iq(*parts)


class Watch(object):
    """operands must not change: same answers and the arrays handed in untouched"""
    def __init__(self, case, parts, obj, ref, x):
        self.case, self.obj, self.ref, self.x = case, obj, ref, x
        self.arrays = [(a, np.array(a)) for a in parts if isinstance(a, np.ndarray)]

    def check(self, key):
        agree(self.case, self.obj, self.ref, self.x, key + ":operand")
        for a, b in self.arrays:
            self.case.same(a, b, key + ":operand-array")


def agree(case, obj, ref, x, key):
    v = obj.objective(x.copy(), "func")
    s = ref.mag(x)
    case.close(v, ref(x), key + ":value", 1e-11, s)
    g = obj.objective(x.copy(), "grad")
    case.close(np.asarray(g) * np.ones(ref.shape), ref.grad(x), key + ":grad", 1e-11, ref.c * (np.abs(x).max() + np.abs(ref.m).max()) + np.abs(ref.l).max())
    v2, g2 = obj.objective(x.copy(), "both")
    case.same(v2, v, key + ":modes")
    case.same(g2, g, key + ":modes")


def f_basic(case):
    rng = case.rng
    shape = shape_of(rng)
    parts = gen(rng, shape)
    case.note(parts=parts, shape=shape)
    q, ref = build(parts), Q(shape, *parts)
    for _ in range(2):
        x = C.point(rng, shape)
        agree(case, q, ref, x, "quad")
    if q.iszero:
        case.close(ref(x), 0, "quad:iszero", 1e-300)
        case.event("quad:iszero")
    w = Watch(case, parts, q, ref, x)
    c = q.collapsed()
    agree(case, c, ref, x, "collapsed")
    case.check(np.all(np.asarray(c.center) == 0), "collapsed:center")
    w.check("collapsed")
    agree(case, copy(q), ref, x, "copy")
    w.check("copy")
    p = copy(q)
    p.noneify()
    agree(case, p, ref, x, "noneify")
    p = copy(q)
    p.zeroify()
    agree(case, p, ref, x, "zeroify")
    w.check("noneify")
    # moving the center:  q(x) = q'(x - offset)
    off = [C.point(rng, shape), np.zeros(shape), None, rng.integers(-2, 3, shape)][rng.integers(0, 4)]
    o2, r = q.recenter(off)
    y = x if o2 is None else x - o2
    case.close(r.objective(y, "func"), ref(x), "recenter:value", 1e-10, ref.mag(x) + ref.mag(y) + (0 if off is None else ref.c * (off ** 2).sum() + np.abs(ref.l * off).sum()))
    if off is not None and np.any(off):
        case.same(o2, off, "recenter:offset")
        case.event("quad:recenter")
    w.check("recenter")
    tc = q.true_center
    if ref.c > 0:
        case.close(np.asarray(tc) * np.ones(shape), ref.m - ref.l / ref.c, "true_center", 1e-10, np.abs(ref.m).max() + np.abs(ref.l).max() / ref.c)
    w.check("true_center")
    # independent copy
    p = copy(q)
    p.coef = 7.
    if isinstance(p.linear_term, np.ndarray):
        p.linear_term[:] = 3
    if isinstance(p.center, np.ndarray):
        p.center[:] = 3
    p.constant_term = 1.
    w.check("copy-independent")


def f_add(case):
    rng = case.rng
    shape = shape_of(rng)
    ps = [gen(rng, shape) for _ in range(3)]
    qs = [build(p) for p in ps]
    rs = [Q(shape, *p) for p in ps]
    case.note(ps=ps, shape=shape)
    x = C.point(rng, shape)
    ws = [Watch(case, p, q, r, x) for p, q, r in zip(ps, qs, rs)]
    exp = lambda x, ids: sum(rs[i](x) for i in ids)
    mag = lambda x: sum(r.mag(x) for r in rs)
    for s, ids in [(qs[0] + qs[1], (0, 1)), (qs[1] + qs[0], (0, 1)), ((qs[0] + qs[1]) + qs[2], (0, 1, 2)), (qs[0] + (qs[1] + qs[2]), (0, 1, 2)),
                   (qs[0] + None, (0,)), (qs[0] + iq(0, 0, 0, 0), (0,)), (iq(0, 0, 0, 0) + qs[0], (0,)),
                   (iq(None, None, None, None) + qs[0], (0,)), (qs[0] + qs[0], (0, 0)), (iq(0, None, None) + qs[1], (1,))]:
        for y in (x, C.point(rng, shape)):
            case.close(s.objective(y, "func"), exp(y, ids), "add:value", 1e-11, mag(y))
            g = np.asarray(s.objective(y, "grad")) * np.ones(shape)
            case.close(g, sum(rs[i].grad(y) for i in ids), "add:grad", 1e-11,
                       sum(r.c * (np.abs(y).max() + np.abs(r.m).max()) + np.abs(r.l).max() for r in rs))
    for w in ws:
        w.check("add")
    case.raises(lambda: qs[0] + 3., "add:refuses")
    case.event("quad:add")


def f_conj(case):
    rng = case.rng
    shape = shape_of(rng)
    parts = gen(rng, shape)
    q, ref = build(parts), Q(shape, *parts)
    case.note(parts=parts, shape=shape)
    x, u = C.point(rng, shape), C.point(rng, shape)
    w = Watch(case, parts, q, ref, x)
    if ref.c == 0:
        if np.ndim(q.collapsed().linear_term) == 0:
            raise Skip("no shape: neither center nor linear term is an array")
        conj = q.conjugate
        l = ref.l
        case.close(conj.nonsmooth_objective(l.copy(), check_feasibility=True), -ref.k, "conj:linear-value", 1e-11, abs(ref.k))
        if np.abs(u - l).max() > 1e-2:
            case.check(np.isinf(conj.nonsmooth_objective(u.copy(), check_feasibility=True)), "conj:linear-outside")
        case.event("quad:conj-linear")
    else:
        conj = q.conjugate
        # sup_x <u,x> - q(x) attained at m + (u-l)/c
        for v in (u, C.point(rng, shape)):
            xs = ref.m + (v - ref.l) / ref.c
            exp = (v * xs).sum() - ref(xs)
            scale = np.abs(v * xs).sum() + ref.mag(xs) + ((np.abs(v) + np.abs(ref.l) + ref.c * np.abs(ref.m)) ** 2).sum() / ref.c
            case.close(conj.objective(v.copy(), "func"), exp, "conj:value", 1e-10, scale)
            case.close(np.asarray(conj.objective(v.copy(), "grad")) * np.ones(shape), xs, "conj:grad", 1e-10,
                       np.abs(ref.m).max() + (np.abs(v).max() + np.abs(ref.l).max()) / ref.c)
            case.leq((x * v).sum(), ref(x) + conj.objective(v.copy(), "func"), "conj:fenchel-young", 1e-9, scale + ref.mag(x))
        if np.ndim(conj.center) == 0 and conj.center not in (None, 0):
            case.event("precondition:scalar-center")   # a scalar linear term became a scalar center
            w.check("conj")
            return
        bi = conj.conjugate
        s = ref.mag(x) + ref.c * (ref.m ** 2).sum() + (ref.l ** 2).sum() / ref.c
        case.close(bi.objective(x.copy(), "func"), ref(x), "conj:biconjugate", 1e-9, s)
        case.event("quad:conj")
    w.check("conj")


def f_slice(case):
    rng = case.rng
    shape = (C.dim(rng, 1, 9),)
    parts = gen(rng, shape)
    q, ref = build(parts), Q(shape, *parts)
    n = shape[0]
    kind = rng.integers(0, 4)
    a, b = sorted(rng.integers(0, n + 1, 2))
    sl = [slice(int(a), int(b)), rng.random(n) < 0.5, rng.permutation(n)[:int(b)], slice(None, None, 2)][kind]
    case.note(parts=parts, n=n, kind=int(kind), sl=sl)
    x = C.point(rng, shape)
    w = Watch(case, parts, q, ref, x)
    s = q[sl]
    y = C.point(rng, shape)[sl]
    if y.size:
        r2 = Q(y.shape, ref.c, ref.m[sl], ref.l[sl], 0)
        agree(case, s, r2, y, "slice")
        # separable: pieces plus constant make the whole
        if kind == 1:
            v = s.objective(x[sl], "func") + (q[~sl].objective(x[~sl], "func") if (~sl).any() else 0)
            case.close(v + ref.k, ref(x), "slice:sum", 1e-11, ref.mag(x))
        case.event("quad:slice")
    w.check("slice")
    if isinstance(parts[1], np.ndarray) and isinstance(parts[2], np.ndarray):
        bad = iq(1., parts[1], np.zeros(n + 1), 0)
        case.raises(lambda: bad[sl], "slice:conflicting-shapes")


def f_history(case):
    """a random program over a pool of quadratics: nothing made earlier ever changes"""
    rng = case.rng
    shape = (C.dim(rng, 1, 6),)
    pool = []
    for _ in range(2):
        p = gen(rng, shape)
        pool.append((build(p), Q(shape, *p)))
    xs = [C.point(rng, shape) for _ in range(2)]
    ops = []
    for step in range(8):
        i, j = rng.integers(0, len(pool), 2)
        (q, r), (q2, r2) = pool[i], pool[j]
        op = rng.integers(0, 6)
        ops.append((int(op), int(i), int(j)))
        if op <= 1:
            s = q + q2
            pool.append((s, Sum(r, r2)))
        elif op == 2:
            pool.append((q.collapsed(), r))
        elif op == 3:
            pool.append((copy(q), r))
        elif op == 4:
            q.recenter(C.point(rng, shape))
            q[slice(0, 1)]
            q.true_center
        elif op == 5:
            if r.c > 0:
                q.conjugate
        for (a, b) in pool:
            for x in xs:
                case.close(a.objective(x, "func"), b(x), "history:value", 1e-10, b.mag(x))
    case.note(ops=ops, shape=shape)
    case.event("quad:history")


class Sum(Q):
    def __init__(self, a, b):
        self.shape, self.a, self.b, self.c = a.shape, a, b, a.c + b.c

    def __call__(self, x):
        return self.a(x) + self.b(x)

    def grad(self, x):
        return self.a.grad(x) + self.b.grad(x)

    def mag(self, x):
        return self.a.mag(x) + self.b.mag(x)


def f_scalar_center(case):
    """probe: a scalar non-zero center"""
    n = 2 + case.index
    q = iq(2., 3., 0, 0)
    x = np.arange(n) * 1.
    v = q.objective(x, "func")
    case.close(v, ((x - 3.) ** 2).sum(), "scalar-center:value")
    case.close(q.collapsed().objective(x, "func"), v, "kf:collapsed-scalar-center")


FAMILIES = [
    Family("basic", f_basic, 900, 40000),
    Family("add", f_add, 700, 30000),
    Family("conj", f_conj, 700, 30000),
    Family("slice", f_slice, 500, 20000),
    Family("history", f_history, 400, 16000),
    Family("scalar_center", f_scalar_center, 2, 2, probe=True),
]
