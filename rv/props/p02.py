"""P02 values and verdicts: every reported number is compared with the definition written in refpen."""
import numpy as np
import regreg.api as rr
from rv.core import Family, Skip
from rv import catalog as C, refpen as R
from rv.props.p01 import gen_mixed, boundary


def both_forms(index, kinds):
    return kinds[index % len(kinds)], ["lagrange", "bound"][(index // len(kinds)) % 2]


def magnitude(ref, x):
    """size of the terms summed in the reference value"""
    s = 1. + abs(ref.const)
    r = x if ref.center is None else x - ref.center
    s += ref.coef * (r ** 2).sum()
    if ref.lin is not None:
        s += np.abs(ref.lin * x).sum()
    return s


def inside_point(rng, item):
    """x (unshifted) in the domain / set of the pure penalty, or None"""
    pen = item.pen
    x = C.point(rng, item.shape)
    if isinstance(pen, R.Pen):
        g = pen.g
        x = into_domain(g, x)
        if pen.bound is not None:
            p = g.p(x)
            if p > pen.bound:
                x = x * (pen.bound / p) * [1., 0.7][rng.integers(0, 2)] if p > 0 else x
        return x
    return None


def into_domain(g, x):
    x = x.copy()
    inner = g.g if isinstance(g, R.Polar) else g
    if isinstance(g, R.WeightedL1):
        x[g.inf] = 0
    elif isinstance(inner, R.WeightedL1):
        x[inner.zero] = 0
    elif isinstance(g, R.ConsPositivePart) or (isinstance(g, R.Polar) and isinstance(inner, R.PositivePart)):
        x = np.abs(x)
    elif isinstance(g, R.Polar) and isinstance(inner, R.SparseGroup):
        for f in inner._free():
            x[f] = 0
    elif isinstance(g, R.Polar) and isinstance(inner, R.Group):
        for w, s in zip(inner.w, inner.sel):
            if w == 0:
                x[s] = 0
    elif isinstance(g, R.Group):
        pass
    return x


def value_checks(case, item, obj, ref, x, key):
    """x: argument handed to the library"""
    z = ref._x(x)
    exp_fin = item.pen.value(z)
    quad = ref.quad(x)
    scale = abs(exp_fin) + magnitude(ref, x)
    v0 = obj.nonsmooth_objective(x.copy(), check_feasibility=False)
    hard = getattr(item.pen, "bound", 0) is None and item.pen.outside(z) > 0   # finite part unspecified off the domain
    if not hard:
        case.close(v0, exp_fin + quad, key + ":value", max(item.vtol, 1e-9), scale, "x=%s" % x)
    v1 = obj.nonsmooth_objective(x.copy(), check_feasibility=True)
    out = item.pen.outside(z)
    sz = 1e-300 + np.abs(z).max() + (abs(item.pen.bound) if getattr(item.pen, "bound", None) else 0.)
    if getattr(item.pen, "lagrange", None) == 0 and out > 0:
        case.event("unspecified:zero-times-infinity")
    elif out <= 1e-9 * sz * 1e-3:
        case.close(v1, exp_fin + quad, key + ":inside", max(item.vtol, 1e-9), scale, "x=%s" % x)
        case.event("verdict:inside")
    elif out > margin(item, z):
        case.check(np.isinf(v1) and v1 > 0, key + ":outside", "value %r at a point outside by %.3g: %s" % (v1, out, x))
        case.event("verdict:outside")
    o0 = obj.objective(x.copy())
    if not hard:
        case.close(o0, exp_fin + quad, key + ":objective", max(item.vtol, 1e-9), scale)
    case.event("value:%s:%s" % (item.kind, item.form))


def margin(item, z):
    """excess beyond which a point is clearly outside: well above the documented 1e-5 relative tolerance"""
    b = getattr(item.pen, "bound", None)
    return 1e-3 * (1. + np.linalg.norm(z) + (abs(b) if b else 0.)) * wscale(item)


def wscale(item):
    for k in ("weights", "lasso_weights"):
        w = item.desc.get(k)
        if w is not None:
            w = np.array(list(w.values()) if isinstance(w, dict) else w, float)
            w = w[np.isfinite(w) & (w > 0)]
            if w.size:
                return max(1., w.max(), 1. / w.min())
    return 1.


def f_value(kinds):
    def fn(case):
        rng = case.rng
        kind, form = both_forms(case.index, kinds)
        item = C.make(rng, kind, form)
        obj, ref = C.attach(rng, item)
        pts = [C.point(rng, item.shape, [1., 1., 1e-3, 1e3][rng.integers(0, 4)]) for _ in range(2)]
        ins = inside_point(rng, item)
        if ins is not None:
            pts.append(ins if ref.offset is None else ins + ref.offset)
        case.note(x=pts[0], **item.desc)
        for x in pts:
            value_checks(case, item, obj, ref, x, "value")
        # the pure seminorm entry point, explicit parameters
        if item.seminorm:
            lam = float(np.exp(rng.uniform(-1, 1)))
            z = into_domain(item.pen.g, C.point(rng, item.shape))
            p = item.pen.g.p(z)
            case.close(obj.seminorm(z.copy(), lagrange=lam), lam * p, "seminorm:explicit", max(item.vtol, 1e-9), lam * p)
            if form == "lagrange":
                case.close(obj.seminorm(z.copy()), item.param * p, "seminorm:default", max(item.vtol, 1e-9), item.param * p)
            # integer argument gives the same number
            zi = np.round(z)
            case.close(obj.seminorm(zi.astype(int), lagrange=lam), lam * item.pen.g.p(zi), "seminorm:int", max(item.vtol, 1e-9),
                       lam * item.pen.g.p(zi))
    return fn


def f_boundary(kinds):
    """inside / on / outside the boundary of the bound form and of cones; and the library's own projections"""
    def fn(case):
        rng = case.rng
        kind = kinds[case.index % len(kinds)]
        item = C.make(rng, kind, "bound", param=float(np.exp(rng.uniform(-2, 2))) if kind in C.SEMINORMS else None)
        obj, ref = C.attach(rng, item, mode=int(rng.integers(0, 2)))
        case.note(**item.desc)
        off = ref.offset
        sh = (lambda z: z) if off is None else (lambda z: z + off)
        pen = item.pen
        feas = lambda z: obj.nonsmooth_objective(sh(z), check_feasibility=True)
        nosh = off is None
        if isinstance(pen, R.Pen):
            z = into_domain(pen.g, C.point(rng, item.shape))
            p = pen.g.p(z)
            if p > 1e-8:
                for f, inside in ((0.5, True), (1 - 1e-7, True), (1., True), (1.01 if item.vtol < 1e-4 else 1.05, False), (3., False)):
                    w = z * (pen.bound / p * f)
                    if not nosh and inside and f != 0.5 and np.abs(off).max() * 1e-9 > np.abs(w).max():
                        continue
                    v = feas(w)
                    if inside:
                        case.close(v, 0., "boundary:accept", 1e-9, 0, "p/bound=%.9g, z=%s" % (f, w))
                        case.event("verdict:inside")
                    else:
                        case.check(np.isinf(v), "boundary:reject", "p/bound=%.9g accepted, z=%s" % (f, w))
                        case.event("verdict:outside")
        if not isinstance(pen, R.Pen):
            for m in ("maximum", "zero"):
                if item.kind == m:
                    return
            x = C.point(rng, item.shape)
            z = obj.proximal(C.iq(1., sh(x), 0, 0)) - (0 if off is None else off)
            dist = np.linalg.norm(x - z)
            n = np.linalg.norm(x - z)
            out = pen.outside(x)
            if dist > 1e-2 * (1 + np.linalg.norm(x)):
                v = feas(x)
                case.check(np.isinf(v), "boundary:reject", "point at distance %.3g from the set accepted: %s" % (dist, x))
                case.event("verdict:outside")
        if (kind, "bound") in C.NOPROX:
            return
        x = C.point(rng, item.shape)
        z = obj.proximal(C.iq(float(np.exp(rng.uniform(-1, 1))), sh(x), 0, 0))
        v = obj.nonsmooth_objective(z, check_feasibility=True)
        case.close(v, 0., "projection:feasible", 1e-9, 0, "own projection %s of %s rejected" % (z, x))
        case.event("verdict:projection")
    return fn


def f_setters(case):
    rng = case.rng
    kind, form = both_forms(case.index, C.SEMINORMS)
    item = C.make(rng, kind, form)
    obj, ref = C.attach(rng, item)
    case.note(**item.desc)
    obj.nonsmooth_objective(C.point(rng, item.shape))
    for _ in range(3):
        if rng.random() < 0.3:
            obj.conjugate                       # building the conjugate must not freeze anything
        t = 0. if rng.random() < 0.15 else float(np.exp(rng.uniform(-2, 1)))
        setattr(obj, form, t)
        item.pen = R.Pen(item.pen.g, **{form: t})
        item.param = t
        ref.h = item.pen
        case.check(getattr(obj, form) == t, "setter:roundtrip")
        value_checks(case, item, obj, ref, C.point(rng, item.shape), "after-set")
        ins = inside_point(rng, item)
        value_checks(case, item, obj, ref, ins if ref.offset is None else ins + ref.offset, "after-set")
        if rng.random() < 0.5:
            off = C.point(rng, item.shape)
            obj.offset = off.copy()
            ref.offset = off
            value_checks(case, item, obj, ref, C.point(rng, item.shape), "after-set-offset")
        case.event("setter:" + form)
    # an atom in one form refuses to become the other
    if form == "lagrange":
        case.raises(lambda: setattr(obj, "bound", 1.), "setter:wrong-form")
    else:
        case.raises(lambda: setattr(obj, "lagrange", 1.), "setter:wrong-form")


LINEAR = ["l1norm", "supnorm", "l2norm", "positive_part", "constrained_max", "constrained_positive_part", "max_positive_part"]
LCONES = ["nonnegative", "nonpositive", "zero", "zero_constraint"]
GA = dict(C.GAUGES)


def f_affine(case):
    """x -> h(Dx+b): value equals the value of h at the image"""
    import scipy.sparse as sp
    rng = case.rng
    kinds = LINEAR + LCONES
    kind = kinds[case.index % len(kinds)]
    form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
    q, p = C.dim(rng, 1, 8), C.dim(rng, 1, 8)
    D = np.round(rng.standard_normal((q, p)) * (rng.random((q, p)) < 0.7), 3)
    b = C.point(rng, (q,)) if rng.random() < 0.7 else None
    x = C.point(rng, (p,))
    qp = C.quad_parts(rng, (q,), coef=0. if rng.random() < .5 else None) if rng.random() < 0.4 else None
    t = float(np.exp(rng.uniform(-1, 1)))
    op = [lambda: D.copy(), lambda: sp.csr_matrix(D), lambda: sp.csc_matrix(D), lambda: rr.astransform(D.copy())][rng.integers(0, 4)]()
    route = rng.integers(0, 3)
    case.note(kind=kind, form=form, D=D, b=b, x=x, route=int(route), qp=qp, t=t)
    cls = getattr(rr, kind) if hasattr(rr, kind) else getattr(__import__("regreg.atoms.cones", fromlist=["x"]), kind)
    kw = {} if kind in LCONES else {form: t}
    if qp is not None:
        kw["quadratic"] = C.quad_obj(qp)
    if route == 0:
        obj = cls.linear(op, offset=None if b is None else b.copy(), **kw)
    elif route == 1:
        if b is None:
            b = np.zeros(q)
        obj = cls.affine(op, b.copy(), **kw)
    else:
        b = None
        obj = cls.linear(op, **kw)
    u = D.dot(x) + (0 if b is None else b)
    if kind in LCONES:
        pen = {"nonnegative": R.NONNEG, "nonpositive": R.NONPOS, "zero": R.FREE, "zero_constraint": R.ZERO}[kind]
    else:
        pen = R.Pen(GA[kind][0], **{form: t})
    quad = 0.
    if qp is not None:
        # the attached quadratic belongs to the atom: it sees Dx (the argument of the shifted atom)
        r = R.Shifted(None, None, qp[0], None if qp[1] is None or np.ndim(qp[1]) == 0 else qp[1],
                      None if qp[2] is None or np.ndim(qp[2]) == 0 else qp[2], qp[3])
        quad = r.quad(D.dot(x))
        mag = magnitude(r, D.dot(x))
    else:
        mag = 1.
    v = obj.nonsmooth_objective(x.copy())
    if form == "bound" or kind in LCONES or pen.outside(u) == 0:
        case.close(v, pen.value(u) + quad, "affine:value", 1e-9, abs(pen.value(u)) + mag)
    v = obj.nonsmooth_objective(x.copy(), check_feasibility=True)
    out = pen.outside(u)
    if out == 0:
        case.close(v, pen.value(u) + quad, "affine:inside", 1e-9, abs(pen.value(u)) + mag)
    elif out > 1e-3 * (1 + np.linalg.norm(u) + t):
        case.check(np.isinf(v), "affine:outside", "%r" % v)
    case.event("affine:" + kind)
    # dual: (transform, conjugate)
    L, conj = obj.dual
    case.close(L.linear_map(x.copy()), D.dot(x), "affine:dual-map", 1e-10)


def f_affine_weighted(case):
    """affine composition with the constructors that take weights or groups, through affine_atom itself"""
    from regreg.atoms import affine_atom
    rng = case.rng
    kinds = C.WEIGHTED + C.SLOPE + C.GROUP + C.SGL + C.SIMPLE
    kind = kinds[case.index % len(kinds)]
    form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
    item = C.make(rng, kind, form)
    obj0, ref = C.attach(rng, item)
    n = item.shape[0]
    p = C.dim(rng, 1, 6)
    D = np.round(rng.standard_normal((n, p)), 3)
    obj = affine_atom(obj0, rr.astransform(D.copy()))
    case.note(D=D, p=p, **item.desc)
    for _ in range(2):
        x = C.point(rng, (p,))
        u = D.dot(x)
        z = ref._x(u)
        out = item.pen.outside(z)
        fin = item.pen.value(z)
        v = obj.nonsmooth_objective(x.copy())
        if form == "bound" or out == 0:
            case.close(v, fin + ref.quad(u), "affine-atom:value", max(item.vtol, 1e-9), abs(fin) + magnitude(ref, u))
        v = obj.nonsmooth_objective(x.copy(), check_feasibility=True)
        if out > margin(item, z) and not (form == "lagrange" and item.param == 0):
            case.check(np.isinf(v), "affine-atom:outside", "%r" % v)
        case.event("affine:" + kind)
    # the atom handed in is not changed by the composition
    x = C.point(rng, item.shape)
    value_checks(case, item, obj0, ref, x, "affine-atom:original")


def f_mixed(case):
    rng = case.rng
    st, w, full = gen_mixed(rng)
    from regreg.atoms.mixed_lasso import L1_PENALTY, UNPENALIZED, POSITIVE_PART, NONNEGATIVE, mixed_lasso_dual
    n = st.shape[0]
    lam = float(np.exp(rng.uniform(-2, 1)))
    off = C.point(rng, (n,)) if rng.random() < 0.5 else None
    dual = case.index % 2 == 1
    case.note(st=st, w=w, lam=lam, off=off, dual=dual)
    l1, un, pp, nn = (st == L1_PENALTY), (st == UNPENALIZED), (st == POSITIVE_PART), (st == NONNEGATIVE)
    cls = mixed_lasso_dual if dual else rr.mixed_lasso
    obj = cls(st.copy(), lam, weights=dict(w), offset=None if off is None else off.copy())
    for inside in (True, False):
        z = C.point(rng, (n,))
        if not dual:
            if inside:
                z[pp | nn] = np.abs(z[pp | nn])
            val = np.abs(z[l1]).sum() + np.maximum(z[pp], 0).sum() + sum(wt * np.linalg.norm(z[st == g]) for g, wt in full.items())
            out = max([0.] + list(-z[pp | nn]))
        else:
            q = max([0.] + list(np.abs(z[l1])) + list(z[pp]) + [np.linalg.norm(z[st == g]) / wt for g, wt in full.items() if wt > 0])
            hard = un.copy()
            for g, wt in full.items():
                if wt == 0:
                    hard |= st == g
            if inside:
                z[hard] = 0
                z[nn] = -np.abs(z[nn])
                if q > lam:
                    z = z * lam / q
            val = 0.
            q = max([0.] + list(np.abs(z[l1])) + list(z[pp]) + [np.linalg.norm(z[st == g]) / wt for g, wt in full.items() if wt > 0])
            out = max([q - lam] + list(z[nn]) + list(np.abs(z[hard])))
        x = z if off is None else z + off
        v = obj.nonsmooth_objective(x.copy())
        if dual or inside or not (pp.any()):
            case.close(v, lam * val, "mixed:value", 1e-9)
        v = obj.nonsmooth_objective(x.copy(), check_feasibility=True)
        if inside:
            case.close(v, lam * val, "mixed:inside", 1e-9)
            case.event("mixed:inside")
        elif out > 1e-2 * (1 + np.abs(z).max() + lam):
            case.check(np.isinf(v), "mixed:outside", "outside by %.3g: value %r" % (out, v))
            case.event("mixed:outside")
    # own projections are feasible
    x = C.point(rng, (n,))
    z = obj.proximal(C.iq(1.5, x, 0, 0))
    v = obj.nonsmooth_objective(z, check_feasibility=True)
    case.check(np.isfinite(v), "mixed:own-prox", "%r at %s" % (v, z))


TERMED = ["weighted_l1norm", "weighted_supnorm", "group_lasso", "group_lasso_dual", "sparse_group_lasso", "sparse_group_lasso_dual",
          "sparse_group_block", "sparse_group_block_dual"]


def f_terms(case):
    """the separate terms of a group norm, groups in the order of their sorted labels: each is the norm of that part alone"""
    rng = case.rng
    kind, form = both_forms(case.index, TERMED)
    item = C.make(rng, kind, form, zero_param=False)
    obj, g = item.build(), item.pen.g
    case.note(**item.desc)
    n = int(np.prod(item.shape))
    if "groups" in item.desc:
        labels = np.asarray(item.desc["groups"])
        parts = [np.nonzero(labels == l)[0] for l in sorted(set(labels.tolist()))]
    elif len(item.shape) == 2:
        parts = [np.arange(n).reshape(item.shape)[i] for i in range(item.shape[0])]
    else:
        parts = [np.array([i]) for i in range(n)]
    for _ in range(3):
        x = C.point(rng, item.shape)
        x0 = x.copy()
        t = np.asarray(obj.terms(x))
        case.same(x, x0, "terms:argument-changed")
        case.check(t.shape == (len(parts),), "terms:shape", "%s" % (t.shape,))
        want, off = [], []
        for s in parts:
            z = np.zeros(n)
            z[s] = x.ravel()[s]
            z = z.reshape(item.shape)
            off.append(g.p_out(z) > 0)
            want.append(g.p(z))
        want, off = np.array(want), np.array(off)
        sc = 1e-300 + np.abs(want).max() + np.abs(x).max() * wscale(item)
        if kind.endswith("_dual") and kind.startswith("sparse"):    # the group weights carry an absolute tolerance of 1e-5
            ws = [item.desc[k] for k in ("l1", "l2") if item.desc.get(k, 0) > 0]
            sc *= max([wscale(item)] + [1. / v for v in ws])
        if not off.all():
            case.close(t[~off], want[~off], "terms:value", max(1e-9, 5 * item.vtol), sc, "x=%s" % x)
        if off.any() and kind not in ("sparse_group_lasso_dual", "sparse_group_block_dual"):
            case.check(np.isinf(t[off]).all(), "terms:outside", "%s at %s" % (t, x))
        case.event("terms")


def f_constructors(case):
    """the other ways to obtain a penalty: shift, linear of sets, the one-sided norm as a shifted absolute value"""
    from regreg.atoms.seminorms import positive_part_lagrange
    rng = case.rng
    style = case.index % 4
    t = float(np.exp(rng.uniform(-1, 1)))
    if style < 2:
        q = C.dim(rng, 1, 8)
        o = C.point(rng, (q,)) if style == 0 or rng.random() < .7 else None
        qp = C.quad_parts(rng, (q,)) if rng.random() < .5 else None
        quad = None if qp is None else C.quad_obj(qp)
        if style == 0:
            kind = C.SIMPLE[(case.index // 4) % len(C.SIMPLE)]
            form = ["lagrange", "bound"][(case.index // 4 // len(C.SIMPLE)) % 2]
            obj = getattr(rr, kind).shift(o.copy(), quadratic=quad, **{form: t})
            pen, cen = R.Pen(C.GAUGES[kind][0], **{form: t}), -o
        else:
            kind, form = "positive_part_lagrange", "lagrange"
            obj = positive_part_lagrange((q,), t, offset=None if o is None else o.copy(), quadratic=quad)
            pen, cen = R.Pen(C.GAUGES["positive_part"][0], lagrange=t), o
        item = C.Item("l1norm", (q,), form, t, None, pen, tol=1e-8, vtol=1e-9, desc=dict(kind=kind, form=form, t=t))
        z = lambda v: None if v is None or np.ndim(v) == 0 else v
        ref = R.Shifted(pen, cen) if qp is None else R.Shifted(pen, cen, float(qp[0]), z(qp[1]), z(qp[2]), float(qp[3]))
        case.note(kind=kind, form=form, t=t, o=o, qp=qp)
        for _ in range(2):
            value_checks(case, item, obj, ref, C.point(rng, (q,)), "constructors:" + kind)
        from rv.props.p01 import certify
        x = C.point(rng, (q,))
        certify(case, item, ref, (1., x, None, 0.), obj.proximal(C.iq(1., x.copy(), 0, 0)), "constructors:" + kind + ":prox")
    else:
        kind = ["projection", "projection_complement", "simplex_constraint", "maximum"][(case.index // 4) % 4]
        q, p = C.dim(rng, 2, 8), C.dim(rng, 1, 8)
        D = np.round(rng.standard_normal((q, p)), 3)
        b = C.point(rng, (q,)) if rng.random() < .7 else None
        lin = C.point(rng, (q,)) if rng.random() < .5 else None
        args = ()
        if kind.startswith("proj"):
            B = np.linalg.qr(rng.standard_normal((q, int(rng.integers(1, q + 1)))))[0].T.copy()
            cls, args = getattr(rr, kind), (B.copy(),)
            pen = R.subspace(B) if kind == "projection" else R.polar_of(R.subspace(B))
        else:
            cls = C.simplex_constraint if kind == "simplex_constraint" else C.maximum
            pen = R.SIMPLEX if kind == "simplex_constraint" else R.SIMPLEX.conj()
        obj = cls.linear(D.copy(), *args, linear_term=None if lin is None else lin.copy(), offset=None if b is None else b.copy())
        case.note(kind=kind, D=D, b=b, lin=lin)
        for _ in range(3):
            x = C.point(rng, (p,))
            y = rng.random(q) + 1e-3
            if p >= q and rng.random() < .6:       # aim at a feasible image
                goal = {"projection": lambda: B.T.dot(B.dot(y)), "projection_complement": lambda: y - B.T.dot(B.dot(y)),
                        "simplex_constraint": lambda: y / y.sum(), "maximum": lambda: y}[kind]()
                x = np.linalg.lstsq(D, goal - (0 if b is None else b), rcond=None)[0]
            u = D.dot(x) + (0 if b is None else b)
            l = 0. if lin is None else (lin * D.dot(x)).sum()
            sc = np.abs(u).max() + 1
            case.close(obj.nonsmooth_objective(x.copy()), pen.value(u) + l, "constructors:" + kind, 1e-9,
                       sc + (0. if lin is None else np.abs(lin).max() * np.abs(D).sum() * np.abs(x).max()))
            out = pen.outside(u)
            v = obj.nonsmooth_objective(x.copy(), check_feasibility=True)
            if out > 1e-2 * sc:
                case.check(np.isinf(v), "constructors:outside:" + kind, v)
            elif out < 1e-10 * sc:
                case.check(np.isfinite(v), "constructors:inside:" + kind, v)
                case.event("constructors:inside")
    case.event("constructors:" + kind)


FAMILIES = [
    Family("terms", f_terms, 320, 8000, need=["terms"]),
    Family("simple", f_value(C.SIMPLE), 840, 30000),
    Family("weighted", f_value(C.WEIGHTED), 360, 14000),
    Family("slope", f_value(C.SLOPE), 200, 8000),
    Family("group", f_value(C.GROUP), 360, 14000),
    Family("sgl", f_value(C.SGL), 200, 6000),
    Family("sgb", f_value(C.SGB), 160, 5000),
    Family("block", f_value(C.BLOCK), 480, 15000),
    Family("svd", f_value(C.SVD), 120, 5000),
    Family("cones", f_value(C.CONES), 800, 24000),
    Family("other", f_value(C.OTHER), 120, 5000),
    Family("boundary", f_boundary(C.SEMINORMS + C.CONES + C.OTHER), 1000, 30000),
    Family("setters", f_setters, 320, 9000),
    Family("constructors", f_constructors, 320, 9000),
    Family("affine", f_affine, 330, 10000),
    Family("affine_weighted", f_affine_weighted, 320, 9000),
    Family("mixed", f_mixed, 300, 9000),
]
