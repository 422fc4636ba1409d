"""P04 smoothing: value and gradient of the envelope, certified through the reported maximiser."""
import numpy as np
import regreg.api as rr
from rv.core import Family, Skip
from rv import catalog as C, refpen as R
from rv.props.p01 import gauge_scale
from rv.props.p02 import magnitude, wscale
from rv.props.p03 import gen_shifted, approx_tol, conj_prox_ok

iq = C.iq


def arr(v):
    return None if v is None or np.ndim(v) == 0 else v


def smoothing_quadratic(rng, shape, simple=False):
    eps = float(np.exp(rng.uniform(-4, 2)))
    if simple:
        return (eps, None if rng.random() < .5 else 0, None if rng.random() < .5 else 0, 0.)
    return C.quad_parts(rng, shape, coef=eps)


def certify_env(case, item, ref, sq, x, v, g, key):
    """(v, g) are the value and gradient of sup_u <x,u> - h*(u) - sq(u) with h = ref"""
    eps, c, l, k = sq
    c = np.zeros(item.shape) if arr(c) is None else c
    l = np.zeros(item.shape) if arr(l) is None else l
    case.check(g.shape == tuple(item.shape), key + ":shape")
    case.check(np.isfinite(g).all() and np.isfinite(v), key + ":finite", "%r %r" % (v, g))
    w = eps * (g - c)
    z = x - l - w
    zz = ref._x(z)
    r = g if ref.lin is None else g - ref.lin
    pin, din, gap = item.pen.support_gap(zz, r)
    mag = [x, c * eps, l, z] + [a for a in (ref.offset,) if a is not None]
    sz = 1. + sum(np.abs(a).max() for a in mag)
    sr = 1. + np.abs(g).max() + (0 if ref.lin is None else np.abs(ref.lin).max()) + sz / eps
    sz = max(sz, eps * sr)
    tol = 10 * max(1e-8, item.tol)
    n = z.size
    case.leq(pin, 0., key + ":infeasible", tol * np.sqrt(n), sz, "x=%s z=%s" % (x, z))
    case.leq(din, 0., key + ":dual", tol * np.sqrt(n), sr, "x=%s g=%s" % (x, g))
    case.leq(gap, 0., key + ":gap", tol * n, sr * sz * gauge_scale(item), "x=%s z=%s g=%s" % (x, z, g))
    hz = item.pen.value(zz) + ref.quad(z)
    exp = hz + (c * w).sum() + (w ** 2).sum() / (2 * eps) - k
    scale = abs(hz) + magnitude(ref, z) + np.abs(c * w).sum() + (w ** 2).sum() / eps + abs(k) + np.abs(g * x).sum() + \
        np.abs(l * g).sum() + eps * ((g - c) ** 2).sum()
    case.close(v, exp, key + ":value", max(1e-8, 10 * approx_tol(item)), scale * gauge_scale(item), "x=%s" % x)


RADIUS2 = {
    "l1norm": lambda it: np.prod(it.shape), "supnorm": lambda it: 1., "l2norm": lambda it: 1.,
    "positive_part": lambda it: np.prod(it.shape), "max_positive_part": lambda it: 1.,
    "weighted_l1norm": lambda it: (it.desc["weights"] ** 2).sum(), "slope": lambda it: (it.desc["weights"] ** 2).sum(),
    "group_lasso": lambda it: (it.pen.g.w ** 2).sum(), "l1_l2": lambda it: it.shape[0], "linf_l2": lambda it: 1.,
    "l1_l1": lambda it: np.prod(it.shape), "linf_linf": lambda it: 1.,
    "nuclear_norm": lambda it: min(it.shape), "operator_norm": lambda it: 1.,
}


def f_env(kinds):
    def fn(case):
        rng = case.rng
        kind = kinds[case.index % len(kinds)]
        form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
        item = C.make(rng, kind, form, zero_param=False)
        if isinstance(item.pen, R.Pen) and not conj_prox_ok(item.kind, item.form):
            form = {"lagrange": "bound", "bound": "lagrange"}[form]
            item = C.make(rng, kind, form, zero_param=False)
        obj, ref = gen_shifted(rng, item)
        sq = smoothing_quadratic(rng, item.shape)
        case.note(sq=sq, **item.desc)
        sqo = C.quad_obj(sq)
        sm = obj.smoothed(sqo)
        pts = []
        buf = np.empty(item.shape)
        refill = rng.random() < .5

        def given(x):           # the caller may keep one array and refill it
            if not refill:
                return x.copy()
            buf[...] = x
            return buf
        for _ in range(3):
            x = C.point(rng, item.shape)
            got = {}
            for m in rng.permutation(["func", "grad", "both"]):
                r = sm.smooth_objective(given(x), str(m))
                got[m] = np.array(r) if m != "both" else (r[0], np.array(r[1]))
            v, g = got["both"]
            certify_env(case, item, ref, sq, x, v, g, "env")
            case.close(got["func"], v, "env:modes", 1e-12, abs(v))
            case.close(got["grad"], g, "env:modes", 1e-12)
            pts.append((x, v, g))
        # smoothing left the penalty and the quadratic as they were
        x = C.point(rng, item.shape)
        z = ref._x(x)
        if item.form != "lagrange" or item.pen.outside(z) == 0:
            case.close(obj.nonsmooth_objective(x.copy()), item.pen.value(z) + ref.quad(x), "env:original", max(1e-9, item.vtol),
                       abs(item.pen.value(z)) + magnitude(ref, x))
        v0 = R.Shifted(None, None, sq[0], arr(sq[1]), arr(sq[2]), sq[3])
        case.close(sqo.objective(x, "func"), v0.quad(x), "env:quadratic-unchanged", 1e-12, magnitude(v0, x))
        # Lipschitz gradient between observed points, including a near neighbour
        x0, _, g0 = pts[0]
        y = x0 + 1e-3 * rng.standard_normal(item.shape)
        gy = np.array(sm.smooth_objective(y, "grad"))
        for x1, g1 in [(y, gy)] + [(p[0], p[2]) for p in pts[1:]]:
            d = np.linalg.norm(x1 - x0)
            case.leq(np.linalg.norm(g1 - g0), d / sq[0], "env:lipschitz", 1e-7, (np.abs(x1).max() + np.abs(x0).max()) / sq[0] * wscale(item) + np.abs(g0).max())
        # convexity along the segment
        m = sm.smooth_objective(0.5 * (pts[0][0] + pts[1][0]), "func")
        case.leq(m, 0.5 * (pts[0][1] + pts[1][1]), "env:convex", 1e-8, abs(pts[0][1]) + abs(pts[1][1]))
        case.event("env:" + kind + ":" + form)
    return fn


def f_bounds(case):
    """envelope below the penalty, within eps R^2/2, increasing to it as eps decreases"""
    rng = case.rng
    kinds = list(RADIUS2)
    kind = kinds[case.index % len(kinds)]
    item = C.make(rng, kind, "lagrange", zero_param=False, zero_weights=False)
    if kind == "weighted_l1norm" and not np.isfinite(item.desc["weights"]).all():
        raise Skip("unbounded dual set")
    obj, ref = gen_shifted(rng, item)
    x = C.point(rng, item.shape)
    case.note(x=x, **item.desc)
    h = obj.nonsmooth_objective(x.copy())
    R2 = item.param ** 2 * RADIUS2[kind](item)
    # a linear term moves the dual set
    R2 = (np.sqrt(R2) + (0 if ref.lin is None else np.linalg.norm(ref.lin))) ** 2
    prev = -np.inf
    scale = abs(h) + magnitude(ref, x)
    for eps in [10., 1., 0.1, 1e-2, 1e-4]:
        v = obj.smoothed(iq(eps, 0, 0, 0)).smooth_objective(x.copy(), "func")
        case.leq(v, h, "bounds:below", 1e-8, scale, "eps=%g" % eps)
        case.leq(h - v, 0.5 * eps * R2, "bounds:gap", 1e-8, scale, "eps=%g" % eps)
        case.leq(prev, v, "bounds:monotone", 1e-8, scale, "eps=%g" % eps)
        prev = v
    case.event("bounds:" + kind)


def f_affine(case):
    """smoothing a penalty behind a linear map with shift"""
    import scipy.sparse as sp
    rng = case.rng
    kinds = C.SIMPLE + C.WEIGHTED + ["group_lasso", "group_lasso_dual", "slope"]
    kind = kinds[case.index % len(kinds)]
    form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
    if not conj_prox_ok(kind, form):
        form = "lagrange"
    item = C.make(rng, kind, form, zero_param=False)
    n = item.shape[0]
    p = C.dim(rng, 1, 8)
    D = np.round(rng.standard_normal((n, p)), 3)
    b = C.point(rng, (n,)) if rng.random() < 0.6 else None
    simple = rng.random() < 0.5
    sq = smoothing_quadratic(rng, item.shape, simple)
    case.note(D=D, b=b, sq=sq, **item.desc)
    from regreg.atoms import affine_atom
    from regreg.affine import affine_transform
    if kind in C.SIMPLE and rng.random() < 0.5:
        obj = getattr(rr, kind).linear(sp.csr_matrix(D) if rng.random() < .3 else D.copy(), offset=b, **{form: item.param})
    else:
        obj = affine_atom(item.build(), affine_transform(D.copy(), None if b is None else b.copy()))
    ref = R.Shifted(item.pen, None if b is None else -b)
    sm = obj.smoothed(C.quad_obj(sq))
    s2 = np.linalg.norm(D, 2) ** 2
    prev = None
    for _ in range(3):
        x = C.point(rng, (p,))
        v, g = sm.smooth_objective(x.copy(), "both")
        g = np.array(g)
        # the inner maximiser is observed through the composed object's stored inner gradient when kept; otherwise
        # it is recomputed by the un-composed smoothing of the same penalty at Dx
        inner = item.build(offset=None if b is None else -b).smoothed(C.quad_obj(sq))
        vi, gi = inner.smooth_objective(D.dot(x), "both")
        certify_env(case, item, ref, sq, D.dot(x), vi, gi, "affine-env:inner")
        case.close(v, vi, "affine-env:value", 1e-9, abs(vi) + np.abs(gi * D.dot(x)).sum())
        case.close(g, D.T.dot(gi), "affine-env:gradient", 1e-9, (np.abs(D.T).dot(np.abs(gi))).max())
        case.close(sm.smooth_objective(x.copy(), "func"), v, "affine-env:modes", 1e-12, abs(v))
        case.close(sm.smooth_objective(x.copy(), "grad"), g, "affine-env:modes", 1e-12)
        if prev is not None:
            case.leq(np.linalg.norm(g - prev[1]), s2 / sq[0] * np.linalg.norm(x - prev[0]), "affine-env:lipschitz", 1e-8,
                     np.abs(g).max() + s2 / sq[0] * np.abs(x).max() * wscale(item))
        prev = (x, g)
    # the composed penalty is still itself
    v = obj.nonsmooth_objective(x.copy())
    z = ref._x(D.dot(x))
    if form == "bound" or item.pen.outside(z) == 0:
        case.close(v, item.pen.value(z), "affine-env:original", 1e-8, abs(v))
    case.event("affine-env:" + kind)


def f_setters(case):
    """smoothing again after the parameter, shift or quadratic changed reflects the change"""
    rng = case.rng
    kind = C.SEMINORMS[case.index % len(C.SEMINORMS)]
    form = ["lagrange", "bound"][(case.index // len(C.SEMINORMS)) % 2]
    if not conj_prox_ok(kind, form):
        form = {"lagrange": "bound", "bound": "lagrange"}[form]
    item = C.make(rng, kind, form, zero_param=False)
    obj, ref = gen_shifted(rng, item)
    case.note(**item.desc)
    first = obj.smoothed(iq(1., 0, 0, 0))
    for _ in range(2):
        t = float(np.exp(rng.uniform(-1, 1)))
        setattr(obj, form, t)
        item.pen = R.Pen(item.pen.g, **{form: t})
        ref.h = item.pen
        if rng.random() < .5:
            off = C.point(rng, item.shape)
            obj.offset = off.copy()
            ref.offset = off
        sq = smoothing_quadratic(rng, item.shape)
        x = C.point(rng, item.shape)
        v, g = obj.smoothed(C.quad_obj(sq)).smooth_objective(x, "both")
        certify_env(case, item, ref, sq, x, v, np.array(g), "after-set")
    case.event("env:setter")


FAMILIES = [
    Family("env", f_env(C.SEMINORMS), 1040, 36000),
    Family("env_cones", f_env(C.CONES + C.OTHER), 440, 15000),
    Family("bounds", f_bounds, 420, 12000),
    Family("affine", f_affine, 480, 15000),
    Family("setters", f_setters, 260, 9000),
]
