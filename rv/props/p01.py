"""P01 proximal maps: a certificate monitor on every answer.

At the returned z the residual r = -grad(requested + attached quadratic)(z) must be a subgradient of the
penalty at z - offset.  For every penalty this is three numbers (primal infeasibility, dual infeasibility,
Fenchel gap), all zero iff z is the exact minimiser.
"""
import numpy as np
from regreg.identity_quadratic import identity_quadratic as iq
from rv.core import Family, Skip
from rv import catalog as C, refpen as R


def certify(case, item, ref, parts, z, key, mult=1.):
    c, center, lin, const = parts
    req = R.Shifted(None, None, float(c), None if center is None else center, None if lin is None or np.ndim(lin) == 0 else lin, const)
    z = np.asarray(z, float)
    case.check(z.shape == tuple(item.shape), key + ":shape", "%s != %s" % (z.shape, item.shape))
    case.check(np.isfinite(z).all(), key + ":finite", z)
    if req.center is not None and np.ndim(req.center) == 0:
        req.center = None
    r = -(req.quad_grad(z) + ref.quad_grad(z))
    zz = ref._x(z)
    pin, din, gap = item.pen.support_gap(zz, r)
    L = c + ref.coef
    center_mag = np.max(np.abs(r)) / max(L, 1e-300) if z.size else 0
    sz = 1. + np.max(np.abs(zz)) + np.max(np.abs(z)) + center_mag
    if ref.offset is not None:
        sz += np.max(np.abs(ref.offset))
    for v in (center, ref.center):
        if v is not None:
            sz += np.max(np.abs(v))
    sr = L * sz + sum(np.max(np.abs(v)) for v in (lin, ref.lin) if v is not None)
    sz += sr / L
    tol = item.tol * mult
    n = z.size
    case.leq(pin, 0., key + ":infeasible", tol * np.sqrt(n), sz, "|z|~%.3g z=%s" % (sz, z))
    case.leq(din, 0., key + ":dual", tol * np.sqrt(n), sr, "z=%s r=%s" % (z, r))
    wmax = gauge_scale(item)
    case.leq(gap, 0., key + ":gap", tol * n, sr * sz * wmax, "z=%s r=%s" % (z, r))
    case.event("prox:" + item.kind + ":" + item.form)


def gauge_scale(item):
    """the polar gauge divides by weights, which amplifies rounding of the residual"""
    g = getattr(item.pen, "g", None)
    g = getattr(g, "g", g)
    w = getattr(g, "w", None)
    s = 1.
    if w is not None and item.form == "bound":
        w = np.asarray(w, float)
        w = w[np.isfinite(w) & (w > 0)]
        if w.size:
            s = max(1., w.max() / w.min(), 1. / w.min())
    return s


def fam(kinds):
    def fn(case):
        rng = case.rng
        kind = kinds[case.index % len(kinds)]
        forms = ["lagrange", "bound"]
        form = forms[(case.index // len(kinds)) % 2]
        if (kind, form) in C.NOPROX:
            form = forms[1 - forms.index(form)]
        item = C.make(rng, kind, form)
        obj, ref = C.attach(rng, item)
        scale = [1., 1., 1., 1e-3, 1e3][rng.integers(0, 5)]
        parts = C.quad_parts(rng, item.shape)
        m = rng.integers(0, 6)
        if m == 0:
            parts = arrayed(rng, parts, item.shape)
        else:
            x = C.point(rng, item.shape, scale)
            if m == 1 and hasattr(item.pen, "bound"):
                x = boundary(rng, item, x)
                if ref.offset is not None and rng.random() < 0.8:
                    x = x + ref.offset
            parts = (parts[0], x, parts[2] if m in (2, 3) else None, parts[3])
        case.note(parts=parts, **item.desc)
        q = C.quad_obj(parts)
        z = obj.proximal(q)
        certify(case, item, ref, parts, z, "prox")
        # same question again, and the returned point is a fixed point of the projection for sets
        z2 = obj.proximal(C.quad_obj(parts))
        case.same(z2, z, "prox:repeat")
        if rng.random() < 0.3 and isinstance(parts[1], np.ndarray) and parts[1].shape == tuple(item.shape):
            # the caller refills the array and asks again with the same request
            cen = np.array(parts[1], float)
            q3 = C.iq(parts[0], cen, parts[2], parts[3])
            case.same(obj.proximal(q3), z, "prox:repeat")
            cen[...] = C.point(rng, item.shape, scale)
            certify(case, item, ref, (parts[0], np.array(q3.center), parts[2], parts[3]), obj.proximal(q3), "prox-refilled")
        # raw *_prox entry points agree with proximal of the pure penalty
        if item.form in ("lagrange", "bound") and ref.offset is None and ref.coef == 0 and ref.lin is None and rng.random() < 0.6:
            L = float(np.exp(rng.uniform(-2, 2)))
            x = C.point(rng, item.shape, scale)
            if item.form == "lagrange":
                other = None if rng.random() < 0.5 else float(np.exp(rng.uniform(-2, 1)))
                w = obj.lagrange_prox(x.copy(), lipschitz=L) if other is None else obj.lagrange_prox(x.copy(), lipschitz=L, lagrange=other)
            else:
                other = None if rng.random() < 0.5 else float(np.exp(rng.uniform(-2, 1)))
                w = obj.bound_prox(x.copy()) if other is None else obj.bound_prox(x.copy(), bound=other)
            it2 = item if other is None else C.Item(item.kind, item.shape, item.form, other, item.build,
                                                    R.Pen(item.pen.g, **{item.form: other}), tol=item.tol)
            certify(case, it2, R.Shifted(it2.pen), (L, x, None, 0), w, "rawprox")
    return fn


def arrayed(rng, parts, shape):
    """the request must say which point it is about: an array center or linear term"""
    c, center, lin, const = parts
    if np.ndim(center) == 0 and (lin is None or np.ndim(lin) == 0):
        center = C.point(rng, shape)
    elif center is None or np.ndim(center) == 0:
        center = None if rng.random() < 0.5 else np.zeros(shape)
    return c, center, lin, const


def boundary(rng, item, x):
    """a point on, just inside or just outside the boundary of the set"""
    b = item.pen.bound
    g = item.pen.g
    if b is None:
        return x
    p = g.p(x)
    if p > 1e-8 and np.isfinite(p):
        return x * (b / p) * [1., 1 - 1e-9, 1 + 1e-9, 0.5][rng.integers(0, 4)]
    return x


def f_setters(case):
    """the parameter is changed after construction: the map must follow"""
    rng = case.rng
    kind = C.SEMINORMS[case.index % len(C.SEMINORMS)]
    form = ["lagrange", "bound"][(case.index // len(C.SEMINORMS)) % 2]
    if (kind, form) in C.NOPROX:
        form = {"lagrange": "bound", "bound": "lagrange"}[form]
    item = C.make(rng, kind, form)
    obj, ref = C.attach(rng, item)
    parts = arrayed(rng, C.quad_parts(rng, item.shape), item.shape)
    case.note(**item.desc)
    certify(case, item, ref, parts, obj.proximal(C.quad_obj(parts)), "prox")
    for _ in range(2):
        t = float(np.exp(rng.uniform(-2, 1)))
        setattr(obj, form, t)
        if rng.random() < 0.5:
            off = C.point(rng, item.shape)
            obj.offset = off.copy()
            ref.offset = off
        if rng.random() < 0.5:
            q = C.quad_parts(rng, item.shape)
            obj.quadratic = C.quad_obj(q)
            zz = lambda v: None if v is None or np.ndim(v) == 0 else v
            ref = R.Shifted(ref.h, ref.offset, q[0], zz(q[1]), zz(q[2]), q[3])
        item.pen = R.Pen(item.pen.g, **{form: t})
        ref.h = item.pen
        certify(case, item, ref, parts, obj.proximal(C.quad_obj(parts)), "prox-after-set")
        case.event("setter:" + form)


def f_layout(case):
    """memory layout and dtype of the centre are irrelevant"""
    rng = case.rng
    kind = C.ALL[case.index % len(C.ALL)]
    form = ["lagrange", "bound"][(case.index // len(C.ALL)) % 2]
    if (kind, form) in C.NOPROX:
        form = {"lagrange": "bound", "bound": "lagrange"}[form]
    item = C.make(rng, kind, form)
    obj, ref = C.attach(rng, item, mode=int(rng.integers(0, 2)))
    x = np.round(C.point(rng, item.shape) * 3)
    case.note(x=x, **item.desc)
    base = obj.proximal(C.iq(1.3, x.copy(), 0, 0))
    variants = dict(int=x.astype(int), fortran=np.asfortranarray(x), strided=np.repeat(x, 2, axis=0)[::2],
                    reversed=x[::-1].copy()[::-1])
    for name, v in variants.items():
        z = obj.proximal(C.iq(1.3, v, 0, 0))
        case.close(z, base, "layout:" + name, 1e-12)
    certify(case, item, ref, (1.3, x, None, 0), base, "prox")
    # an int valued attached shift
    off = rng.integers(-2, 3, item.shape)
    o2 = item.build(offset=off)
    z = o2.proximal(C.iq(1.3, x.copy(), 0, 0))
    certify(case, item, R.Shifted(item.pen, off.astype(float)), (1.3, x, None, 0), z, "prox-int-offset")


# -- mixed lasso ----------------------------------------------------------

def mixed_ref(structure, weights, lam):
    from regreg.atoms.mixed_lasso import L1_PENALTY, UNPENALIZED, POSITIVE_PART, NONNEGATIVE
    return dict(l1=structure == L1_PENALTY, un=structure == UNPENALIZED, pp=structure == POSITIVE_PART,
                nn=structure == NONNEGATIVE)


def gen_mixed(rng, n=None):
    from regreg.atoms.mixed_lasso import L1_PENALTY, UNPENALIZED, POSITIVE_PART, NONNEGATIVE
    n = n or C.dim(rng, 1, 14)
    codes = [L1_PENALTY, UNPENALIZED, POSITIVE_PART, NONNEGATIVE] + list(range(int(rng.integers(1, 4))))
    st = np.array([codes[i] for i in rng.integers(0, len(codes), n)])
    w = {}
    full = {}
    for g in np.unique(st):
        if g >= 0:
            full[g] = float(np.sqrt((st == g).sum()))
            if rng.random() < 0.5:
                w[g] = full[g] = float(np.round(rng.uniform(0, 2), 2))
    return st, w, full


def f_mixed(case):
    import regreg.api as rr
    rng = case.rng
    st, w, full = gen_mixed(rng)
    n = st.shape[0]
    lam = 0. if rng.random() < 0.15 else float(np.exp(rng.uniform(-2, 1)))
    off = C.point(rng, (n,)) if rng.random() < 0.4 else None
    dual = rng.random() < 0.4
    L = float(np.exp(rng.uniform(-1, 1)))
    x = C.point(rng, (n,))
    case.note(st=st, w=w, lam=lam, x=x, off=off)
    cls = rr.mixed_lasso_dual if dual else rr.mixed_lasso
    obj = cls(st.copy(), lam, weights=dict(w), offset=None if off is None else off.copy())
    z = obj.proximal(C.iq(L, x.copy(), 0, 0))
    first = z.copy()
    obj.proximal(C.iq(L, C.point(rng, (n,)), 0, 0))
    case.same(z, first, "mixed:answer-changed-by-next-call")
    z0 = z if off is None else z - off
    x0 = x if off is None else x - off
    if dual:           # projection onto lam * polar ball: z0 is a subgradient of lam * h at x0 - z0
        z0, r, L = x0 - z0, z0, 1.
    else:
        r = L * (x0 - z0)
    s = mixed_ref(st, w, lam)
    tol = 1e-8
    sc = L * (1 + np.abs(x0).max())
    l1, un, pp, nn = s["l1"], s["un"], s["pp"], s["nn"]
    case.check(np.isfinite(z).all(), "mixed:finite", z)
    if un.any():
        case.close(r[un], np.zeros(un.sum()), "mixed:unpenalised", tol, sc)
    if l1.any():
        case.leq(np.abs(r[l1]).max(), lam, "mixed:l1-dual", tol, sc)
        case.close(lam * np.abs(z0[l1]), r[l1] * z0[l1], "mixed:l1-gap", tol, sc * (1 + np.abs(x0).max()))
    if pp.any():       # lam * sum(x) subject to x >= 0
        case.leq(-z0[pp].min(), 0, "mixed:pp-infeasible", tol, sc)
        case.leq(r[pp].max(), lam, "mixed:pp-dual", tol, sc)
        case.close(lam * z0[pp], r[pp] * z0[pp], "mixed:pp-gap", tol, sc * (1 + np.abs(x0).max()))
    if nn.any():
        case.leq(-z0[nn].min(), 0, "mixed:nn-infeasible", tol, sc)
        case.leq(r[nn].max(), 0, "mixed:nn-dual", tol, sc)
        case.close(r[nn] * z0[nn], 0 * z0[nn], "mixed:nn-gap", tol, sc * (1 + np.abs(x0).max()))
    for g, wt in full.items():
        m = st == g
        case.leq(np.linalg.norm(r[m]), lam * wt, "mixed:group-dual", tol, sc)
        case.close(lam * wt * np.linalg.norm(z0[m]), (r[m] * z0[m]).sum(), "mixed:group-gap", tol, sc * (1 + np.abs(x0).max()))
    case.event("prox:mixed_lasso")


def f_subgradient(kinds):
    """the library's own optimality report at a proximal point: the two numbers it returns agree, and are what they are said to be"""
    def fn(case):
        rng = case.rng
        kind = kinds[case.index % len(kinds)]
        form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
        item = C.make(rng, kind, form, zero_param=False, zero_weights=False)
        obj, ref = C.attach(rng, item)
        x = C.point(rng, item.shape)
        case.note(x=x, **item.desc)
        a, b = obj.check_subgradient(obj, x.copy())
        U = item.build().proximal(C.iq(1., x.copy(), 0, 0))
        g = item.pen.g
        exp = g.p(U) if form == "lagrange" else g.polar().p(x - U)
        sc = np.abs(x).max() * max(1, gauge_scale(item)) * np.sqrt(x.size) + 1e-12
        case.close(b, exp, "subgradient:report", 1e-6, sc)
        # <x-U, U> / parameter
        sc2 = np.abs(x).sum() * (np.abs(U).max() + 1e-12) / item.param
        case.close(a, ((x - U) * U).sum() / item.param, "subgradient:product", 1e-6, sc2)
        case.close(a, exp, "subgradient:agree", 1e-5, sc + sc2)
        case.event("subgradient:" + kind)
    return fn


def f_direct(case):
    """the proximal maps that atoms offer directly (Lagrange, bound and cone form) agree with the general one, for whole numbers too"""
    rng = case.rng
    kind = C.ALL[case.index % len(C.ALL)]
    it = C.make(rng, kind)
    if not it.prox:
        raise Skip
    a = it.build()
    L = float(rng.choice([1., .5, 3.]))
    x = rng.integers(-5, 6, it.shape) * int(rng.choice([1, 3]))
    how = int(rng.integers(0, 3))
    if how == 1:
        x = np.asarray(x, float)
    elif how == 2:
        x = np.repeat(np.asarray(x, float), 2, axis=-1)[..., ::2]
    names = []
    if getattr(a, "lagrange", None) is not None and hasattr(a, "lagrange_prox"):
        names.append("lagrange_prox")
    if getattr(a, "bound", None) is not None and hasattr(a, "bound_prox"):
        names.append("bound_prox")
    if hasattr(a, "cone_prox"):
        names.append("cone_prox")
    case.note(kind=kind, form=it.form, desc=it.desc, x=x, L=L, how=how)
    for m in names:
        y = x.copy()
        if m == "lagrange_prox":
            got = a.lagrange_prox(x, lipschitz=L)
        else:
            got = getattr(a, m)(x)
        want = a.proximal(iq(L, np.array(x, float), 0, 0))
        case.close(np.asarray(got).reshape(it.shape), want, "direct:" + m, 1e-8, 1 + np.abs(x).max())
        case.same(x, y, "direct:argument-changed")
        case.event("direct:" + m)
    if not names:
        raise Skip


FAMILIES = [
    Family("subgradient", f_subgradient(C.SIMPLE + C.SVD), 180, 5000),
    Family("simple", fam(C.SIMPLE), 1120, 42000),
    Family("weighted", fam(C.WEIGHTED), 480, 20000),
    Family("slope", fam(C.SLOPE), 240, 8000),
    Family("group", fam(C.GROUP), 480, 20000),
    Family("sgl", fam(C.SGL), 240, 8000),
    Family("sgb", fam(C.SGB), 160, 8000),
    Family("block", fam(C.BLOCK), 480, 20000),
    Family("svd", fam(C.SVD), 160, 8000),
    Family("cones", fam(C.CONES), 1200, 40000),
    Family("other", fam(C.OTHER), 160, 6000),
    Family("setters", f_setters, 300, 9000),
    Family("layout", f_layout, 300, 9000),
    Family("mixed", f_mixed, 400, 12000),
    Family("direct", f_direct, 500, 12000, need=("direct:lagrange_prox", "direct:bound_prox", "direct:cone_prox")),
]
