"""P03 Fenchel relations: conjugates observed through their values, proximal maps and, when smooth, gradients."""
import numpy as np
import regreg.api as rr
from rv.core import Family, Skip
from rv import catalog as C, refpen as R, losses as S
from rv.props.p01 import gauge_scale
from rv.props.p02 import magnitude, margin, wscale, into_domain

iq = C.iq


def approx_tol(item):
    """the dual gauge of the sparse group penalties is found by the library's root finder"""
    if item.kind in C.SGL:
        return 1e-4
    if item.kind in C.SGB:
        return 1e-5
    return max(item.vtol, 1e-9)


def polar_item(item):
    """the item describing the (unshifted) conjugate, for domain and tolerance purposes"""
    pen = item.pen.conj()
    form = {"lagrange": "bound", "bound": "lagrange"}.get(item.form, item.form)
    return C.Item(item.kind, item.shape, form, item.param, None, pen, tol=item.tol, vtol=approx_tol(item), desc=item.desc)


def conj_points(rng, item, n=3):
    """points around the domain of the unshifted conjugate: some inside, some outside"""
    out = []
    pen = item.pen.conj()
    for k in range(n):
        u = C.point(rng, item.shape)
        if isinstance(pen, R.Pen):
            if k:
                u = into_domain(pen.g, u)
                if pen.bound is not None:
                    p = pen.g.p(u)
                    if p > pen.bound and p > 0:
                        u = u * (pen.bound / p) * [1., 0.7][rng.integers(0, 2)]
        out.append(u)
    return out


def f_value(kinds):
    def fn(case):
        rng = case.rng
        kind = kinds[case.index % len(kinds)]
        form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
        item = C.make(rng, kind, form, zero_param=False)
        obj, ref = gen_shifted(rng, item)
        case.note(**item.desc)
        conj = obj.conjugate
        pit = polar_item(item)
        lin = 0. if ref.lin is None else ref.lin
        off = np.zeros(item.shape) if ref.offset is None else ref.offset

        def expected(u):
            w = u - lin
            return pit.pen.value(w), (off * w).sum() - ref.const, pit.pen.outside(w)

        for w in conj_points(rng, item):
            u = w + lin
            fin, extra, out = expected(u)
            scale = abs(fin) + abs(extra) + np.abs(off * w).sum() + abs(ref.const) + np.abs(u).max()
            zero_inf = pit.form == "lagrange" and pit.param == 0 and out > 0
            hard = getattr(pit.pen, "bound", 0) is None and out > 0
            if not hard:
                case.close(conj.nonsmooth_objective(u.copy()), fin + extra, "conj:value", 10 * pit.vtol, scale, "u=%s" % u)
            v1 = conj.nonsmooth_objective(u.copy(), check_feasibility=True)
            m = margin(pit, w) * (1. + 10 * np.abs(u).max() / (1e-12 + np.abs(w).max()) * 1e-3)
            if zero_inf:
                continue
            if out > m:
                case.check(np.isinf(v1) and v1 > 0, "conj:outside", "%r at u outside by %.3g: %s" % (v1, out, u))
                case.event("conj:outside-verdict")
            elif out <= 1e-9 * (1e-300 + np.abs(w).max()) and ref.lin is None:
                case.close(v1, fin + extra, "conj:inside", 10 * pit.vtol, scale)
                case.event("conj:inside-verdict")
            # Fenchel-Young between two library values
            if out == 0 or not hard:
                x = C.point(rng, item.shape)
                hx = obj.nonsmooth_objective(x.copy(), check_feasibility=True)
                if np.isfinite(hx) and np.isfinite(v1):
                    s = abs(hx) + magnitude(ref, x) + scale + np.abs(x * u).sum()
                    case.leq((x * u).sum(), hx + v1, "conj:fenchel-young", 1e-5, s, "x=%s u=%s" % (x, u))
        # biconjugate
        bi = conj.conjugate
        for k in range(2):
            x = C.point(rng, item.shape)
            if isinstance(item.pen, R.Pen) and k:
                x = into_domain(item.pen.g, x) + off
            z = x - off
            out = item.pen.outside(z)
            if item.form == "lagrange" and out > 0:
                continue
            exp = item.pen.value(z) + ref.quad(x)
            case.close(bi.nonsmooth_objective(x.copy()), exp, "conj:biconjugate", 10 * approx_tol(item), abs(exp) + magnitude(ref, x) + np.abs(off).max())
            v = bi.nonsmooth_objective(x.copy(), check_feasibility=True)
            if out > margin(item, z) * (1 + np.abs(off).max()):
                case.check(np.isinf(v), "conj:biconjugate-outside", "%r" % v)
        case.event("conj:" + kind + ":" + item.form)
    return fn


def gen_shifted(rng, item):
    """shift and/or a linear + constant term"""
    mode = int(rng.integers(0, 4))
    off = C.point(rng, item.shape) if mode in (1, 3) else None
    quad, q = None, (0., None, None, 0.)
    if mode in (2, 3):
        lin = C.point(rng, item.shape) if rng.random() < 0.8 else None
        const = float(np.round(rng.standard_normal(), 2))
        q = (0., None if rng.random() < 0.5 else 0, lin, const)
        quad = C.quad_obj(q)
    obj = item.build(offset=None if off is None else off.copy(), quadratic=quad)
    item.desc.update(offset=off, quad=q)
    return obj, R.Shifted(item.pen, off, 0., None, q[2], float(q[3]))


def prox_ok(item):
    return (item.kind, item.form) not in C.NOPROX


def conj_prox_ok(kind, form):
    """is the proximal map of the conjugate offered?  P01's exclusions, mirrored"""
    mirror = {"slope": "slope_conjugate", "slope_conjugate": "slope", "sparse_group_lasso": "sparse_group_lasso_dual",
              "sparse_group_lasso_dual": "sparse_group_lasso", "sparse_group_block": "sparse_group_block_dual",
              "sparse_group_block_dual": "sparse_group_block", "block_sum": "block_max", "block_max": "block_sum"}
    if kind not in mirror:
        return True
    f2 = {"lagrange": "bound", "bound": "lagrange"}[form]
    return (mirror[kind], f2) not in C.NOPROX


def f_moreau(kinds):
    def fn(case):
        rng = case.rng
        kind = kinds[case.index % len(kinds)]
        form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
        if (kind, form) in C.NOPROX:
            form = {"lagrange": "bound", "bound": "lagrange"}[form]
        item = C.make(rng, kind, form, zero_param=False)
        if isinstance(item.pen, R.Pen) and not conj_prox_ok(item.kind, item.form):
            raise Skip("no proximal map for the conjugate form")
        obj, ref = gen_shifted(rng, item)
        L = float(np.exp(rng.uniform(-2, 2)))
        x = C.point(rng, item.shape)
        case.note(L=L, x=x, **item.desc)
        z = obj.proximal(iq(L, x.copy(), 0, 0))
        conj = obj.conjugate
        u = conj.proximal(iq(1. / L, L * x, 0, 0))
        sc = np.abs(x).max() + (0 if ref.offset is None else np.abs(ref.offset).max()) + (0 if ref.lin is None else np.abs(ref.lin).max() / L)
        case.close(z + u / L, x, "moreau:split", max(1e-8, item.tol) * 10, sc * wscale(item) ** 0.5, "z=%s u=%s" % (z, u))
        # equality in Fenchel-Young there
        r = L * (x - z)
        hz = obj.nonsmooth_objective(z.copy())
        cr = conj.nonsmooth_objective(r.copy())
        s = abs(hz) + abs(cr) + magnitude(ref, z) + np.abs(r).sum() * (sc + np.abs(z).max())
        hr = r if ref.lin is None else r - ref.lin
        case.close(hz + cr, (z * r).sum(), "moreau:fenchel-equality", max(1e-7, 10 * approx_tol(item)), s * gauge_scale(item),
                   "z=%s r=%s" % (z, r))
        # both answers are feasible for their own function
        case.close(obj.nonsmooth_objective(z.copy(), check_feasibility=True), hz, "moreau:feasible", 1e-9, abs(hz))
        if ref.lin is None:
            case.check(np.isfinite(conj.nonsmooth_objective(u.copy(), check_feasibility=True)), "moreau:dual-feasible", u)
        case.event("moreau:" + kind + ":" + form)
    return fn


def f_smooth(kinds):
    """strictly convex attached quadratic: the conjugate is smooth, value = max, gradient = argmax"""
    def fn(case):
        rng = case.rng
        kind = kinds[case.index % len(kinds)]
        form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
        if (kind, form) in C.NOPROX:
            form = {"lagrange": "bound", "bound": "lagrange"}[form]
        item = C.make(rng, kind, form)
        off = C.point(rng, item.shape) if rng.random() < 0.5 else None
        q = C.quad_parts(rng, item.shape)
        obj = item.build(offset=None if off is None else off.copy(), quadratic=C.quad_obj(q))
        z = lambda v: None if v is None or np.ndim(v) == 0 else v
        ref = R.Shifted(item.pen, off, float(q[0]), z(q[1]), z(q[2]), float(q[3]))
        case.note(off=off, q=q, **item.desc)
        conj = obj.conjugate
        for _ in range(2):
            u = C.point(rng, item.shape)
            smooth_check(case, item, ref, conj, u, "smoothconj")
        # Fenchel-Young with arbitrary primal points
        x = C.point(rng, item.shape)
        hx = obj.nonsmooth_objective(x.copy(), check_feasibility=True)
        v = conj.smooth_objective(u.copy(), "func")
        if np.isfinite(hx):
            case.leq((x * u).sum(), hx + v, "smoothconj:fenchel-young", 1e-7, abs(hx) + abs(v) + magnitude(ref, x) + np.abs(x * u).sum())
        # back again: the conjugate of the smooth conjugate is the penalty with its quadratic
        bi = conj.conjugate
        b = bi.nonsmooth_objective(x.copy())
        case.close(b, obj.nonsmooth_objective(x.copy()), "smoothconj:biconjugate", 1e-8, magnitude(ref, x))
        case.event("smoothconj:" + kind)
    return fn


def smooth_check(case, item, ref, conj, u, key):
    from rv.props.p01 import certify
    v, g = conj.smooth_objective(u.copy(), "both")
    case.close(conj.smooth_objective(u.copy(), "func"), v, key + ":modes", 1e-12, abs(v))
    case.close(conj.smooth_objective(u.copy(), "grad"), g, key + ":modes", 1e-12)
    # g maximises <u,.> - h - q: certificate of optimality with the request being the linear term -u
    certify(case, item, ref, (0., None, -u, 0.), g, key)
    zz = ref._x(g)
    exp = (u * g).sum() - item.pen.value(zz) - ref.quad(g)
    case.close(v, exp, key + ":value", max(1e-8, 10 * item.vtol), abs(exp) + magnitude(ref, g) + np.abs(u * g).sum(), "u=%s" % u)


def f_again(kinds):
    """a quadratic put on a smooth conjugate, which is then conjugated (or smoothed) once more"""
    def fn(case):
        from rv.props.p01 import certify
        rng = case.rng
        kind = kinds[case.index % len(kinds)]
        form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
        if (kind, form) in C.NOPROX:
            form = {"lagrange": "bound", "bound": "lagrange"}[form]
        item = C.make(rng, kind, form)
        off = C.point(rng, item.shape) if rng.random() < 0.5 else None
        q = C.quad_parts(rng, item.shape)
        z = lambda v: None if v is None or np.ndim(v) == 0 else v
        obj = item.build(offset=None if off is None else off.copy(), quadratic=C.quad_obj(q))
        ref = R.Shifted(item.pen, off, float(q[0]), z(q[1]), z(q[2]), float(q[3]))
        style = case.index % 3
        r, c, lin, const = C.quad_parts(rng, item.shape)
        r, c, lin, const = float(r), z(c), z(lin), float(const)
        if style == 1:
            r, c = 0., None
        case.note(off=off, q=q, style=style, extra=(r, c, lin, const), **item.desc)
        conj = obj.conjugate
        extra = iq(r, 0 if c is None else c, 0 if lin is None else lin, const)
        zero = np.zeros(item.shape)
        key = "again"
        if style == 2:                  # sup <u,x> - h - quad - extra
            sm = conj.smoothed(extra)
            both = R.Shifted(item.pen, off, ref.coef + r, None, None, 0.)
            g0 = (zero if ref.lin is None else ref.lin) - ref.coef * (zero if ref.center is None else ref.center)
            g1 = (zero if lin is None else lin) - r * (zero if c is None else c)
            both.lin = g0 + g1
            both.const = ref.const + const + sum(k / 2 * (m ** 2).sum() for k, m in ((ref.coef, ref.center), (r, c)) if m is not None)
            smooth_check(case, item, both, sm, C.point(rng, item.shape), "again-smoothed")
            case.event("again:smoothed")
            return
        conj.quadratic = conj.quadratic + extra if rng.random() < 0.5 else extra
        gam = (zero if lin is None else lin) - r * (zero if c is None else c)
        a = const + (0. if c is None else r / 2 * (c ** 2).sum())
        bi = conj.conjugate
        for _ in range(2):
            v = C.point(rng, item.shape)
            if r == 0:                  # the penalty with its quadratic, translated
                exp = item.pen.value(ref._x(v - gam)) + ref.quad(v - gam) - a
                scale = magnitude(ref, v - gam) + abs(a) + abs(exp) + ref.coef * (v ** 2 + gam ** 2).sum() + np.abs(gam).max() * (0 if ref.lin is None else np.abs(ref.lin).sum())
                if item.pen.outside(ref._x(v - gam)) <= 0:
                    case.close(bi.nonsmooth_objective(v.copy()), exp, key + ":translated", 1e-8, scale)
                p = bi.proximal(iq(1., v.copy(), 0, 0))
                certify(case, item, ref, (1., v - gam, None, 0.), p - gam, key + ":translated-prox")
            else:                       # the envelope
                f, g = bi.smooth_objective(v.copy(), "both")
                case.close(bi.smooth_objective(v.copy(), "func"), f, key + ":modes", 1e-12, abs(f))
                case.close(bi.smooth_objective(v.copy(), "grad"), g, key + ":modes", 1e-12, np.abs(g).max())
                x = v - gam - r * g
                sc = np.abs(v).max() + np.abs(gam).max()
                if r < 1e-3 or r > 1e3:
                    case.event("again:extreme")
                certify(case, item, ref, (1. / r, v - gam, None, 0.), x, key + ":envelope")
                exp = ((x + gam - v) ** 2).sum() / (2 * r) + item.pen.value(ref._x(x)) + ref.quad(x) - a
                case.close(f, exp, key + ":value", max(1e-7, 10 * item.vtol), abs(exp) + abs(a) + magnitude(ref, x) + ((np.abs(v) + np.abs(gam)) ** 2).sum() / r)
        case.event("again:" + ("translated" if r == 0 else "envelope"))
    return fn


def f_affine(case):
    """the dual pair of a penalty behind a linear map"""
    rng = case.rng
    kinds = ["l1norm", "supnorm", "l2norm", "positive_part", "constrained_max", "constrained_positive_part", "max_positive_part"]
    kind = kinds[case.index % len(kinds)]
    form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
    n, p = C.dim(rng, 1, 8), C.dim(rng, 1, 8)
    D = np.round(rng.standard_normal((n, p)), 3)
    b = C.point(rng, (n,)) if rng.random() < 0.7 else None
    t = float(np.exp(rng.uniform(-1, 1)))
    case.note(kind=kind, form=form, D=D, b=b, t=t)
    obj = getattr(rr, kind).linear(D, offset=b, **{form: t}) if rng.random() < .5 or b is None else \
        getattr(rr, kind).affine(D, b, **{form: t})
    L, conj = obj.dual
    pen = R.Pen(C.GAUGES[kind][0], **{form: t})
    for _ in range(3):
        u = C.point(rng, (n,))
        cp = pen.conj()
        u = into_domain(cp.g, u)
        if cp.bound is not None and cp.g.p(u) > cp.bound:
            u = u * cp.bound / cp.g.p(u)
        # h(Dx+b) = sup_u <u, Dx> - conj(u), conj(u) = h*(u) - <b,u>
        exp = cp.value(u) - (0. if b is None else (b * u).sum())
        case.close(conj.nonsmooth_objective(u.copy()), exp, "affine:conj", 1e-9, abs(exp) + np.abs(u).sum() * (0 if b is None else np.abs(b).max()))
        x = C.point(rng, (p,))
        case.close((L.linear_map(x) * u).sum(), (x * L.adjoint_map(u)).sum(), "affine:adjoint", 1e-9, np.abs(x).sum() * np.abs(D).max() * np.abs(u).sum())
        hx = obj.nonsmooth_objective(x.copy(), check_feasibility=True)
        if np.isfinite(hx):
            case.leq((D.dot(x) * u).sum(), hx + conj.nonsmooth_objective(u.copy()), "affine:fenchel-young", 1e-6, abs(hx) + abs(exp) + np.abs(D.dot(x) * u).sum())
    case.event("conj:affine")


def f_setters(case):
    """the conjugate asked for after a change of parameter is that of the changed penalty"""
    rng = case.rng
    kind = C.SEMINORMS[case.index % len(C.SEMINORMS)]
    form = ["lagrange", "bound"][(case.index // len(C.SEMINORMS)) % 2]
    item = C.make(rng, kind, form, zero_param=False)
    obj, ref = gen_shifted(rng, item)
    case.note(**item.desc)
    old = obj.conjugate
    for _ in range(2):
        t = float(np.exp(rng.uniform(-1, 1)))
        setattr(obj, form, t)
        item.pen = R.Pen(item.pen.g, **{form: t})
        item.param = t
        pit = polar_item(item)
        conj = obj.conjugate
        lin = 0. if ref.lin is None else ref.lin
        off = np.zeros(item.shape) if ref.offset is None else ref.offset
        for w in conj_points(rng, item):
            out = pit.pen.outside(w)
            if pit.form == "lagrange" and out > 0:
                continue
            exp = pit.pen.value(w) + (off * w).sum() - ref.const
            case.close(conj.nonsmooth_objective(w + lin), exp, "conj-after-set:value", 10 * pit.vtol,
                       abs(exp) + np.abs(off * w).sum() + np.abs(w + lin).max() + abs(ref.const))
            v = conj.nonsmooth_objective(w + lin, check_feasibility=True)
            if out > margin(pit, w) * (1. + np.abs(w + lin).max()):
                case.check(np.isinf(v), "conj-after-set:outside", "%r" % v)
    case.event("conj:setter")


def f_solver(kinds):
    """rr.conjugate: the conjugate of a penalty found by its proximal map, optionally reflected, with the strict convexity in a
    second quadratic that belongs to the caller"""
    def fn(case):
        rng = case.rng
        kind = kinds[case.index % len(kinds)]
        form = ["lagrange", "bound"][(case.index // len(kinds)) % 2]
        if (kind, form) in C.NOPROX:
            form = {"lagrange": "bound", "bound": "lagrange"}[form]
        item = C.make(rng, kind, form)
        off = C.point(rng, item.shape) if rng.random() < 0.5 else None
        q1 = C.quad_parts(rng, item.shape) if rng.random() < 0.5 else None
        q2 = C.quad_parts(rng, item.shape)
        negate = bool(rng.integers(0, 2))
        parts = [tuple(q) for q in (q1, q2) if q is not None]
        z = lambda v: None if v is None or np.ndim(v) == 0 else v
        case.note(off=off, q1=q1, q2=q2, negate=negate, **item.desc)
        obj = item.build(offset=None if off is None else off.copy(), quadratic=None if q1 is None else C.quad_obj(q1))
        given = C.quad_obj(q2)
        before = given.objective(np.ones(item.shape), "func")
        conj = rr.conjugate(obj, given, negate=negate)
        # the two quadratics as one: coefficient, no center, linear term, constant
        zero = np.zeros(item.shape)
        coef = sum(float(q[0]) for q in parts)
        lin = sum(((zero if z(q[2]) is None else z(q[2])) - float(q[0]) * (zero if z(q[1]) is None else z(q[1])) for q in parts), zero)
        const = sum(float(q[3]) + (0. if z(q[1]) is None else float(q[0]) / 2 * (z(q[1]) ** 2).sum()) for q in parts)
        both = R.Shifted(item.pen, off, coef, None, lin, const)
        sgn = -1. if negate else 1.

        class Reflected(object):
            def smooth_objective(self, u, mode):
                r = conj.smooth_objective(sgn * u, mode)
                return (r[0], sgn * r[1]) if mode == "both" else sgn * r if mode == "grad" else r
        for _ in range(2):
            smooth_check(case, item, both, Reflected(), C.point(rng, item.shape), "solver")
        case.close(given.objective(np.ones(item.shape), "func"), before, "solver:quadratic-restored", 1e-14, abs(before))
        case.event("solver:" + ("reflected" if negate else "plain"))
    return fn


def f_quadform(case):
    """quadratic losses: closed-form conjugates, those found by a solver, and linear systems by factorisation"""
    rng = case.rng
    n = C.dim(rng, 1, 8)
    style = case.index % 4
    A = np.round(rng.standard_normal((n + 2, n)), 2)
    Q = A.T.dot(A) + 0.1 * np.identity(n)
    Q = Q * float(np.exp(rng.uniform(-2, 2)))
    band = style == 3
    if band:
        k = int(rng.integers(0, n))
        Q = np.where(np.abs(np.subtract.outer(np.arange(n), np.arange(n))) <= k, Q, 0.)
        Q += np.identity(n) * np.abs(Q).sum()
    if style == 0:
        Q = np.diag(np.diag(Q))
    case.note(style=style, Q=Q)
    u = C.point(rng, (n,))
    if band:
        ab = np.array([np.concatenate([np.zeros(k - i), np.diagonal(Q, k - i)]) for i in range(k + 1)])
        F = rr.cholesky(ab, banded=True)
    else:
        F = rr.cholesky(Q.copy())
    sol = np.linalg.solve(Q, u)
    for name in ("linear_map", "affine_map", "adjoint_map"):
        case.close(getattr(F, name)(u.copy()), sol, "cholesky:" + name, 1e-8, np.abs(sol).max() + np.abs(u).max() / np.linalg.eigvalsh(Q)[0])
    T = rr.astransform(F)
    case.check(tuple(T.input_shape) == (n,) and tuple(T.output_shape) == (n,), "cholesky:shape", (T.input_shape, T.output_shape))
    case.event("quadform:cholesky" + (":banded" if band else ""))
    coef = float(np.round(np.exp(rng.uniform(-1.5, 1.5)), 3))
    off = C.point(rng, (n,)) if rng.random() < .6 else None
    q = C.quad_parts(rng, (n,)) if rng.random() < .6 else None
    z = lambda v: np.zeros(n) if v is None or np.ndim(v) == 0 else v
    loss = rr.quadratic_loss((n,), Q=np.diag(Q).copy() if style == 0 else Q.copy(), Qdiag=style == 0, coef=coef,
                             offset=None if off is None else off.copy(), quadratic=None if q is None else C.quad_obj(q))
    case.note(coef=coef, off=off, q=q, u=u)
    o = z(off)
    k, c, l, a = (0., z(None), z(None), 0.) if q is None else (float(q[0]), z(q[1]), z(q[2]), float(q[3]))
    f = lambda x: coef / 2 * (x - o).dot(Q.dot(x - o)) + k / 2 * ((x - c) ** 2).sum() + l.dot(x) + a
    H = coef * Q + k * np.identity(n)
    rhs = lambda u: u + coef * Q.dot(o) + k * c - l
    mag = lambda x: coef / 2 * np.abs(Q).sum() * (np.abs(x).max() + np.abs(o).max()) ** 2 + k * ((np.abs(x) + np.abs(c)) ** 2).sum() + np.abs(l * x).sum() + abs(a)
    how = ["closed", "solver"][(case.index // 4) % 2]
    iters = np.linalg.cond(H)
    if how == "solver" and (iters > 1e4 or k == 0):     # the solver needs a strictly convex attached quadratic
        how = "closed"
    conj = loss.get_conjugate(factor=True) if how == "closed" else rr.conjugate(loss, None, tol=1e-14, min_its=200)
    loose = 1e-8 if how == "closed" else 1e-4
    for _ in range(3):
        u = C.point(rng, (n,))
        x = np.linalg.solve(H, rhs(u))
        exp = u.dot(x) - f(x)
        sc = mag(x) + np.abs(u * x).sum()
        case.close(conj.smooth_objective(u.copy(), "grad"), x, "quadform:argmax:" + how, loose, (np.abs(x).max() + np.abs(rhs(u)).max() / np.linalg.eigvalsh(H)[0]))
        v = conj.objective(u.copy()) if how == "closed" else conj.smooth_objective(u.copy(), "func")
        case.close(v, exp, "quadform:value:" + how, loose, sc)
        if how == "closed":
            y = C.point(rng, (n,))
            case.close(conj.get_conjugate(factor=True).objective(y.copy()), f(y), "quadform:biconjugate", 1e-7,
                       (mag(y) + sc + mag(x)) * min(1e3, iters))
            case.leq(u.dot(y), loss.objective(y.copy()) + v, "quadform:fenchel-young", 1e-9, mag(y) + sc + np.abs(u * y).sum())
    case.event("quadform:" + how + (":diag" if style == 0 else ""))


def f_losses(case):
    """the conjugate of a likelihood with strict convexity added, found by the solver: stationarity and value at the answer"""
    rng = case.rng
    fam = S.ALL[case.index % len(S.ALL)]
    n = C.dim(rng, 2, 8)
    s = S.Spec(rng, fam, n)
    ref = s.ref()
    const = s.lib().objective(np.zeros(n)) - ref.val(np.zeros(n))     # P05's convention: values up to a constant
    k = float(np.round(np.exp(rng.uniform(-1, 1.5)), 3))
    lin = C.point(rng, (n,)) if rng.random() < .5 else None
    negate = bool(rng.integers(0, 2))
    case.note(k=k, lin=lin, negate=negate, **s.desc())
    conj = rr.conjugate(s.lib(), iq(k, 0, 0 if lin is None else lin.copy(), 0), negate=negate, tol=1e-14, min_its=100)
    for _ in range(2):
        u = np.clip(C.point(rng, (n,)), -20, 20)
        v, x = conj.smooth_objective(-u if negate else u, "both")
        x = -x if negate else x
        if np.abs(x).max() > 60:
            raise Skip("far out")
        fx, gx = ref.val(x), ref.grad(x)
        res = gx + k * x + (0 if lin is None else lin) - u
        case.leq(np.abs(res).max(), 0., "losses:argmax", 1e-4, ref.gmag(x).max() + k * np.abs(x).max() + np.abs(u).max() + 1)
        exp = u.dot(x) - fx - const - k / 2 * (x ** 2).sum() - (0. if lin is None else lin.dot(x))
        case.close(v, exp, "losses:value", 1e-8, abs(const) + ref.mag(x) + np.abs(u * x).sum() + k * (x ** 2).sum() + (0. if lin is None else np.abs(lin * x).sum()))
    case.event("losses:" + fam)


def f_separable(case):
    """a penalty made of pieces on disjoint coordinates, with a quadratic of its own: its value, proximal map, conjugate and
    smoothed version are those of the pieces (which the other families certify), coordinates in no piece are free"""
    rng = case.rng
    items = []
    for _ in range(int(rng.integers(1, 4))):
        kind = C.SEMINORMS[rng.integers(0, len(C.SEMINORMS))]
        form = ["lagrange", "bound"][rng.integers(0, 2)]
        if (kind, form) in C.NOPROX:
            form = {"lagrange": "bound", "bound": "lagrange"}[form]
        it = C.make(rng, kind, form, zero_param=False)
        if conj_prox_ok(it.kind, it.form):
            items.append(it)
    if not items:
        raise Skip("no pieces")
    sizes = [int(np.prod(it.shape)) for it in items]
    n = sum(sizes) + int(rng.integers(0, 3))
    perm = rng.permutation(n) if rng.random() < .7 else np.arange(n)
    cuts = np.cumsum([0] + sizes)
    groups = [perm[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
    free = perm[cuts[-1]:]
    shapes = [it.shape if len(it.shape) > 1 or rng.random() < .3 else None for it in items]
    style = ["none", "linear", "strict"][case.index % 3]
    q = C.quad_parts(rng, (n,))
    z = lambda v: np.zeros(n) if v is None or np.ndim(v) == 0 else v
    k, c, l, a = float(q[0]), z(q[1]), z(q[2]), float(q[3])
    if style != "strict":
        k = 0.
    if style == "none":
        l, a = np.zeros(n), 0.
    case.note(items=[it.desc for it in items], groups=groups, n=n, own=(k, c, l, a), style=style)
    offs, lins = [C.point(rng, it.shape) if rng.random() < .4 else None for it in items], [C.point(rng, it.shape) if rng.random() < .3 else None for it in items]

    def pieces(own):
        out = []
        for it, g, o, v in zip(items, groups, offs, lins):
            sh = lambda w: w[g].reshape(it.shape)
            v = np.zeros(it.shape) if v is None else v
            quad = iq(k, sh(c), v + sh(l), 0) if own else iq(0, 0, v, 0)
            out.append(it.build(offset=None if o is None else o.copy(), quadratic=quad))
        return out
    h = rr.separable((n,), pieces(False), groups, shapes=shapes)
    if style != "none":
        h.quadratic = iq(k, c.copy(), l.copy(), a)
    ref = pieces(True)
    cuts_of = lambda w: [w[g].reshape(it.shape) for g, it in zip(groups, items)]

    def join(parts, rest):
        out = np.zeros(n)
        for g, v in zip(groups, parts):
            out[g] = np.asarray(v).reshape(-1)
        out[free] = rest[free]
        return out
    scale = lambda *vs: sum(np.abs(v).max() for v in vs) + 1e-12
    x = C.point(rng, (n,))
    exp = sum(r.nonsmooth_objective(v.copy()) for r, v in zip(ref, cuts_of(x))) + a + (k / 2 * (x - c) ** 2 + l * x)[free].sum()
    case.close(h.nonsmooth_objective(x.copy()), exp, "sep:value", 1e-10, abs(exp) + abs(a) + k * ((np.abs(x) + np.abs(c)) ** 2).sum() + np.abs(l * x).sum() + 1)
    L = float(np.exp(rng.uniform(-2, 2)))
    prox = h.proximal(iq(L, x.copy(), 0, 0))
    parts = [r.proximal(iq(L, v.copy(), 0, 0)) for r, v in zip(ref, cuts_of(x))]
    exp = join(parts, (L * x + k * c - l) / (L + k))
    case.close(prox, exp, "sep:proximal", 1e-7, scale(x, c) + np.abs(l).max() / (L + k))
    conj = h.conjugate
    u = C.point(rng, (n,)) + l
    if style == "strict":
        for _ in range(2):
            both = [r.conjugate.smooth_objective(v.copy(), "both") for r, v in zip(ref, cuts_of(u))]
            best = (u - l + k * c) / k
            g = join([b[1] for b in both], best)
            exp = sum(b[0] for b in both) + (u * best - k / 2 * (best - c) ** 2 - l * best)[free].sum() - a
            v, got = conj.smooth_objective(u.copy(), "both")
            sc = scale(u, l) / k + np.abs(c).max()
            case.close(got, g, "sep:argmax", 1e-7, sc)
            case.close(v, exp, "sep:smooth-conjugate", 1e-7, abs(exp) + abs(a) + np.abs(u * g).sum() + n * k * sc ** 2 + np.abs(l * g).sum())
            u = C.point(rng, (n,))
    else:
        for on in (True, False):
            w = u.copy()
            if on:
                w[free] = l[free]
            exp = sum(r.conjugate.nonsmooth_objective(v.copy()) for r, v in zip(ref, cuts_of(w))) - a
            if np.isfinite(exp):
                case.close(conj.nonsmooth_objective(w.copy()), exp, "sep:conjugate", 1e-7, abs(exp) + abs(a) + np.abs(w).sum() * scale(w, l))
            if not on and np.abs(w - l)[free].max(initial=0.) > 1e-3 * scale(w):
                val = conj.nonsmooth_objective(w.copy(), check_feasibility=True)
                case.check(np.isinf(val) and val > 0, "sep:free-coordinates", val)
                case.event("sep:free")
        up = conj.proximal(iq(1. / L, L * x, 0, 0))
        case.close(prox + up / L, x, "sep:moreau", 1e-6, scale(x) + np.abs(l).max() / L)
    if style != "strict":
        eps = float(np.exp(rng.uniform(-2, 1)))
        sm = h.smoothed(iq(eps, 0, 0, 0))
        v, g = sm.smooth_objective(x.copy(), "both")
        both = [r.smoothed(iq(eps, 0, 0, 0)).smooth_objective(w.copy(), "both") for r, w in zip(ref, cuts_of(x))]
        exp = sum(b[0] for b in both) + (x * l - eps / 2 * l ** 2)[free].sum() + a
        case.close(g, join([b[1] for b in both], l), "sep:smoothed-gradient", 1e-7, scale(x, l) / eps + scale(l))
        case.close(v, exp, "sep:smoothed", 1e-7, abs(exp) + abs(a) + np.abs(x).sum() * (scale(x, l) / eps + scale(l)))
    case.event("sep:" + style + (":free" if len(free) else ""))


FAMILIES = [
    Family("value", f_value(C.SEMINORMS), 1040, 40000),
    Family("value_cones", f_value(C.CONES + C.OTHER), 440, 16000),
    Family("moreau", f_moreau(C.SEMINORMS), 1040, 40000),
    Family("moreau_cones", f_moreau(C.CONES + C.OTHER), 440, 16000),
    Family("smooth", f_smooth(C.SEMINORMS), 780, 26000),
    Family("smooth_cones", f_smooth(C.CONES + C.OTHER), 330, 11000),
    Family("again", f_again(C.SEMINORMS + C.CONES), 390, 13000),
    Family("solver", f_solver(C.SEMINORMS + C.CONES), 390, 13000),
    Family("quadform", f_quadform, 240, 8000),
    Family("losses", f_losses, 140, 5000),
    Family("separable", f_separable, 240, 8000),
    Family("affine", f_affine, 280, 9000),
    Family("setters", f_setters, 260, 9000),
]
