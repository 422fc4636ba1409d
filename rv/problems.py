"""Generators of convex problems with an independent certified optimum."""
import numpy as np
import regreg.api as rr
from regreg.smooth import affine_smooth
from regreg.identity_quadratic import identity_quadratic as iq
from . import catalog as C, losses as S, refloss as L, refpen as R
from .core import Skip

NOPROX1 = [k for k in C.SEMINORMS if (k, "lagrange") in C.NOPROX]


def arr_parts(rng, shape, coef):
    """quadratic given to solvers: arrays or nothing"""
    m = rng.integers(0, 3)
    center = None if m == 0 else C.point(rng, shape, 0.5) if m == 1 else np.zeros(shape)
    lin = None if rng.random() < 0.4 else C.point(rng, shape, 0.5)
    return float(coef), center, lin, float(np.round(rng.standard_normal(), 2)) if rng.random() < 0.5 else 0


def lib_quad(parts):
    if parts is None:
        return None
    c, center, lin, const = parts
    return iq(c, None if center is None else center.copy(), None if lin is None else lin.copy(), const)


def ref_quad(parts):
    if parts is None:
        return R.Shifted(None)
    return R.Shifted(None, None, parts[0], parts[1], parts[2], parts[3])


class Loss(object):
    """build() -> fresh library atom without quadratic; F(x) -> value, gradient (value up to a constant)"""
    def __init__(self, name, shape, build, val, grad, scale=1., design=None, desc=None):
        self.name, self.shape, self.build, self.val, self.grad = name, tuple(shape), build, val, grad
        self.design, self.desc = design, desc or {}


def glm_loss(rng, fam, n, p, A=None):
    if A is None:
        X, A, kind = S.design(rng, n, p, ("dense", "F", "csr", "int"))
    else:
        X, kind = A.copy(), "dense"
    if fam in ("poisson", "cloglog"):
        A = A / max(1., np.abs(A).sum(1).max() / 3.)
        X = A.copy()
        kind = "dense"
    po = S.offs(rng, p, .3)
    o = 0. if po is None else po
    if fam == "cox":
        from .props import p19
        t, d = p19.data(rng, n)
        w, c, so = S.weights(rng, n), S.coef(rng), S.offs(rng, n)
        ref = L.Cox(t, d, c, so, w)
        cp = lambda a: None if a is None else np.array(a)
        build = lambda: rr.glm.cox(X, t.copy(), d.copy(), coef=c, offset=cp(po), saturated_offset=cp(so), case_weights=cp(w))
        desc = dict(t=t, d=d, w=w, coef=c, so=so)
    else:
        s = S.Spec(rng, fam, n)
        if s.w is not None and np.max(s.w) > 20:
            s.w = np.minimum(s.w, 20)
        ref = s.ref()
        build = lambda: s.glm(X.copy() if isinstance(X, np.ndarray) else X, offset=None if po is None else po.copy())
        desc = s.desc()
    return Loss(fam, (p,), build, lambda x: ref.val(A.dot(x - o)), lambda x: A.T.dot(ref.grad(A.dot(x - o))), design=A,
                desc=dict(desc, kind=kind, po=po, A=A))


def quad_affine(rng, n, p):
    A = np.round(rng.standard_normal((n, p)), 3)
    Y = np.round(rng.standard_normal(n) * 2, 3)
    c = S.coef(rng)
    m = rng.integers(0, 3)
    if m == 0:
        build = lambda: rr.quadratic_loss.affine(A.copy(), -Y.copy(), coef=c)
    elif m == 1:
        build = lambda: rr.squared_error(A.copy(), Y.copy(), coef=c)
    else:
        build = lambda: affine_smooth(rr.quadratic_loss((n,), coef=c), rr.affine_transform(A.copy(), -Y.copy()))
    return Loss("quad%d" % m, (p,), build, lambda x: c * ((A.dot(x) - Y) ** 2).sum() / 2, lambda x: c * A.T.dot(A.dot(x) - Y), design=A,
                desc=dict(A=A, Y=Y, c=c))


def signal(rng, shape):
    Z = np.round(rng.standard_normal(shape) * 2, 3)
    c = S.coef(rng)
    m = rng.integers(0, 2)
    build = (lambda: rr.signal_approximator(Z.copy(), coef=c)) if m else (lambda: rr.quadratic_loss.shift(Z.copy(), coef=c))
    return Loss("signal", shape, build, lambda x: c * ((x - Z) ** 2).sum() / 2, lambda x: c * (x - Z), desc=dict(Z=Z, c=c))


def sum_loss(rng, n, p):
    a = glm_loss(rng, ["gaussian", "logistic", "huber"][rng.integers(0, 3)], n, p)
    b = glm_loss(rng, ["gaussian", "logistic", "poisson"][rng.integers(0, 3)], C.dim(rng, 1, 6), p)
    return Loss("sum", (p,), lambda: rr.smooth_sum([a.build(), b.build()]),
                lambda x: a.val(x) + b.val(x), lambda x: a.grad(x) + b.grad(x), desc=dict(a=a.desc, b=b.desc))


def smoothed_l1(rng, n, p):
    D = np.round(rng.standard_normal((n, p)), 3)
    b = np.round(rng.standard_normal(n), 3)
    lam, e = float(np.round(np.exp(rng.uniform(-1, 1.5)), 3)), float(np.round(np.exp(rng.uniform(-2, 1)), 3))
    u = lambda x: np.clip((D.dot(x) + b) / e, -lam, lam)
    return Loss("smoothed", (p,), lambda: rr.l1norm.affine(D.copy(), b.copy(), lagrange=lam).smoothed(iq(e, 0, 0, 0)),
                lambda x: (u(x) * (D.dot(x) + b) - e * u(x) ** 2 / 2).sum(), lambda x: D.T.dot(u(x)), desc=dict(D=D, b=b, lam=lam, e=e))


def loss(rng, shape, kind=None):
    if len(shape) > 1:
        return signal(rng, shape)
    p = shape[0]
    n = C.dim(rng, 1, 12)
    kind = kind or (S.ALL + ["cox", "quad", "quad", "signal", "sum", "smoothed"])[rng.integers(0, len(S.ALL) + 6)]
    if kind == "quad":
        return quad_affine(rng, n, p)
    if kind == "signal":
        return signal(rng, shape)
    if kind == "sum":
        return sum_loss(rng, n, p)
    if kind == "smoothed":
        return smoothed_l1(rng, n, p)
    return glm_loss(rng, kind, max(n, 2), p)


class Prob(object):
    """loss + penalty + quadratics, with the reference objective"""
    def __init__(self, loss, item, off=None, pq=None, lq=None, eq=None):
        self.loss, self.item, self.off, self.pq, self.lq, self.eq = loss, item, off, pq, lq, eq
        self.shape = loss.shape
        self.quads = [ref_quad(q) for q in (pq, lq, eq)]
        self.mu = sum(q.coef for q in self.quads)
        self.pen = R.FREE if item is None else item.pen

    def lib_loss(self, quadratic="own"):
        l = self.loss.build()
        q = self.lq if isinstance(quadratic, str) else quadratic
        if q is not None:
            l.quadratic = lib_quad(q)
        return l

    def lib_pen(self, quadratic="own"):
        q = self.pq if isinstance(quadratic, str) else quadratic
        return self.item.build(offset=None if self.off is None else self.off.copy(), quadratic=lib_quad(q))

    def extra(self):
        return lib_quad(self.eq)

    def shift(self, x):
        return x if self.off is None else x - self.off

    def S(self, x): return self.loss.val(x) + sum(q.quad(x) for q in self.quads)
    def gS(self, x): return self.loss.grad(x) + sum(q.quad_grad(x) for q in self.quads)
    def obj(self, x): return self.S(x) + self.pen.value(self.shift(x))
    def outside(self, x): return self.pen.outside(self.shift(x))

    def desc(self):
        d = dict(loss=self.loss.name, l=self.loss.desc, off=self.off, pq=self.pq, lq=self.lq, eq=self.eq)
        d["pen"] = None if self.item is None else self.item.desc
        return d

    # -- the certified optimum ------------------------------------------
    def optimum(self, case, x0=None, tol=1e-12, maxit=6000):
        prox = None
        if self.item is not None:
            h = self.item.build(offset=None if self.off is None else self.off.copy())
            prox = lambda z, Lc: np.asarray(h.proximal(iq(Lc, z, 0, 0)))
        else:
            prox = lambda z, Lc: z
        x = np.zeros(self.shape) if x0 is None else x0.copy()
        x = prox(x, 1.)
        Lc = max(self.mu, 1e-3)
        y, t = x.copy(), 1.
        for it in range(maxit):
            gy, Sy = self.gS(y), self.S(y)
            while True:
                xn = prox(y - gy / Lc, Lc)
                d = xn - y
                Sn = self.S(xn)
                if np.isfinite(Sn) and abs(Sn - Sy) > 1e-8 * max(1, abs(Sy)):
                    if Sn <= Sy + (gy * d).sum() + Lc / 2 * (d ** 2).sum():
                        break
                else:
                    gn = self.gS(xn)
                    if np.isfinite(gn).all() and ((gn - gy) * d).sum() <= Lc * (d ** 2).sum() * (1 + 1e-9) + 1e-300:
                        break
                Lc *= 2
                if Lc > 1e18:
                    raise Skip("no Lipschitz constant")
            if Lc * np.abs(d).max() <= tol * (1 + Lc * np.abs(xn).max()) if d.size else True:
                x = xn
                break
            if ((y - xn) * (xn - x)).sum() > 0:
                t, y, x = 1., xn.copy(), xn
                continue
            tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
            y, x, t = xn + (t - 1) / tn * (xn - x), xn, tn
        self.iters = it
        r = -self.gS(x)
        pin, din, gap = self.pen.support_gap(self.shift(x), r)
        sx = 1 + np.abs(x).max() + (0 if self.off is None else np.abs(self.off).max())
        sr = 1 + np.abs(r).max() + Lc * 1e-3
        n = x.size
        if pin > 1e-7 * sx * n or din > 1e-6 * sr * n or gap > 1e-6 * sr * sx * n:
            case.event("uncertified")
            raise Skip("optimum not certified")
        case.event("certified")
        self.x, self.val, self.Lc = x, self.obj(x), Lc
        self.scale = 1 + abs(self.val) + abs(self.S(np.zeros(self.shape))) + abs(self.pen.value(self.shift(x)))
        self.sx = sx
        return x


def penalty(rng, shape_like=None, kinds=None, grad0=None, form=None):
    """an item whose parameter is of the size that matters; grad0(shape) gives the gradient at zero"""
    kinds = kinds or C.ALL
    kind = kinds[rng.integers(0, len(kinds))]
    form = form or ("lagrange" if rng.random() < 0.6 else "bound")
    if (kind, form) in C.NOPROX:
        form = "bound" if form == "lagrange" else "lagrange"
    return kind, form


def generate(rng, kind=None, form=None, losskind=None, ridge=True, where=None, attach=True):
    """a random single penalty problem"""
    k, f = penalty(rng, kinds=None if kind is None else [kind], form=form)
    seed = int(rng.integers(0, 2 ** 31))
    mk = lambda prm: C.make(np.random.default_rng(seed), k, f, param=prm, zero_param=False)
    item = mk(1.)
    ls = loss(rng, item.shape, losskind)
    if item.form in ("lagrange", "bound"):
        u = float(np.exp(rng.uniform(-3, 0.5)))
        if item.form == "lagrange":
            g = item.pen.g.q(ls.grad(np.zeros(item.shape))) if item.pen.g.q_out(ls.grad(np.zeros(item.shape))) == 0 else 1.
        else:
            g = item.pen.g.p(C.point(rng, item.shape))
        prm = float(np.clip(u * g, 1e-3, 1e3)) if np.isfinite(g) and g > 0 else u
        x0 = C.point(rng, item.shape) + 0.1
        if rng.random() < 0.05 and (item.form == "bound" or item.pen.g.p_out(x0) == 0 == item.pen.g.p_out(-x0)):
            prm = 0.       # zero times a gauge with a domain is unspecified outside it
        item = mk(prm)
    off = C.point(rng, item.shape, 0.5) if attach and rng.random() < 0.3 else None
    pq = lq = eq = None
    mu = float(np.round(np.exp(rng.uniform(-2.5, 1)), 3))
    where = where or ["p", "l", "e", "ple", "pl", "le"][rng.integers(0, 6)]
    if not attach:
        where = where.replace("p", "")  or "e"
    c = mu / len(where)
    if "p" in where: pq = arr_parts(rng, item.shape, c)
    if "l" in where: lq = arr_parts(rng, item.shape, c)
    if "e" in where: eq = arr_parts(rng, item.shape, c)
    return Prob(ls, item, off, pq, lq, eq)
