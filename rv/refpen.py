"""Independent reference definitions of the penalties, written from their mathematical
definitions with plain numpy; nothing here calls the library.

A reference penalty has a gauge p (a norm, a seminorm or an asymmetric gauge), its polar
gauge q(u) = sup{<u,x>: p(x) <= 1}, and for hard coordinates (zero / infinite weights,
sign constraints) the distance by which they are broken.
"""
import numpy as np

INF = np.inf


class Gauge(object):
    name = "?"

    def p(self, x):            # finite part of the gauge
        raise NotImplementedError

    def p_out(self, x):        # amount by which x is outside dom p
        return 0.

    def q(self, u):
        raise NotImplementedError

    def q_out(self, u):
        return 0.

    def polar(self):
        return Polar(self)

    # membership measures, in the units of the argument
    def p_excess(self, x, b):
        return max(self.p_out(x), self.p(x) - b)

    def q_excess(self, u, b):
        return max(self.q_out(u), self.q(u) - b)


class Polar(Gauge):
    def __init__(self, g):
        self.g = g
        self.name = "polar(" + g.name + ")"
        self.p, self.q, self.p_out, self.q_out = g.q, g.p, g.q_out, g.p_out
        self.p_excess, self.q_excess = g.q_excess, g.p_excess

    def polar(self):
        return self.g


class L1(Gauge):
    name = "l1"
    def p(self, x): return np.abs(x).sum()
    def q(self, u): return np.abs(u).max() if u.size else 0.


class L2(Gauge):
    name = "l2"
    def p(self, x): return np.sqrt((x ** 2).sum())
    q = p


class PositivePart(Gauge):     # sum x_i^+ ; polar: max s.t. >= 0
    name = "pospart"
    def p(self, x): return np.maximum(x, 0).sum()
    def q(self, u): return max(u.max(), 0.)
    def q_out(self, u): return max(-u.min(), 0.)


class ConsPositivePart(Gauge):  # sum x_i s.t. x >= 0 ; polar: max u_i^+
    name = "conspos"
    def p(self, x): return np.maximum(x, 0).sum()
    def p_out(self, x): return max(-x.min(), 0.)
    def q(self, u): return max(u.max(), 0.)


class WeightedL1(Gauge):
    name = "wl1"
    def __init__(self, w):
        self.w = np.asarray(w, float)
        self.inf = np.isinf(self.w)
        self.zero = self.w == 0
        self.reg = ~self.inf & ~self.zero

    def p(self, x):
        return (self.w[self.reg] * np.abs(x[self.reg])).sum()
    def p_out(self, x):
        return np.abs(x[self.inf]).max() if self.inf.any() else 0.
    def q(self, u):
        return (np.abs(u[self.reg]) / self.w[self.reg]).max() if self.reg.any() else 0.
    def q_out(self, u):
        return np.abs(u[self.zero]).max() if self.zero.any() else 0.
    def q_excess(self, u, b):
        e = self.q_out(u)
        if self.reg.any():
            e = max(e, (np.abs(u[self.reg]) - b * self.w[self.reg]).max())
        return e


class Slope(Gauge):
    name = "slope"
    def __init__(self, w):
        self.w = np.asarray(w, float)
    def p(self, x):
        return (np.sort(np.abs(x))[::-1] * self.w).sum()
    def q(self, u):
        return (np.cumsum(np.sort(np.abs(u))[::-1]) / np.cumsum(self.w)).max()


class Group(Gauge):
    name = "group"
    def __init__(self, groups, weights):
        groups = np.asarray(groups)
        self.ids = list(np.unique(groups))
        self.sel = [groups == g for g in self.ids]
        self.w = np.array([weights[g] for g in self.ids], float)

    def norms(self, x):
        return np.array([np.sqrt((x[s] ** 2).sum()) for s in self.sel])
    def p(self, x):
        return (self.w * self.norms(x)).sum()
    def q(self, u):
        n = self.norms(u)
        reg = self.w > 0
        return (n[reg] / self.w[reg]).max() if reg.any() else 0.
    def q_out(self, u):
        z = self.w == 0
        return self.norms(u)[z].max() if z.any() else 0.
    def q_excess(self, u, b):
        return max(0., (self.norms(u) - b * self.w).max())


def soft(x, t):
    return np.sign(x) * np.maximum(np.abs(x) - t, 0)


class SparseGroup(Gauge):
    name = "sgl"
    def __init__(self, groups, l1w, weights):
        groups = np.asarray(groups)
        self.ids = list(np.unique(groups))
        self.sel = [groups == g for g in self.ids]
        self.w = np.array([weights[g] for g in self.ids], float)
        self.l = np.asarray(l1w, float) * np.ones(groups.shape)

    def p(self, x):
        return (self.l * np.abs(x)).sum() + sum(w * np.sqrt((x[s] ** 2).sum()) for w, s in zip(self.w, self.sel))

    def _viol(self, u, t):
        return max(np.sqrt((soft(u[s], t * self.l[s]) ** 2).sum()) - t * w for w, s in zip(self.w, self.sel))

    def q_excess(self, u, b):
        return max(self.q_out(u), self._viol(u, b))

    def _free(self):
        out = []
        for w, s in zip(self.w, self.sel):
            if w == 0:
                out.append(s & (self.l == 0))
        return out

    def q_out(self, u):
        return max([0.] + [np.abs(u[f]).max() for f in self._free() if f.any()])

    def q(self, u):
        u = u.copy()
        for f in self._free():
            u[f] = 0
        if not np.any(u):
            return 0.
        hi = 1.
        while self._viol(u, hi) > 0:
            hi *= 2
            if hi > 1e18:
                return INF
        lo = 0.
        for _ in range(200):
            m = 0.5 * (lo + hi)
            if self._viol(u, m) > 0:
                lo = m
            else:
                hi = m
            if hi - lo <= 1e-15 * hi:
                break
        return hi


class SparseGroupRows(SparseGroup):
    """rows of a matrix are the groups"""
    name = "sgb"
    def __init__(self, shape, l1w, l2w):
        g = np.repeat(np.arange(shape[0]), shape[1]).reshape(shape)
        SparseGroup.__init__(self, g, l1w, dict((i, l2w) for i in range(shape[0])))


class Block(Gauge):
    """sum over rows of an inner gauge; polar: max over rows of the inner polar"""
    def __init__(self, inner):
        self.inner = inner
        self.name = "block_sum(%s)" % inner.name
    def p(self, x): return sum(self.inner.p(r) for r in x)
    def p_out(self, x): return max(self.inner.p_out(r) for r in x)
    def q(self, u): return max(self.inner.q(r) for r in u)
    def q_out(self, u): return max(self.inner.q_out(r) for r in u)


class Nuclear(Gauge):
    name = "nuclear"
    def p(self, x): return np.linalg.svd(x, compute_uv=False).sum()
    def q(self, u): return np.linalg.svd(u, compute_uv=False).max()


# ---------------------------------------------------------------- penalties

class Pen(object):
    """gauge in lagrange or bound form, without shift or quadratic"""
    def __init__(self, gauge, lagrange=None, bound=None):
        self.g, self.lagrange, self.bound = gauge, lagrange, bound

    def value(self, x):
        """finite part; use outside() for feasibility"""
        if self.lagrange is not None:
            return self.lagrange * self.g.p(x)
        return 0.

    def outside(self, x):
        if self.lagrange is not None:
            return self.g.p_out(x)
        return max(0., self.g.p_excess(x, self.bound))

    def conj(self):
        return Pen(self.g.polar(), lagrange=self.bound, bound=self.lagrange)

    def support_gap(self, z, r):
        """(primal infeasibility, dual infeasibility, Fenchel gap h(z)+h*(r)-<z,r>), each >= 0 up to rounding;
        all zero iff r is a subgradient of h at z"""
        zr = (z * r).sum()
        if self.lagrange is not None:
            l = self.lagrange
            pin = self.g.p_out(z)
            din = max(0., self.g.q_excess(r, l))
            gap = l * self.g.p(z) - zr
        else:
            b = self.bound
            pin = max(0., self.g.p_excess(z, b))
            din = self.g.q_out(r)
            gap = b * self.g.q(r) - zr
        return pin, din, gap


class Indicator(object):
    """convex set given by membership + support function; cones have support 0 on the polar"""
    def __init__(self, name, member, polar_member, support=None):
        self.name, self.member, self.polar_member = name, member, polar_member
        self.support = support or (lambda r: 0.)

    def value(self, x): return 0.
    def outside(self, x): return max(0., self.member(x))

    def conj(self):
        return SupportOf(self)

    def support_gap(self, z, r):
        return max(0., self.member(z)), max(0., self.polar_member(r)), self.support(r) - (z * r).sum()


class SupportOf(object):
    def __init__(self, ind):
        self.ind = ind
    def value(self, x): return self.ind.support(x)
    def outside(self, x): return max(0., self.ind.polar_member(x))
    def conj(self): return self.ind
    def support_gap(self, z, r):
        return max(0., self.ind.polar_member(z)), max(0., self.ind.member(r)), self.ind.support(z) - (z * r).sum()


class Shifted(object):
    """x -> h(x - offset) + coef/2|x-center|^2 + <lin,x> + const"""
    def __init__(self, h, offset=None, coef=0., center=None, lin=None, const=0.):
        self.h, self.offset, self.coef, self.center, self.lin, self.const = h, offset, coef, center, lin, const

    def _x(self, x):
        return x if self.offset is None else x - self.offset

    def quad(self, x):
        r = x if self.center is None else x - self.center
        v = 0.5 * self.coef * (r ** 2).sum() + self.const
        if self.lin is not None:
            v += (self.lin * x).sum()
        return v

    def quad_grad(self, x):
        r = x if self.center is None else x - self.center
        g = self.coef * r
        if self.lin is not None:
            g = g + self.lin
        return g

    def value(self, x): return self.h.value(self._x(x)) + self.quad(x)
    def outside(self, x): return self.h.outside(self._x(x))


# ---------------------------------------------------------------- cones

def epigraph(gauge, reshape=None):
    """{v: p(v[:-1]) <= v[-1]}; polar {v: q(v[:-1]) <= -v[-1]}"""
    rs = (lambda x: x) if reshape is None else (lambda x: x.reshape(reshape))
    return Indicator("epi(%s)" % gauge.name,
                     lambda v: gauge.p_excess(rs(v[:-1]), v[-1]),
                     lambda v: gauge.q_excess(rs(v[:-1]), -v[-1]))


def polar_of(ind):
    return Indicator("polar(%s)" % ind.name, ind.polar_member, ind.member)


def mx(a):
    return float(a.max()) if a.size else -INF


NONNEG = Indicator("nonnegative", lambda x: mx(-x), lambda x: mx(x))
NONPOS = Indicator("nonpositive", lambda x: mx(x), lambda x: mx(-x))
FREE = Indicator("free", lambda x: 0., lambda x: mx(np.abs(x)))
ZERO = Indicator("zero", lambda x: mx(np.abs(x)), lambda x: 0.)
SIMPLEX = Indicator("simplex", lambda x: max(mx(-x), abs(x.sum() - 1)), lambda x: 0., lambda r: r.max())


def subspace(B):
    P = B.T.dot(B)
    return Indicator("span", lambda x: mx(np.abs(x - P.dot(x))), lambda x: mx(np.abs(P.dot(x))))
