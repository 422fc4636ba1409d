"""Generators of library penalties together with their independent reference."""
import numpy as np
import regreg.api as rr
from regreg.atoms.cones import (nonnegative, nonpositive, zero, zero_constraint, l1_epigraph, l1_epigraph_polar,
                                l2_epigraph, l2_epigraph_polar, linf_epigraph, linf_epigraph_polar)
from regreg.atoms.simplex import simplex_constraint, maximum
from regreg.identity_quadratic import identity_quadratic as iq
from . import refpen as R


class Item(object):
    """build(offset=None, quadratic=None) -> a fresh library object; pen -> reference"""
    def __init__(self, kind, shape, form, param, build, pen, tol=1e-8, vtol=1e-9, prox=True, seminorm=True, desc=None,
                 feas_tol=1e-5):
        self.kind, self.shape, self.form, self.param = kind, shape, form, param
        self.build, self.pen, self.tol, self.vtol, self.prox = build, pen, tol, vtol, prox
        self.seminorm, self.desc, self.feas_tol = seminorm, desc or {}, feas_tol


def rand_groups(rng, n, kind=None):
    k = int(rng.integers(1, n + 1))
    g = rng.integers(0, k, n)
    kind = rng.integers(0, 5) if kind is None else kind
    if kind == 0:
        return np.sort(g)
    if kind == 1:
        return g * 7 - 3
    if kind == 2:
        names = np.array(["g%02d" % i for i in rng.permutation(k)])
        return names[g]
    if kind == 3:
        return g * 0.5
    return g


def wide(rng, w, prob=0.15):
    """sometimes replace some weights by very small or very large ones"""
    w = np.array(w, float)
    if rng.random() < prob:
        ind = rng.random(w.shape) < 0.6
        w[ind] = 10 ** rng.uniform(-5, 2.5, int(ind.sum()))
    return w


def group_weights(rng, groups, zeros=True):
    """(weights dict handed to the library, full dict of effective weights)"""
    ids = np.unique(groups)
    full = dict((g, float(np.sqrt((groups == g).sum()))) for g in ids)
    given = {}
    m = rng.integers(0, 4)
    for g in ids:
        if m == 0 or (m == 1 and rng.random() < 0.5):
            continue
        w = float(np.round(rng.uniform(0.2, 2), 3))
        if rng.random() < 0.06:
            w = float(10 ** rng.uniform(-4, 2))
        if zeros and m == 3 and rng.random() < 0.3:
            w = 0.
        given[g] = full[g] = w
    return given, full


GAUGES = {
    "l1norm": (R.L1(), None), "supnorm": (R.L1().polar(), None), "l2norm": (R.L2(), None),
    "positive_part": (R.PositivePart(), None), "constrained_max": (R.PositivePart().polar(), None),
    "constrained_positive_part": (R.ConsPositivePart(), None), "max_positive_part": (R.ConsPositivePart().polar(), None),
}

SIMPLE = list(GAUGES)
WEIGHTED = ["weighted_l1norm", "weighted_supnorm"]
SLOPE = ["slope", "slope_conjugate"]
GROUP = ["group_lasso", "group_lasso_dual"]
SGL = ["sparse_group_lasso", "sparse_group_lasso_dual"]
SGB = ["sparse_group_block", "sparse_group_block_dual"]
BLOCK = ["l1_l2", "linf_l2", "l1_l1", "linf_linf", "block_sum", "block_max"]
SVD = ["nuclear_norm", "operator_norm"]
SEMINORMS = SIMPLE + WEIGHTED + SLOPE + GROUP + SGL + SGB + BLOCK + SVD
CONES = ["nonnegative", "nonpositive", "zero", "zero_constraint", "l1_epigraph", "l1_epigraph_polar", "l2_epigraph",
         "l2_epigraph_polar", "linf_epigraph", "linf_epigraph_polar", "group_lasso_epigraph",
         "group_lasso_epigraph_polar", "group_lasso_dual_epigraph", "group_lasso_dual_epigraph_polar",
         "nuclear_norm_epigraph", "nuclear_norm_epigraph_polar", "operator_norm_epigraph",
         "operator_norm_epigraph_polar", "projection", "projection_complement"]
OTHER = ["simplex_constraint", "maximum"]
ALL = SEMINORMS + CONES + OTHER

# forms the library documents as not implemented
NOPROX = {("slope", "bound"), ("slope_conjugate", "lagrange"), ("sparse_group_lasso", "bound"),
          ("sparse_group_lasso_dual", "lagrange"), ("sparse_group_block", "bound"),
          ("sparse_group_block_dual", "lagrange"), ("block_max", "lagrange"), ("block_sum", "bound")}


def dim(rng, lo=1, hi=12):
    m = rng.integers(0, 6)
    if m == 0:
        return lo
    if m == 1:
        return lo + 1
    return int(rng.integers(lo, hi + 1))


def rand_shape2(rng):
    return (dim(rng, 1, 7), dim(rng, 1, 6))


def param_value(rng, form, zero_ok=True):
    m = rng.integers(0, 8)
    if m == 0 and zero_ok:
        return 0.
    if m == 1:
        return int(rng.integers(1, 4))
    if m == 2 and rng.random() < 0.3:
        return float(10 ** rng.uniform(-5, 3))
    return float(np.exp(rng.uniform(-3, 2)))


def make(rng, kind, form=None, zero_param=True, zero_weights=True, min_dim=1, param=None):
    form = form or ("lagrange" if rng.random() < 0.5 else "bound")
    if kind in SEMINORMS:
        t = param if param is not None else param_value(rng, form, zero_param)
        kw = {form: t}
        prox = (kind, form) not in NOPROX
        tol, vtol = 1e-8, 1e-9
        desc = dict(kind=kind, form=form, param=t)
        if kind in SIMPLE:
            n = dim(rng, min_dim)
            shape = (n,)
            g = GAUGES[kind][0]
            cls = getattr(rr, kind)
            build = lambda offset=None, quadratic=None: cls(shape, offset=offset, quadratic=quadratic, **kw)
        elif kind in WEIGHTED:
            n = dim(rng, min_dim)
            shape = (n,)
            w = wide(rng, np.round(np.exp(rng.uniform(-2, 2, n)), 3))
            if zero_weights:
                m = rng.integers(0, 5)
                if m == 1:
                    w[rng.random(n) < 0.3] = 0
                elif m == 2:
                    w[rng.random(n) < 0.3] = np.inf
                elif m == 3:
                    w[rng.random(n) < 0.3] = 0
                    w[rng.random(n) < 0.3] = np.inf
            desc["weights"] = w
            cls = getattr(rr, kind)
            build = lambda offset=None, quadratic=None: cls(w.copy(), offset=offset, quadratic=quadratic, **kw)
            if kind == "weighted_l1norm":
                g = R.WeightedL1(w)
            else:
                with np.errstate(divide="ignore"):
                    g = R.WeightedL1(1. / w).polar()
        elif kind in SLOPE:
            n = dim(rng, min_dim)
            shape = (n,)
            w = np.sort(wide(rng, np.round(np.exp(rng.uniform(-2, 2, n)), 3)))[::-1].copy()
            if rng.random() < 0.3:
                w = np.sort(rng.integers(1, 3, n))[::-1].astype(float)
            desc["weights"] = w
            cls = getattr(rr, kind)
            pure = int(np.round(1000 * w.sum())) % 2 == 0        # the two implementations of isotonic regression
            desc["use_sklearn"] = not pure

            def build(offset=None, quadratic=None):
                o = cls(w.copy(), offset=offset, quadratic=quadratic, **kw)
                if pure:
                    o.use_sklearn = False
                return o
            g = R.Slope(w)
            if kind == "slope_conjugate":
                g = g.polar()
        elif kind in GROUP:
            n = dim(rng, min_dim)
            groups = rand_groups(rng, n)
            shape = (n,)
            given, full = group_weights(rng, groups, zero_weights)
            desc.update(groups=groups, weights=given)
            cls = getattr(rr, kind)
            build = lambda offset=None, quadratic=None: cls(groups.copy(), weights=dict(given), offset=offset, quadratic=quadratic, **kw)
            g = R.Group(groups, full)
            if kind == "group_lasso_dual":
                g = g.polar()
        elif kind in SGL:
            n = dim(rng, min_dim)
            groups = rand_groups(rng, n)
            shape = (n,)
            given, full = group_weights(rng, groups, False)
            l1w = wide(rng, np.round(rng.uniform(0.1, 2, n), 3), 0.1)
            if rng.random() < 0.3:
                l1w[rng.random(n) < 0.4] = 0
            desc.update(groups=groups, weights=given, lasso_weights=l1w)
            cls = getattr(rr, kind)
            build = lambda offset=None, quadratic=None: cls(groups.copy(), l1w.copy(), weights=dict(given), offset=offset, quadratic=quadratic, **kw)
            g = R.SparseGroup(groups, l1w, full)
            if kind == "sparse_group_lasso_dual":
                g = g.polar()
                # membership is decided up to 1e-5 on the group weights
                vtol = max(1e-4, 2e-5 / min([v for v in full.values() if v > 0] or [1.]))
        elif kind in SGB:
            shape = rand_shape2(rng)
            l1w, l2w = float(np.round(rng.uniform(0.1, 2), 3)), float(np.round(rng.uniform(0.1, 2), 3))
            desc.update(shape=shape, l1=l1w, l2=l2w)
            cls = getattr(rr, kind)
            build = lambda offset=None, quadratic=None: cls(shape, l1w, l2w, offset=offset, quadratic=quadratic, **kw)
            g = R.SparseGroupRows(shape, l1w, l2w)
            if kind == "sparse_group_block_dual":
                g = g.polar()
                vtol = 1e-5
        elif kind in BLOCK:
            shape = rand_shape2(rng)
            desc.update(shape=shape)
            cls = getattr(rr, kind)
            if kind in ("block_sum", "block_max"):
                inner = ["l1norm", "l2norm", "supnorm"][rng.integers(0, 3)]
                desc.update(inner=inner)
                icls = getattr(rr, inner)
                build = lambda offset=None, quadratic=None: cls(icls, shape, offset=offset, quadratic=quadratic, **kw)
                gi = GAUGES[inner][0]
                g = R.Block(gi) if kind == "block_sum" else R.Block(gi.polar()).polar()
            else:
                build = lambda offset=None, quadratic=None: cls(shape, offset=offset, quadratic=quadratic, **kw)
                g = {"l1_l2": R.Block(R.L2()), "linf_l2": R.Block(R.L2()).polar(), "l1_l1": R.Block(R.L1()),
                     "linf_linf": R.Block(R.L1()).polar()}[kind]
        elif kind in SVD:
            shape = rand_shape2(rng)
            desc.update(shape=shape)
            cls = getattr(rr, kind)
            build = lambda offset=None, quadratic=None: cls(shape, offset=offset, quadratic=quadratic, **kw)
            g = R.Nuclear() if kind == "nuclear_norm" else R.Nuclear().polar()
            tol = 1e-7
        desc["n"] = shape
        pen = R.Pen(g, **{form: float(t)})
        return Item(kind, shape, form, t, build, pen, tol=tol, vtol=vtol, prox=prox, desc=desc)

    desc = dict(kind=kind)
    tol = 1e-8
    if kind in ("nonnegative", "nonpositive", "zero", "zero_constraint"):
        shape = (dim(rng, min_dim),)
        cls = globals()[kind]
        build = lambda offset=None, quadratic=None: cls(shape, offset=offset, quadratic=quadratic)
        pen = {"nonnegative": R.NONNEG, "nonpositive": R.NONPOS, "zero": R.FREE, "zero_constraint": R.ZERO}[kind]
    elif kind in ("l1_epigraph", "l2_epigraph", "linf_epigraph", "l1_epigraph_polar", "l2_epigraph_polar", "linf_epigraph_polar"):
        shape = (dim(rng, max(2, min_dim)),)
        cls = globals()[kind]
        build = lambda offset=None, quadratic=None: cls(shape, offset=offset, quadratic=quadratic)
        g = {"l1": R.L1(), "l2": R.L2(), "linf": R.L1().polar()}[kind.split("_")[0]]
        pen = R.epigraph(g)
        if kind.endswith("polar"):
            pen = R.polar_of(pen)
    elif kind.startswith("group_lasso"):
        n = dim(rng, min_dim)
        groups = rand_groups(rng, n)
        shape = (n + 1,)
        given, full = group_weights(rng, groups, False)
        desc.update(groups=groups, weights=given)
        cls = getattr(rr, kind)
        build = lambda offset=None, quadratic=None: cls(groups.copy(), weights=dict(given), offset=offset, quadratic=quadratic)
        g = R.Group(groups, full)
        if "dual" in kind:
            g = g.polar()
        pen = R.epigraph(g)
        if kind.endswith("polar"):
            pen = R.polar_of(pen)
        tol = 1e-6
    elif kind.endswith("norm_epigraph") or kind.endswith("norm_epigraph_polar"):
        sh = rand_shape2(rng)
        shape = (sh[0] * sh[1] + 1,)
        cls = getattr(rr, kind)
        desc.update(shape=sh)
        build = lambda offset=None, quadratic=None: cls(sh, offset=offset, quadratic=quadratic)
        g = R.Nuclear() if kind.startswith("nuclear") else R.Nuclear().polar()
        pen = R.epigraph(g, sh)
        if kind.endswith("polar"):
            pen = R.polar_of(pen)
        tol = 1e-7
    elif kind in ("projection", "projection_complement"):
        n = dim(rng, max(2, min_dim))
        k = int(rng.integers(1, n + 1))
        B = np.linalg.qr(rng.standard_normal((n, k)))[0].T.copy()
        shape = (n,)
        cls = getattr(rr, kind)
        desc.update(k=k)
        build = lambda offset=None, quadratic=None: cls(shape, B.copy(), offset=offset, quadratic=quadratic)
        pen = R.subspace(B)
        if kind.endswith("complement"):
            pen = R.polar_of(pen)
    elif kind in OTHER:
        shape = (dim(rng, min_dim),)
        cls = simplex_constraint if kind == "simplex_constraint" else maximum
        build = lambda offset=None, quadratic=None: cls(shape, offset=offset, quadratic=quadratic)
        pen = R.SIMPLEX if kind == "simplex_constraint" else R.SIMPLEX.conj()
    else:
        raise KeyError(kind)
    desc["n"] = shape
    return Item(kind, shape, "cone", None, build, pen, tol=tol, seminorm=False, desc=desc)


def point(rng, shape, scale=1.):
    """hostile points: ties, zeros, one signed, huge spread"""
    n = int(np.prod(shape))
    m = rng.integers(0, 12)
    if m == 0:
        v = np.zeros(n)
    elif m == 1:
        v = np.full(n, float(rng.integers(-3, 4)))
    elif m == 2:
        v = rng.integers(-2, 3, n).astype(float)
    elif m == 3:
        v = np.abs(rng.standard_normal(n))
    elif m == 4:
        v = -np.abs(rng.standard_normal(n))
    elif m == 5:
        v = rng.standard_normal(n) * (rng.random(n) < 0.4)
    elif m == 6:
        v = rng.standard_normal(n) * np.exp(rng.uniform(-4, 4, n))
    elif m == 7:
        v = np.zeros(n)
        v[rng.integers(0, n)] = rng.standard_normal() * 3
    else:
        v = rng.standard_normal(n) * np.exp(rng.uniform(-1, 1.5))
    return v.reshape(shape) * scale


def quad_parts(rng, shape, coef=None, with_coef=None):
    """random (coef, center, lin, const)"""
    c = coef if coef is not None else float(np.exp(rng.uniform(-2, 2)))
    m = rng.integers(0, 5)
    center = None if m == 0 else (0 if m == 1 else point(rng, shape))
    m = rng.integers(0, 4)
    lin = None if m == 0 else (0 if m == 1 else point(rng, shape))
    const = float(np.round(rng.standard_normal(), 2)) if rng.random() < 0.7 else 0
    return c, center, lin, const


def quad_obj(parts):
    c, center, lin, const = parts
    return iq(c, None if center is None else np.copy(center), None if lin is None else np.copy(lin), const)


def attach(rng, item, mode=None):
    """a library object with random shift / attached quadratic and the matching reference.
    returns (lib object, Shifted reference)"""
    mode = mode if mode is not None else int(rng.integers(0, 4))
    off = None
    quad, q = None, (0., None, None, 0.)
    if mode in (1, 3):
        off = point(rng, item.shape) if rng.random() < 0.9 else np.zeros(item.shape)
    if mode in (2, 3):
        q = quad_parts(rng, item.shape, coef=0. if rng.random() < 0.5 else None)
        quad = quad_obj(q)
    obj = item.build(offset=None if off is None else off.copy(), quadratic=quad)
    z = lambda v: None if v is None or np.ndim(v) == 0 and v == 0 else v
    ref = R.Shifted(item.pen, off, float(q[0]), z(q[1]), z(q[2]), float(q[3]))
    item.desc.update(mode=mode, offset=off, quad=q)
    return obj, ref
