"""P11 solvers reach the global optimum: every solver / formulation against an independently certified optimum."""
import contextlib

import numpy as np
import regreg.api as rr
from regreg.identity_quadratic import identity_quadratic as iq
from regreg.problems.admm import admm_problem
from regreg.problems.newton import quasi_newton
from rv.core import Family, Skip
from rv import catalog as C, losses as S, refpen as R, problems as P


def judge(case, p, x, key, tol=1e-9, xtol=1e-3, feas=1e-8, its=None, hist=None):
    """x must be feasible, not worse than the certified optimum, and (strong convexity) close to it"""
    if its is not None:
        # plain gradient steps may need more than the allowed iterations: then only the direction is judged
        tol, xtol = 0.2, 1.
        if hist is not None and len(hist) < its:
            tol, xtol = 1e-7, 1e-3
    x = np.asarray(x, float)
    case.check(x.shape == tuple(p.shape), key + ":shape", "%s %s" % (x.shape, p.shape))
    case.check(np.isfinite(x).all(), key + ":finite", x)
    case.leq(p.outside(x), 0, key + ":infeasible", feas, p.sx, "x=%s" % x)
    case.leq(p.obj(x), p.val, key + ":suboptimal", tol, p.scale, "x=%s optimum=%s" % (x, p.x))
    case.close(x, p.x, key + ":argmin", xtol, p.sx)


def fit_options(rng, coef_stop=True):
    o = dict(tol=1e-14, min_its=50)
    m = rng.integers(0, 8)
    if m == 1 and coef_stop:
        o.update(coef_stop=True, tol=1e-10)
    elif m == 2:
        o.update(start_step=float(10 ** rng.uniform(-4, 3)))
    elif m == 3:
        o.update(restart=int(rng.integers(2, 60)))
    elif m == 4:
        o.update(monotonicity_restart=False, restart=int(rng.integers(5, 30)), min_its=300)
    elif m == 5:
        o.update(FISTA=False, min_its=200, max_its=3000)
    elif m == 6:
        o.update(return_objective_hist=False)
    return o


def tols(o):
    if o.get("FISTA") is False or o.get("monotonicity_restart") is False:
        return dict(tol=1e-7, xtol=1e-3, its=o.get("max_its"))
    return {}


def value_const(p):
    """library loss value minus reference value (does not depend on the parameter)"""
    x0 = np.zeros(p.shape)
    return p.loss.build().smooth_objective(x0, "func") - p.loss.val(x0)


def start(rng, prob, p):
    if rng.random() < 0.5:
        prob.coefs[:] = C.point(rng, p.shape, 0.3)


def f_single(case):
    rng = case.rng
    kind = C.ALL[case.index % len(C.ALL)]
    p = P.generate(rng, kind=kind)
    case.note(**p.desc())
    p.optimum(case)
    c = value_const(p)
    m = case.index // len(C.ALL) % 6 if rng.random() < 0.5 else int(rng.integers(0, 6))
    o = fit_options(rng)
    kw = tols(o)
    case.note(form=m, o=o)
    case.event("loss:" + p.loss.name)
    if m == 0:
        prob = rr.simple_problem(p.lib_loss(), p.lib_pen())
        start(rng, prob, p)
        v, x = prob.solve(p.extra(), return_optimum=True, **o)
        judge(case, p, x, "simple", hist=prob.solver_results, **kw)
        case.close(v - c, p.obj(np.asarray(x)), "simple:value", 1e-8, p.scale + abs(c))
        # again, warm, and without the extra quadratic: the call leaves no trace of it
        x = prob.solve(p.extra(), **o)
        judge(case, p, x, "simple-warm", hist=prob.solver_results, **kw)
        if p.eq is not None and (p.mu > p.eq[0] or p.loss.name in ("signal",)):
            p2 = P.Prob(p.loss, p.item, p.off, p.pq, p.lq, None)
            p2.optimum(case)
            v, x = prob.solve(return_optimum=True, **o)
            judge(case, p2, x, "simple-after-extra", **kw)
            case.close(v - c, p2.obj(np.asarray(x)), "simple:value-after-extra", 1e-8, p2.scale + abs(c))
    elif m == 1:
        # quadratics merged into one place
        tot = [q for q in (p.pq, p.lq, p.eq) if q is not None]
        lib = P.lib_quad(tot[0])
        for q in tot[1:]:
            lib = lib + P.lib_quad(q)
        where = ["loss", "pen", "prob", "call"][rng.integers(0, 4)]
        case.event("merged:" + where)
        l, h = p.lib_loss(None), p.lib_pen(None)
        if where == "loss": l.quadratic = lib
        if where == "pen": h.quadratic = lib
        prob = rr.simple_problem(l, h)
        if where == "prob": prob.quadratic = lib
        start(rng, prob, p)
        x = prob.solve(lib if where == "call" else None, **o)
        judge(case, p, x, "merged-" + where, **kw)
    elif m == 2:
        prob = rr.simple_problem(p.lib_loss(), p.lib_pen())
        if p.eq is not None:
            prob.quadratic = p.extra()
        start(rng, prob, p)
        s = rr.FISTA(prob)
        s.fit(**o)
        judge(case, p, s.composite.coefs, "fista", **kw)
        s.fit(**o)
        judge(case, p, prob.coefs, "fista-warm", **kw)
        case.close(prob.objective(prob.coefs) - c, p.obj(prob.coefs), "fista:value", 1e-8, p.scale + abs(c))
    elif m == 3:
        prob = rr.container(p.lib_loss(), p.lib_pen()) if rng.random() < 0.5 else rr.container(p.lib_pen(), p.lib_loss())
        start(rng, prob, p)
        v, x = prob.solve(p.extra(), return_optimum=True, **o)
        judge(case, p, x, "container", **kw)
        case.close(v - c, p.obj(np.asarray(x)), "container:value", 1e-8, p.scale + abs(c))
        if p.eq is not None:
            case.close(prob.objective(x) - c, p.obj(np.asarray(x)) - P.ref_quad(p.eq).quad(x), "container:extra-sticks", 1e-8, p.scale + abs(c))
    elif m == 4:
        if len(p.shape) > 1:
            raise Skip("vectors only")
        if p.off is not None or p.pq is not None:
            h = rr.separable_problem.singleton(p.lib_pen(), p.lib_loss())
        else:
            h = rr.separable_problem(p.lib_loss(), p.shape, [p.lib_pen()], [slice(None)])
        start(rng, h, p)
        v, x = h.solve(p.extra(), return_optimum=True, **o)
        judge(case, p, x, "singleton", **kw)
        case.close(v - c, p.obj(np.asarray(x)), "singleton:value", 1e-8, p.scale + abs(c))
    else:
        if p.loss.name in ("poisson", "cloglog", "probit", "sum", "cox"):
            raise Skip("gengrad needs a Lipschitz constant")
        prob = rr.simple_problem(p.lib_loss(), p.lib_pen())
        if p.eq is not None:
            prob.quadratic = p.extra()
        x0 = C.point(rng, p.shape, 0.3)
        lip = lipschitz(p)
        cs = rng.random() < 0.5
        prob.coefs[:] = x0
        x = rr.gengrad(prob, lip, tol=1e-12 if cs else 1e-15, max_its=30000, coef_stop=bool(cs))
        judge(case, p, x, "gengrad", tol=1e-7, xtol=2e-2)      # plain steps, flat directions
    case.event("form:%d" % m)


def lipschitz(p):
    A = p.loss.design
    d = p.loss.desc
    if p.loss.name == "signal":
        return d["c"] * 1.01
    if p.loss.name.startswith("quad"):
        return d["c"] * np.linalg.norm(A, 2) ** 2 * 1.01 + 1e-3
    if p.loss.name == "smoothed":
        return np.linalg.norm(d["D"], 2) ** 2 / d["e"] * 1.01 + 1e-3
    w = 1. if d["w"] is None else np.max(d["w"])
    t = 1. if d["trials"] is None else np.max(d["trials"])
    k = {"gaussian": 1., "logistic": .25 * t}.get(p.loss.name) or 1. / d["eps"]
    return d["coef"] * w * k * np.linalg.norm(A, 2) ** 2 * 1.01 + 1e-3


def f_smooth(case):
    """no penalty: loss.solve and simple_problem.smooth"""
    rng = case.rng
    shape = (C.dim(rng, 1, 8),) if rng.random() < 0.85 else C.rand_shape2(rng)
    names = S.ALL + ["cox", "quad", "signal", "sum", "smoothed"]
    ls = P.loss(rng, shape, names[case.index % len(names)])
    where = ["l", "e", "le"][rng.integers(0, 3)]
    mu = float(np.exp(rng.uniform(-2, 1)))
    p = P.Prob(ls, None, None, None, P.arr_parts(rng, shape, mu / len(where)) if "l" in where else None,
               P.arr_parts(rng, shape, mu / len(where)) if "e" in where else None)
    case.note(**p.desc())
    p.optimum(case)
    c = value_const(p)
    o = fit_options(rng)
    kw = tols(o)
    l = p.lib_loss()
    start(rng, l, p)
    v, x = l.solve(p.extra(), return_optimum=True, **o)
    judge(case, p, x, "loss.solve", **kw)
    case.close(v - c, p.obj(np.asarray(x)), "loss.solve:value", 1e-8, p.scale + abs(c))
    x = l.solve(p.extra(), **o)
    judge(case, p, x, "loss.solve-warm", **kw)
    if p.eq is not None:
        case.close(l.smooth_objective(x, "func") + l.nonsmooth_objective(x) - c, p.obj(x) - P.ref_quad(p.eq).quad(x), "loss.solve:extra-sticks", 1e-8, p.scale + abs(c))
    prob = rr.simple_problem.smooth(p.lib_loss())
    start(rng, prob, p)
    v, x = prob.solve(p.extra(), return_optimum=True, **o)
    judge(case, p, x, "simple.smooth", **kw)
    case.close(v - c, p.obj(np.asarray(x)), "simple.smooth:value", 1e-8, p.scale + abs(c))
    prob = rr.container(p.lib_loss())
    x = prob.solve(p.extra(), **o)
    judge(case, p, x, "container.smooth", **kw)
    case.event("smooth:" + ls.name)


def f_nonsmooth(case):
    rng = case.rng
    kind = C.ALL[case.index % len(C.ALL)]
    p = P.generate(rng, kind=kind, where=["p", "e", "pe"][rng.integers(0, 3)])
    zero = P.Loss("zero", p.shape, None, lambda x: 0., lambda x: np.zeros_like(x))
    p = P.Prob(zero, p.item, p.off, p.pq, None, p.eq)
    q = p.eq
    if q is None:
        q = (0., None, C.point(rng, p.shape), 0.)
        p = P.Prob(zero, p.item, p.off, p.pq, None, q)
    elif q[1] is None and q[2] is None:
        q = (q[0], np.zeros(p.shape), None, q[3])
        p = P.Prob(zero, p.item, p.off, p.pq, None, q)
    case.note(**p.desc())
    p.optimum(case)
    h = p.lib_pen()
    v, x = h.solve(p.extra(), return_optimum=True)
    judge(case, p, x, "pen.solve", tol=1e-8)
    case.close(v, p.obj(np.asarray(x)), "pen.solve:value", 1e-8, p.scale)
    x2, v2 = p.lib_pen().proximal_optimum(p.extra())
    case.close(x2, x, "proximal_optimum:argmin", 1e-9, p.sx)
    case.close(v2, v, "proximal_optimum:value", 1e-8, p.scale)
    prob = rr.simple_problem.nonsmooth(p.lib_pen())
    start(rng, prob, p)
    v, x = prob.solve(p.extra(), return_optimum=True, tol=1e-14, min_its=100)
    judge(case, p, x, "simple.nonsmooth", tol=1e-8)
    case.close(v, p.obj(np.asarray(x)), "simple.nonsmooth:value", 1e-8, p.scale)
    case.event("nonsmooth")


# ------------------------------------------------------------------ separable

class SepPen(object):
    """sum of references on disjoint pieces, nothing on the rest"""
    def __init__(self, parts, shape):
        self.parts, self.shape = parts, shape     # (mask index, inner shape, Shifted without quadratic)

    def value(self, x): return sum(h.value(x[g].reshape(s)) for g, s, h in self.parts)
    def outside(self, x): return max([h.outside(x[g].reshape(s)) for g, s, h in self.parts] + [0.])

    def support_gap(self, z, r):
        pin = din = gap = 0.
        free = np.ones(z.shape, bool)
        for g, s, h in self.parts:
            a, b, c = h.h.support_gap(h._x(z[g].reshape(s)), r[g].reshape(s))
            pin, din, gap = max(pin, a), max(din, b), gap + max(c, 0)
            free[g] = False
        if free.any():
            din = max(din, np.abs(r[free]).max())
        return pin, din, gap


class SepItem(object):
    def __init__(self, build, pen, desc):
        self.build, self.pen, self.desc = build, pen, desc


def f_separable(case):
    rng = case.rng
    k = int(rng.integers(1, 4))
    items = []
    for i in range(k):
        kind = C.ALL[rng.integers(0, len(C.ALL))]
        kind, form = P.penalty(rng, kinds=[kind])
        items.append(C.make(rng, kind, form, zero_param=False))
    matrix = rng.random() < 0.15
    r = int(rng.integers(2, 5))
    bands = not matrix and rng.random() < 0.3 and [it for it in items if np.prod(it.shape) % r == 0]
    if bands:                   # bands of columns (or rows) of a matrix, each reshaped for its piece
        items = bands
        widths = [int(np.prod(it.shape)) // r for it in items]
        across = rng.random() < 0.7
        pos, groups = int(rng.integers(0, 2)), []
        for w in widths:
            one = w == 1 and rng.random() < 0.5
            cut = pos if one else slice(pos, pos + w)
            groups.append((slice(None), cut) if across else (cut, slice(None)) if rng.random() < 0.5 else cut)
            pos += w
        pos += int(rng.integers(0, 2))
        total = (r, pos) if across else (pos, r)
    elif matrix:
        items = [it for it in items if len(it.shape) == 1]
        if not items:
            raise Skip("no vector pieces")
        m = max(it.shape[0] for it in items)
        rows = [it for it in items if it.shape[0] == m]
        n = (len(rows) + int(rng.integers(0, 2)), m)
        groups = [int(i) for i in rng.permutation(n[0])[:len(rows)]]
        items, sizes, total = rows, None, n
    else:
        sizes = [int(np.prod(it.shape)) for it in items]
        extra = int(rng.integers(0, 4))
        total = (sum(sizes) + extra,)
        style = rng.integers(0, 3)
        if style == 0:      # contiguous slices
            pos, groups = int(rng.integers(0, extra + 1)), []
            for s in sizes:
                groups.append(slice(pos, pos + s))
                pos += s
        else:
            perm = rng.permutation(total[0])
            pos, groups = 0, []
            for s in sizes:
                ind = perm[pos:pos + s]
                if style == 2:
                    ind = list(int(i) for i in ind)
                groups.append(ind)
                pos += s
    offs = [C.point(rng, it.shape, 0.5) if rng.random() < 0.3 else None for it in items]
    pqs = [P.arr_parts(rng, it.shape, float(np.exp(rng.uniform(-2, 0)))) if rng.random() < 0.3 else None for it in items]
    shapes = [it.shape for it in items] if bands else None if matrix else [it.shape if (len(it.shape) > 1 or rng.random() < 0.3) else None for it in items]
    refs = []
    for it, o, q in zip(items, offs, pqs):
        refs.append(R.Shifted(it.pen, o))

    def atoms(quads=True):
        return [it.build(offset=None if o is None else o.copy(), quadratic=P.lib_quad(q) if quads else None) for it, o, q in zip(items, offs, pqs)]

    pen = SepPen([(g, it.shape, h) for g, it, h in zip(groups, items, refs)], total)

    class Build(object):
        @staticmethod
        def build(offset=None, quadratic=None):
            h = rr.separable(total, atoms(False), groups, shapes=shapes or [])
            return h
    item = SepItem(Build.build, pen, dict(items=[it.desc for it in items], groups=str(groups), offs=offs, pqs=pqs))
    ls = P.loss(rng, total)
    where = ["l", "e", "le"][rng.integers(0, 3)]
    mu = float(np.exp(rng.uniform(-2, 1)))
    lq = P.arr_parts(rng, total, mu / len(where)) if "l" in where else None
    eq = P.arr_parts(rng, total, mu / len(where)) if "e" in where else None
    # the pieces' own quadratics, as one reference
    pieces = []
    for g, it, q in zip(groups, items, pqs):
        if q is None:
            continue
        r = P.ref_quad(q)
        pieces.append((g, it.shape, r))

    class PieceQuad(object):
        coef = 0.
        @staticmethod
        def quad(x): return sum(r.quad(x[g].reshape(s)) for g, s, r in pieces)
        @staticmethod
        def quad_grad(x):
            out = np.zeros_like(x)
            for g, s, r in pieces:
                out[g] = r.quad_grad(x[g].reshape(s)).reshape(x[g].shape)
            return out
    p = P.Prob(ls, item, None, None, lq, eq)
    p.quads.append(PieceQuad)
    case.note(**p.desc())
    p.optimum(case)
    c = value_const(p)
    o = fit_options(rng)
    kw = tols(o)
    mk = lambda: rr.separable_problem(p.lib_loss(), total, atoms(), groups, shapes=shapes or [])
    prob = mk() if rng.random() < 0.5 else rr.separable_problem.fromatom(rr.separable(total, atoms(), groups, shapes=shapes or []), p.lib_loss())
    start(rng, prob, p)
    v, x = prob.solve(p.extra(), return_optimum=True, **o)
    judge(case, p, x, "separable", **kw)
    case.close(v - c, p.obj(np.asarray(x)), "separable:value", 1e-8, p.scale + abs(c))
    prob = rr.simple_problem(p.lib_loss(), rr.separable(total, atoms(), groups, shapes=shapes or [], test_for_overlap=bool(rng.random() < 0.5)))
    x = prob.solve(p.extra(), **o)
    judge(case, p, x, "separable-simple", **kw)
    # penalty values and selectors
    y = p.x
    h = rr.separable(total, atoms(), groups, shapes=shapes or [])
    case.close(h.nonsmooth_objective(y), pen.value(y) + PieceQuad.quad(y), "separable:penalty", 1e-8, 1 + abs(pen.value(y)) + abs(PieceQuad.quad(y)))
    # the parts of the value, with a parameter of the caller's choosing
    lam = float(np.exp(rng.uniform(-1, 1)))
    for part in (lambda a, v: a.seminorm(v, lagrange=lam), lambda a, v: a.constraint(v, bound=lam)):
        try:
            want = sum(part(a, y[g].reshape(it.shape)) for a, g, it in zip(atoms(), groups, items))
        except Exception:
            continue            # some piece has no such part
        case.close(part(h, y), want, "separable:parts", 1e-9, 1 + (abs(want) if np.isfinite(want) else 0))
        case.event("separable:parts")
    for g, it, s in zip(groups, items, h.selectors):
        z = s.linear_map(y) if hasattr(s, "linear_map") else s.affine_map(y)
        case.same(np.asarray(z).reshape(-1), y[g].reshape(-1), "separable:selector")
    case.event("separable:%d" % len(items))
    if matrix or bands:
        case.event("separable:matrix" if matrix else "separable:bands")


# ------------------------------------------------------------------ several penalties behind linear maps

class Multi(object):
    """F(x) + sum_i h_i(D_i x + b_i), F smooth and strongly convex; own ADMM with a dual lower bound"""
    def __init__(self, rng, n_pen, losskind=None, allow=None, nice=False, style=None):
        self.shape = p = (C.dim(rng, 2, 7),)
        self.loss = P.loss(rng, p, losskind or ["quad", "gaussian", "signal", "logistic"][rng.integers(0, 4)])
        mu = float(np.exp(rng.uniform(-1.5, 1)))
        self.lq = P.arr_parts(rng, p, mu / 2) if rng.random() < 0.6 else None
        self.eq = P.arr_parts(rng, p, mu / 2 if self.lq else mu) if self.lq is None or rng.random() < 0.5 else None
        self.quads = [P.ref_quad(q) for q in (self.lq, self.eq)]
        self.mu = sum(q.coef for q in self.quads)
        self.terms = []
        for i in range(n_pen):
            kinds = [k for k in (allow or C.ALL)]
            while True:
                kind, form = P.penalty(rng, kinds=[kinds[rng.integers(0, len(kinds))]])
                it = C.make(rng, kind, form, zero_param=False, min_dim=1, zero_weights=False,
                            param=float(np.exp(rng.uniform(-1.5, 1.))))
                if len(it.shape) == 1 and it.shape[0] <= (p[0] if nice else 8):
                    break
            m = it.shape[0]
            pick = rng.integers(0, 5) if style is None else style[rng.integers(0, len(style))]
            cone = it.form in ("cone", "bound")
            if pick == 0 and m == p[0]:
                D, b, tr = np.eye(m), np.zeros(m), "identity"
            elif pick == 1 and m <= p[0]:
                idx = rng.permutation(p[0])[:m]
                D, b, tr = np.eye(p[0])[idx], np.zeros(m), idx
            elif pick == 2:        # some coordinates, possibly repeated, then a map or nothing
                idx = rng.integers(0, p[0], m if rng.random() < .4 else int(rng.integers(1, 5)))
                if len(idx) == m and rng.random() < .5:
                    D, b, tr = np.eye(p[0])[idx], np.zeros(m), idx
                else:
                    M = np.round(rng.standard_normal((m, len(idx))), 3)
                    D, b, tr = M.dot(np.eye(p[0])[idx]), np.zeros(m), (idx, M)
                if nice:
                    D = np.round(rng.standard_normal((m, p[0])), 3)
                    D, tr = np.round(np.linalg.qr(D.T)[0].T * rng.uniform(0.7, 1.5), 4), "linear"
            else:
                D = np.round(rng.standard_normal((m, p[0])), 3)
                if nice:
                    D = np.round(np.linalg.qr(D.T)[0].T * rng.uniform(0.7, 1.5), 4)
                b, tr = np.zeros(m), "linear"
                if rng.random() < 0.5:
                    b, tr = np.round(rng.standard_normal(m), 3), "affine"
                    if cone:
                        # keep the sets compatible: all contain a common point
                        b = None
            self.terms.append([it, D, b, tr])
        # common feasible point for the constraints
        x0 = C.point(rng, p, 0.3)
        for t in self.terms:
            it, D, b, tr = t
            if b is None or it.form == "cone":
                z0 = np.asarray(it.build().proximal(iq(1., D.dot(x0) + 0.5 * rng.standard_normal(it.shape[0]), 0, 0)))
                t[2] = z0 - D.dot(x0)
                if not isinstance(t[3], tuple):
                    t[3] = "affine" if np.any(t[2]) else t[3]
        self.x0 = x0

    def F(self, x): return self.loss.val(x) + sum(q.quad(x) for q in self.quads)
    def gF(self, x): return self.loss.grad(x) + sum(q.quad_grad(x) for q in self.quads)

    def HF(self, x):
        n = x.size
        if self.loss.name == "signal":
            H = self.loss.desc["c"] * np.eye(n)
        elif self.loss.name.startswith("quad"):
            H = self.loss.desc["c"] * self.loss.design.T.dot(self.loss.design)
        else:
            h = 1e-5
            H = np.array([(self.loss.grad(x + h * e) - self.loss.grad(x - h * e)) / (2 * h) for e in np.eye(n)])
            H = (H + H.T) / 2
        return H + self.mu * np.eye(n)

    def obj(self, x):
        return self.F(x) + sum(it.pen.value(D.dot(x) + b) for it, D, b, _ in self.terms)

    def outside(self, x):
        return max([it.pen.outside(D.dot(x) + b) for it, D, b, _ in self.terms])

    def newton(self, x, lin, rho=0., Q=None, rhs=None, its=60):
        """min F(x) + <lin,x> + rho/2 x'Qx - rho<rhs,x>"""
        f = lambda x: self.F(x) + lin.dot(x) + (0 if Q is None else rho / 2 * x.dot(Q).dot(x) - rho * rhs.dot(x))
        for _ in range(its):
            g = self.gF(x) + lin + (0 if Q is None else rho * (Q.dot(x) - rhs))
            if np.abs(g).max() < 1e-11 * (1 + np.abs(lin).max() + np.abs(x).max()):
                break
            H = self.HF(x) + (0 if Q is None else rho * Q)
            d = np.linalg.solve(H, g)
            t, fx = 1., f(x)
            while not f(x - t * d) <= fx - 1e-4 * t * g.dot(d) + 1e-12 * (1 + abs(fx)) and t > 1e-8:
                t /= 2
            x = x - t * d
        return x

    def optimum(self, case, its=1500):
        pens = [it.build() for it, _, _, _ in self.terms]
        Q = sum(D.T.dot(D) for _, D, _, _ in self.terms)
        x = self.x0.copy()
        u = [np.zeros(D.shape[0]) for _, D, _, _ in self.terms]
        z = [D.dot(x) + b for _, D, b, _ in self.terms]
        rho = max(self.mu, np.trace(self.HF(x)) / x.size / (1e-9 + np.trace(Q) / x.size))
        for k in range(its):
            rhs = sum(D.T.dot(zi - b - ui) for (_, D, b, _), zi, ui in zip(self.terms, z, u))
            x = self.newton(x, np.zeros_like(x), rho, Q, rhs)
            znew = []
            for i, (it, D, b, _) in enumerate(self.terms):
                v = D.dot(x) + b + u[i]
                zi = np.asarray(pens[i].proximal(iq(rho, v, 0, 0)))
                u[i] = v - zi
                znew.append(zi)
            prim = max(np.abs(D.dot(x) + b - zi).max() for (_, D, b, _), zi in zip(self.terms, znew))
            dual = max(np.abs(a - c).max() for a, c in zip(z, znew))
            z = znew
            if prim < 1e-11 and dual < 1e-11:
                break
            if k % 50 == 49 and k < 600:
                if prim > 10 * dual: rho *= 2; u = [v / 2 for v in u]
                elif dual > 10 * prim: rho /= 2; u = [v * 2 for v in u]
        # lower bound from the multipliers y_i in the subdifferential of h_i at z_i
        y = [rho * v for v in u]
        lin = sum(D.T.dot(yi) for (_, D, _, _), yi in zip(self.terms, y))
        xs = self.newton(x, lin)
        lb = self.F(xs)
        for (it, D, b, _), zi, yi in zip(self.terms, z, y):
            pin, din, gap = it.pen.support_gap(zi, yi)
            s = 1 + np.abs(zi).max() + np.abs(yi).max()
            if pin > 1e-7 * s or din > 1e-6 * s * 4 or gap > 1e-6 * s * s * 4:
                case.event("uncertified")
                raise Skip("prox not certified")
            lb += yi.dot(D.dot(xs) + b) - (zi.dot(yi) - it.pen.value(zi))
        sc = 1 + abs(lb) + abs(self.F(np.zeros(self.shape)))
        # F + h at the split point bounds from above up to infeasibility
        ub = self.F(x) + sum(it.pen.value(zi) for (it, _, _, _), zi in zip(self.terms, z))
        if abs(ub - lb) > 1e-7 * sc or np.abs(x - xs).max() > 1e-4 * (1 + np.abs(x).max()):
            case.event("uncertified")
            raise Skip("optimum not certified")
        case.event("certified")
        self.x, self.val, self.scale = xs, lb, sc
        self.ynorm = 1 + max(np.abs(v).max() for v in y)
        self.sx = 1 + np.abs(xs).max()
        return xs

    # library objects
    def lib_loss(self):
        l = self.loss.build()
        if self.lq is not None:
            l.quadratic = P.lib_quad(self.lq)
        return l

    def lib_terms(self, rng):
        out = []
        for it, D, b, tr in self.terms:
            atom = it.build()
            if isinstance(tr, str) and tr == "identity" and not np.any(b):
                out.append(atom)
                continue
            cls = type(atom)
            if isinstance(tr, str):
                T = rr.affine_transform(D.copy(), b.copy() if np.any(b) else None)
            elif isinstance(tr, tuple):
                T = rr.selector(np.array(tr[0]), self.shape, rr.affine_transform(tr[1].copy(), b.copy()) if np.any(b) else rr.astransform(tr[1].copy()))
            else:
                T = rr.selector(np.array(tr), self.shape) if not np.any(b) else rr.affine_transform(D.copy(), b.copy())
            out.append(rr.affine_atom(atom, T) if hasattr(rr, "affine_atom") else affine_atom(atom, T))
        return out

    def desc(self):
        return dict(loss=self.loss.name, l=self.loss.desc, lq=self.lq, eq=self.eq, terms=[(it.desc, D, b, str(tr)) for it, D, b, tr in self.terms])


from regreg.atoms import affine_atom as _seminorm_affine  # noqa
from regreg.atoms.cones import cone as _cone, affine_cone as _cone_affine  # noqa


def affine_atom(atom, T):
    if isinstance(atom, _cone):
        return _cone_affine(atom, T)
    return _seminorm_affine(atom, T)


def judge_multi(case, p, x, key, tol=2e-5, xtol=3e-3, feas=1e-4):
    x = np.asarray(x, float)
    case.check(x.shape == tuple(p.shape), key + ":shape", "%s %s" % (x.shape, p.shape))
    case.check(np.isfinite(x).all(), key + ":finite", x)
    case.leq(p.outside(x), 0, key + ":infeasible", feas, p.sx, "x=%s optimum %s" % (x, p.x))
    case.leq(p.obj(x), p.val, key + ":suboptimal", tol * p.ynorm, p.scale, "x=%s optimum=%s" % (x, p.x))
    # what the tolerance on the value allows, by strong convexity
    near = np.sqrt(2 * tol * p.ynorm * p.scale / p.mu)
    case.close(x, p.x, key + ":argmin", max(xtol, near / p.sx), p.sx)


def f_container(case):
    rng = case.rng
    k = [1, 2, 2, 3][rng.integers(0, 4)]
    container_case(case, k, Multi(rng, k))


def f_one(case):
    """a single penalty on the coefficients, some of them, or a map of some of them"""
    container_case(case, 1, Multi(case.rng, 1, style=[0, 1, 1, 2, 2, 2]))
    case.event("one")


class MultiProx(Multi):
    """only quadratics are smooth: what the proximal map of a container minimises"""
    def add(self, parts):
        self.req = parts
        self.quads.append(P.ref_quad(parts))
        self.mu += parts[0]

    def F(self, x): return sum(q.quad(x) for q in self.quads)
    def gF(self, x): return sum(q.quad_grad(x) for q in self.quads)
    def HF(self, x): return self.mu * np.eye(x.size)


def f_container_prox(case):
    """the proximal map of a container, with and without solver controls, asked repeatedly"""
    rng = case.rng
    k = [1, 1, 2, 2, 3][rng.integers(0, 5)]
    p = MultiProx(rng, k, style=[0, 1, 1, 2, 2, 3, 3])
    base, mu = list(p.quads), p.mu
    args = p.lib_terms(rng) + ([p.lib_loss()] if p.lq is not None or rng.random() < .5 else [])
    prob = rr.container(*[args[i] for i in rng.permutation(len(args))])
    if p.eq is not None:
        prob.quadratic = P.lib_quad(p.eq)
    for rep in range(int(rng.integers(1, 3))):
        p.quads, p.mu = list(base), mu
        c = float(np.exp(rng.uniform(-1, 2)))
        q = (c, C.point(rng, p.shape, .5), C.point(rng, p.shape, .5) if rng.random() < .7 else np.zeros(p.shape), 0.)
        p.add(q)
        case.note(**dict(p.desc(), request=q))
        p.optimum(case)
        control = [None, {}, dict(tol=1e-15), dict(max_its=8000, min_its=30)][rng.integers(0, 4)]
        kept = None if control is None else dict(control)
        req = iq(c, q[1].copy(), q[2].copy(), 0)
        x = prob.proximal(req, control) if control is not None else prob.proximal(req)
        case.same(req.center, q[1], "container.proximal:request-changed")
        case.same(req.linear_term, q[2], "container.proximal:request-changed")
        case.check(control == kept, "container.proximal:control-changed", str(control))
        x = np.asarray(x, float)
        case.check(x.shape == tuple(p.shape) and np.isfinite(x).all(), "container.proximal:shape", str(x))
        if len(args) == k and rng.random() < .4:      # without a loss the proximal map is the solution
            y = prob.solve(iq(c, q[1].copy(), q[2].copy(), 0), tol=1e-12, min_its=10, max_its=500)
            case.close(y, p.x, "container.solve:no-loss", 1e-3, p.sx)
            case.event("container:no-loss")
        # the point comes from multipliers: near the minimiser, inside the domain only up to their accuracy
        case.close(x, p.x, "container.proximal", 1e-3, p.sx)
    case.event("container_prox:%d" % k)


def container_case(case, k, p):
    rng = case.rng
    case.note(**p.desc())
    p.optimum(case)
    args = p.lib_terms(rng) + [p.lib_loss()]
    args = [args[i] for i in rng.permutation(len(args))]
    prob = rr.container(*args)
    if rng.random() < 0.5:
        v, x = prob.solve(P.lib_quad(p.eq), return_optimum=True, tol=1e-12, min_its=20, max_its=1000)
    else:
        if p.eq is not None:
            prob.quadratic = P.lib_quad(p.eq)
        s = rr.FISTA(prob)
        s.fit(tol=1e-12, min_its=20, max_its=1000)
        x = prob.coefs
        v = prob.objective(x)
    judge_multi(case, p, x, "container")
    c = p.loss.build().smooth_objective(np.zeros(p.shape), "func") - p.loss.val(np.zeros(p.shape))
    case.close(v - c, p.obj(np.asarray(x)), "container:value", 1e-7, p.scale + abs(c))
    case.event("container:%d" % k)


def f_dual(case):
    """min f(x) + sum h_i(D_i x + b_i) through its dual, f a quadratic or a penalty with a quadratic"""
    rng = case.rng
    p = Multi(rng, int(rng.integers(1, 3)), losskind="signal")
    own = None
    if rng.random() < 0.5:
        # f itself carries a simple penalty: treat it as one more term
        kind = ["l1norm", "l2norm", "nonnegative", "supnorm"][rng.integers(0, 4)]
        mk = None
        for _ in range(50):
            it = C.make(rng, kind, "lagrange" if kind != "nonnegative" else None, zero_param=False, param=float(np.exp(rng.uniform(-1, 1))))
            if it.shape == p.shape:
                mk = it
                break
        if mk is not None and not any(t[0].form in ("cone", "bound") for t in p.terms):
            own = mk
            p.terms.append([own, np.eye(p.shape[0]), np.zeros(p.shape[0]), "identity"])
    case.note(own=own is not None, **p.desc())
    p.optimum(case)
    # all quadratics of F in one
    q = iq(p.loss.desc["c"], p.loss.desc["Z"].copy(), 0, 0)
    for a in (p.lq, p.eq):
        if a is not None:
            q = q + P.lib_quad(a)
    if own is not None:
        own_term = p.terms.pop()
        f = own.build(quadratic=q)
    else:
        own_term = None
        f = rr.zero(p.shape, quadratic=q) if hasattr(rr, "zero") else __import__("regreg.atoms.cones", fromlist=["zero"]).zero(p.shape, quadratic=q)
    terms = p.lib_terms(rng)
    if own_term is not None:
        p.terms.append(own_term)
    m = rng.integers(0, 2)
    if m == 0:
        d = rr.dual_problem.fromprimal(f, *terms)
    else:
        from regreg.problems.dual_problem import stacked_dual
        T, atom = stacked_dual(p.shape, *terms)
        d = rr.dual_problem(f.conjugate, T, atom)
    v, x = d.solve(return_optimum=True, tol=1e-14, min_its=200, max_its=5000)
    judge_multi(case, p, x, "dual")
    # strong duality: the optimal dual value is minus the optimal primal value
    case.close(-v, p.val + p.loss.desc["c"] * 0, "dual:value", 1e-5 * p.ynorm, p.scale)
    case.event("dual:own" if own is not None else "dual")



NT = 1e-4
@contextlib.contextmanager
def tight_fista():
    """nesta / tfocs solve their inner problems only to the accuracy of the smoothing parameter (documented), which says
    nothing about how far a given answer is from the optimum; the harness asks the inner solver for more"""
    from regreg.algorithms import FISTA
    fit = FISTA.fit

    def tighter(self, *a, **k):
        k["tol"] = min(k.get("tol", 1.), 1e-12)
        return fit(self, *a, **k)
    FISTA.fit = tighter
    try:
        yield
    finally:
        FISTA.fit = fit


def f_nesta(case):
    rng = case.rng
    p = Multi(rng, 1, nice=True, allow=[k for k in C.SEMINORMS + ["nonnegative", "zero_constraint", "l2_epigraph"]])
    with_prox = rng.random() < 0.4
    if with_prox:
        for _ in range(50):
            it = C.make(rng, ["l1norm", "nonnegative", "l2norm"][rng.integers(0, 3)], "lagrange", zero_param=False, param=float(np.exp(rng.uniform(-2, 0))))
            if it.shape == p.shape:
                p.terms.append([it, np.eye(p.shape[0]), np.zeros(p.shape[0]), "identity"])
                if it.form == "cone" and p.terms[0][0].form in ("cone", "bound"):
                    raise Skip("two constraint sets")
                break
        else:
            with_prox = False
    case.note(**p.desc())
    p.optimum(case)
    terms = p.lib_terms(rng)
    t0 = p.terms[0]
    if not isinstance(terms[0], (_seminorm_affine, _cone_affine)) and not hasattr(terms[0], "dual"):
        raise Skip("no dual")
    eps = np.repeat(0.5 ** np.arange(1, 8), 10)
    with tight_fista():
        x, u = rr.nesta(p.lib_loss(), terms[1] if with_prox else None, terms[0], epsilon=eps, tol=1e-12, max_iters=200,
                        min_iters=60, coef_stop=bool(rng.random() < 0.3), quadratic=P.lib_quad(p.eq),
                        initial_primal=None if rng.random() < 0.6 else np.zeros(p.shape))
    judge_multi(case, p, x, "nesta", tol=NT, xtol=10*NT, feas=NT)
    case.event("nesta:prox" if with_prox else "nesta")


def f_admm(case):
    rng = case.rng
    p = Multi(rng, 1, nice=True)
    case.note(**p.desc())
    p.optimum(case)
    it, D, b, tr = p.terms[0]
    T = rr.affine_transform(D.copy(), b.copy()) if np.any(b) or rng.random() < 0.3 else (rr.astransform(D.copy()) if rng.random() < 0.5 else D.copy())
    rho = float(np.exp(rng.uniform(-1, 1))) * (1 + p.mu)
    A = admm_problem(p.lib_loss(), it.build(), T, rho, quadratic=P.lib_quad(p.eq), fit_args=dict(tol=1e-13, min_its=10))
    A.solve(niter=150)
    A.solve(niter=150)
    r = np.abs(D.dot(A.loss_coefs) + b - A.atom_coefs).max()
    if r > 1e-5 * p.sx:
        # slow convergence is not an error; but the iterates must then still be moving towards agreement
        A.solve(niter=1500)
        r = np.abs(D.dot(A.loss_coefs) + b - A.atom_coefs).max()
    case.leq(r, 0, "admm:split", 1e-3, p.sx)
    judge_multi(case, p, A.loss_coefs, "admm", tol=1e-3, xtol=2e-2, feas=2e-3)
    case.event("admm")


def f_newton(case):
    rng = case.rng
    kinds = [k for k in C.ALL if k not in C.BLOCK + C.SVD + C.SGB]
    p = P.generate(rng, kind=kinds[case.index % len(kinds)])
    if len(p.shape) > 1 or p.loss.name.startswith("huber") or p.loss.name in ("smoothed",):
        raise Skip("needs a twice differentiable loss of a vector")
    case.note(**p.desc())
    p.optimum(case)
    n = p.shape[0]
    h = 1e-5
    H = np.array([(p.loss.grad(h * e) - p.loss.grad(-h * e)) / 2 / h for e in np.eye(n)])
    H = (H + H.T) / 2 + 1e-3 * np.eye(n)
    H0 = H.copy()
    q = quasi_newton(p.lib_loss(), p.lib_pen(), H, quadratic=p.extra())
    x = q.solve(niter=100, tol=1e-12, min_its=20)
    judge(case, p, x, "newton", tol=1e-6, xtol=2e-3)
    case.same(H, H0, "newton:initial-hessian")
    case.event("newton")


def f_tfocs(case):
    """min f(v) + quadratic(v) + h(Dv + a) through smoothing of the conjugate of f"""
    rng = case.rng
    p = Multi(rng, 1, losskind="signal", nice=True, allow=["zero_constraint", "l1norm", "l2norm", "nonnegative", "supnorm"])
    own = None
    for _ in range(60):
        it = C.make(rng, ["l1norm", "l2norm", "supnorm"][rng.integers(0, 3)], "lagrange", zero_param=False, param=float(np.exp(rng.uniform(-1, 1))))
        if it.shape == p.shape:
            own = it
            break
    if own is None:
        raise Skip("no matching penalty")
    p.lq = p.eq = None
    p.quads = []
    p.mu = 0.
    p.loss.desc["c"] = max(p.loss.desc["c"], 0.3)
    q = (p.loss.desc["c"], p.loss.desc["Z"], None, 0.)
    r = P.ref_quad(q)
    p.loss.val, p.loss.grad = r.quad, r.quad_grad
    p.terms.append([own, np.eye(p.shape[0]), np.zeros(p.shape[0]), "identity"])
    case.note(**p.desc())
    p.optimum(case)
    own_term = p.terms.pop()
    term = p.lib_terms(rng)[0]
    p.terms.append(own_term)
    T, dual_atom = term.dual
    h0, D, b, tr = p.terms[0]
    if np.any(b):
        # the shift may sit in the dual atom (affine atoms) or in the transform handed over
        if rng.random() < 0.5:
            T, dual_atom = rr.affine_transform(D.copy(), b.copy()), h0.build().conjugate
    eps = np.repeat(0.5 ** np.arange(1, 8), 10)
    with tight_fista():
        x, u = rr.tfocs(own.build(), T, dual_atom, epsilon=eps, tol=1e-13, coef_tol=1e-9, quadratic=P.lib_quad(q))
    judge_multi(case, p, x, "tfocs", tol=NT, xtol=10*NT, feas=NT)
    case.event("tfocs")


FAMILIES = [
    Family("single", f_single, 180, 6000),
    Family("smooth", f_smooth, 36, 1200),
    Family("nonsmooth", f_nonsmooth, 60, 1500),
    Family("separable", f_separable, 60, 2500),
    Family("container", f_container, 16, 700),
    Family("container_prox", f_container_prox, 40, 1500, need=["container_prox:1", "container_prox:2"], timeout=120),
    Family("one", f_one, 48, 2000, need=["one"], timeout=120),
    Family("dual", f_dual, 24, 900),
    Family("nesta", f_nesta, 20, 900),
    Family("tfocs", f_tfocs, 24, 1500),
    Family("admm", f_admm, 12, 500),
    Family("newton", f_newton, 40, 1500),
]
