"""P17 evaluation has no side effects: histories of questions against fresh objects, with every array handed in or out watched.

A builder makes the same object again from the same seed.  A random sequence of questions is put to one long-lived object;
each answer is compared with that of a fresh object asked only this question; every array passed in, every array handed
out earlier and every object derived earlier (copies, conjugates, subsamples, Hessians ...) is checked after each step.
"""
from copy import copy
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
import regreg.affine as ra
from regreg.identity_quadratic import identity_quadratic as iq
import regreg.smooth.mglm as M
from rv.core import Family, Skip, Violation
from rv import catalog as C, losses as S, problems as P
from rv.props import p04, p07, p08, p09, p10, p13, p19, p22

LOOSE = 1e-6


class Answer(object):
    """an answer made of numbers, plus arrays to keep watching and derived objects (object, probe) to ask again"""
    def __init__(self, value, derived=None):
        self.value, self.derived = value, derived


def flat(v):
    """the numbers in an answer"""
    if isinstance(v, (tuple, list)):
        out = []
        for x in v:
            out.extend(flat(x))
        return out
    if sp.issparse(v):
        return [v.toarray()]
    if v is None or isinstance(v, (str, bool)):
        return [np.array(repr(v))]
    return [np.asarray(v)]


def arrays(v):
    """the arrays in an answer, as they are"""
    if isinstance(v, (tuple, list)):
        return [a for x in v for a in arrays(x)]
    if isinstance(v, np.ndarray):
        return [v]
    if sp.issparse(v) and hasattr(v, "data"):
        return [v.data]
    return []


def agree(case, a, b, key, tol, msg=""):
    a, b = flat(a), flat(b)
    case.check(len(a) == len(b), key + ":structure", msg)
    for x, y in zip(a, b):
        if x.dtype.kind in "OU" or y.dtype.kind in "OU":
            case.check(x.tolist() == y.tolist(), key, "%s != %s %s" % (x, y, msg))
        elif tol:
            case.close(x, y, key, tol, msg=msg)
        else:
            case.same(x, y, key, msg)


class Life(object):
    """build(rng) -> (object, questions, mutators): questions [(name, args(rng), ask(obj, *args) -> value | Answer, tol)]"""

    def __init__(self, case, build, seed):
        self.case, self.build, self.seed = case, build, seed
        self.cache, self.own, self.buffers, self.refilled = {}, {}, None, False
        self.obj, self.qs, self.muts = self.fresh()
        pool = np.random.default_rng([seed, 1])
        self.args = [[q[1](pool) for _ in range(2)] for q in self.qs]
        self.watch, self.derived = [], []

    def fresh(self):
        return self.build(np.random.default_rng([self.seed, 0]))

    def ask(self, obj, i, j):
        name, _, fn, tol = self.qs[i]
        args = self.args[i][j]
        given = self.given = copyargs(args)
        if self.buffers is not None and self.case.rng.random() < .4:        # the caller keeps one array and refills it
            for k, a in enumerate(given):
                if type(a) is np.ndarray and a.dtype == float and a.ndim:
                    b = self.buffers.setdefault((a.shape, k), np.empty(a.shape))
                    b[...] = a
                    given[k] = b
                    self.refilled = True
        np.random.seed(5)
        ans = fn(obj, *given)
        for a, b in zip(leaves(given), leaves(args)):
            self.case.same(a, b, "argument-changed:" + name)
        return ans

    def expected(self, i, j):
        if (i, j) not in self.cache:
            o, _, _ = self.fresh()
            a = self.ask(o, i, j)
            v = a.value if isinstance(a, Answer) else a
            self.cache[i, j] = [x.copy() for x in flat(v)]
        return self.cache[i, j]

    def step(self, i, j, obj=None, key="history"):
        case, (name, _, fn, tol) = self.case, self.qs[i]
        want = self.expected(i, j)
        self.buffers, self.refilled = self.own, False
        ans = self.ask(self.obj if obj is None else obj, i, j)
        self.buffers = None
        v = ans.value if isinstance(ans, Answer) else ans
        agree(case, v, want, "%s:%s" % (key, name), tol)
        case.event("asked")
        case.event("q:" + name)
        self.verify(name)
        if self.case.rng.random() < .4:                # the caller goes on using its own buffers
            used = scribble(self.given)
            if used and self.case.rng.random() < .5 and name != "data":
                scribble(arrays(v))
            if used:
                case.event("buffers-reused")
                self.verify(name + "+reuse")
                return
        if self.refilled:
            case.event("buffers-refilled")
            return
        for a in arrays(v):
            self.watch.append((name, a, a.copy()))
        if isinstance(ans, Answer) and ans.derived is not None:
            o, probe = ans.derived
            self.derived.append((name, o, probe, [x.copy() for x in flat(probe(o))], tol))
            case.event("derived")

    def verify(self, after):
        for name, a, was in self.watch[-60:]:
            self.case.same(a, was, "answer-overwritten:%s" % name, "after %s" % after)
        for name, o, probe, was, tol in self.derived[-6:]:
            agree(self.case, probe(o), was, "derived-changed:%s" % name, tol, "after %s" % after)


def copyargs(args):
    return [copy(a) if isinstance(a, iq) else a.copy() if hasattr(a, "copy") else a for a in args]


def scribble(args):
    done = False
    for a in args:
        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.flags.writeable:
            a *= -1.5
            a += .25
            done = True
    return done


def leaves(args):
    out = []
    for a in args:
        if isinstance(a, iq):
            out.extend([np.asarray(v, float) for v in (a.coef, 0 if a.center is None else a.center, 0 if a.linear_term is None else a.linear_term, a.constant_term)])
        elif sp.issparse(a):
            out.append(a.toarray())
        elif isinstance(a, (np.ndarray, list, float, int)):
            out.append(np.asarray(a))
    return out


# -- penalties ---------------------------------------------------------------

def quad(rng, shape):
    return C.quad_obj((float(np.exp(rng.uniform(-1, 1))), C.point(rng, shape), C.point(rng, shape) if rng.random() < .5 else None, 0.))


def penalty_life(kind):
    def build(rng):
        form = ["lagrange", "bound"][rng.integers(0, 2)]
        item = C.make(rng, kind, form)
        obj, ref = C.attach(rng, item)
        return obj, atom_questions(obj, item.shape, (kind, item.form) not in C.NOPROX, kind, item), atom_mutators(obj, item)
    return build


def atom_questions(obj, shape, prox, kind, item):
    x = lambda r: [C.point(r, shape)]
    q = lambda r: [quad(r, shape)]
    tol = 0 if kind not in C.SVD and "nuclear" not in kind and "operator" not in kind else 1e-9
    qs = [("value", x, lambda o, v: o.nonsmooth_objective(v), tol),
          ("value-feasible", x, lambda o, v: o.nonsmooth_objective(v, check_feasibility=True), 0),
          ("repr", lambda r: [], lambda o: (str(o), repr(o.quadratic)), 0),
          ("copy", x, lambda o, v: derived(copy(o), lambda c: c.nonsmooth_objective(v)), tol),
          ("apply_offset", x, lambda o, v: o.apply_offset(v), 0)]
    if prox:
        qs += [("proximal", q, lambda o, v: o.proximal(v), tol),
               ("proximal2", q, lambda o, v: o.proximal(v), tol),
               ("copy-proximal", q, lambda o, v: derived(copy(o), lambda c: c.proximal(v)), tol)]
    if item.form in ("lagrange", "bound"):
        qs += [("seminorm", x, lambda o, v: o.seminorm(v, **{item.form: 1.}) if item.form == "lagrange" else o.seminorm(v, lagrange=1.), tol)] if kind != "mixed_lasso" else []
    if kind not in C.OTHER:
        def conj(o, v):
            c = o.conjugate
            if hasattr(c, "proximal") and type(c).__name__ != "smooth_conjugate":
                return derived(c, lambda c: c.nonsmooth_objective(v))
            return derived(c, lambda c: c.smooth_objective(v, "both"))
        if prox or obj.quadratic.coef in (0, None):
            qs.append(("conjugate", x, conj, tol))

        def env(o, v, s):
            return derived(o.smoothed(s), lambda e: e.smooth_objective(v, "both"))
        qs.append(("smoothed", lambda r: [C.point(r, shape), iq(float(np.exp(r.uniform(-1, 1))), C.point(r, shape), 0, 0)], env, max(tol, 1e-10)))
        if obj.quadratic.coef not in (0, None):
            qs = [a for a in qs if a[0] != "smoothed"]
        if (kind, item.form) in C.NOPROX or kind in ("slope", "slope_conjugate", "sparse_group_lasso", "sparse_group_lasso_dual",
                                                       "sparse_group_block", "sparse_group_block_dual", "block_max", "block_sum"):
            qs = [a for a in qs if a[0] not in ("smoothed",)] if not prox or (kind, {"lagrange": "bound", "bound": "lagrange"}.get(item.form)) in C.NOPROX else qs
    return qs


def derived(o, probe):
    return Answer(probe(o), (o, probe))


def atom_mutators(obj, item):
    m = [("quadratic", lambda o, r: setattr(o, "quadratic", quad(r, item.shape))), ("offset", lambda o, r: setattr(o, "offset", C.point(r, item.shape)))]
    if item.form in ("lagrange", "bound"):
        m.append((item.form, lambda o, r: setattr(o, item.form, float(r.uniform(.1, 3)))))
    m.append(("center in place", lambda o, r: inplace(o.quadratic.center)))
    m.append(("offset in place", lambda o, r: inplace(o.offset)))
    return m


def inplace(a):
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        a += 1.


def mixed_life(dual):
    def build(rng):
        from rv.props.p01 import gen_mixed
        st, w, full = gen_mixed(rng)
        n = len(st)
        obj = (rr.mixed_lasso_dual if dual else rr.mixed_lasso)(st.copy(), float(rng.uniform(.1, 2)), weights=dict(w), offset=C.point(rng, (n,)) if rng.random() < .4 else None)

        class Item(object):
            shape, form = (n,), "mixed"
        qs = atom_questions(obj, (n,), True, "mixed_lasso", Item)
        qs = [a for a in qs if a[0] not in ("apply_offset", "smoothed", "repr")]
        return obj, qs, [("quadratic", lambda o, r: setattr(o, "quadratic", quad(r, (n,))))]
    return build


# -- losses ------------------------------------------------------------------

def so(key, x, tol=0, **kw):
    """value, gradient, both"""
    return [(key + ":func", x, lambda o, v, *a: o.smooth_objective(v, "func", **dict(zip(kw, a))), tol),
            (key + ":grad", x, lambda o, v, *a: o.smooth_objective(v, "grad", **dict(zip(kw, a))), tol),
            (key + ":both", x, lambda o, v, *a: o.smooth_objective(v, "both", **dict(zip(kw, a))), tol)]


def saturated_life(fam):
    def build(rng):
        n = C.dim(rng, 2, 8)
        if fam == "cox":
            t, d = p19.data(rng, n)
            obj = rr.cox_loglike((n,), t, d, coef=S.coef(rng), offset=S.offs(rng, n), case_weights=S.weights(rng, n))
            e = lambda r: [np.clip(np.asarray(p19.eta(r, n), float), -20, 20)]
        else:
            s = S.Spec(rng, fam, n)
            obj = s.lib()
            e = lambda r: [S.etas(r, fam, n, wild=False)]
        w = lambda r: e(r) + [np.round(r.uniform(.1, 2, n), 2)]
        idx = lambda r: e(r) + [np.nonzero(r.random(n) < .7)[0] if r.random() < .5 else r.random(n) < .8]
        qs = so("eval", e) + so("weighted", w, case_weights=1) + so("eval2", e)
        qs += [("copy", e, lambda o, v: derived(copy(o), lambda c: c.smooth_objective(v, "both")), 0),
               ("subsample", idx, lambda o, v, i: derived(o.subsample(i), lambda c: c.smooth_objective(v, "both")), 0),
               ("data", lambda r: [], lambda o: o.data if isinstance(o.data, tuple) else np.asarray(o.data), 0),
               ("value", e, lambda o, v: o.objective(v), 0)]
        if fam == "cox":
            qs.append(("hessian_mult", lambda r: e(r) + [r.standard_normal(n)], lambda o, v, u: o.hessian_mult(v, u), 0))
        elif hasattr(obj, "hessian") and not fam.startswith("huber"):
            qs.append(("hessian", e, lambda o, v: o.hessian(v), 0))
        if hasattr(obj, "mean_function") and not fam.startswith(("cox", "huber")):
            qs.append(("mean", e, lambda o, v: o.mean_function(v), 0))
        muts = [("coef", lambda o, r: setattr(o, "coef", 2.5 * o.coef)), ("quadratic", lambda o, r: setattr(o, "quadratic", quad(r, (n,)))),
                ("offset", lambda o, r: setattr(o, "offset", r.standard_normal(n))), ("offset in place", lambda o, r: inplace(o.offset)),
                ("weights in place", lambda o, r: inplace(getattr(o, "case_weights", None)))]
        return obj, qs, muts
    return build


def glm_life(fam):
    def build(rng):
        D = make_data(rng, fam)
        w = None if rng.random() < .5 else np.round(rng.uniform(.1, 2, D.n), 2)
        obj = D.glm(w=w)
        x = lambda r: [D.points(r, 1)[0]]
        idx = lambda r: x(r) + [np.nonzero(r.random(D.n) < .8)[0] if r.random() < .5 else r.random(D.n) < .8]
        qs = so("eval", x) + so("eval2", x)
        qs += [("copy", x, lambda o, v: derived(copy(o), lambda c: c.smooth_objective(v, "both")), 0),
               ("subsample", idx, lambda o, v, i: derived(o.subsample(i), lambda c: c.smooth_objective(v, "both")), 0),
               ("linear_predictor", x, lambda o, v: o.linear_predictor(v), 0),
               ("gradient", x, lambda o, v: o.gradient(v), 0),
               ("objective", x, lambda o, v: o.objective(v), 0),
               ("data", lambda r: [], lambda o: [np.asarray(a.toarray() if sp.issparse(a) else a) for a in flatdata(o.data)], 0)]
        if not fam.startswith("huber"):
            qs.append(("hessian", x, lambda o, v: o.hessian(v), 1e-12))
        qs.append(("solve", lambda r: [iq(1., np.zeros(D.p), r.standard_normal(D.p), 0)], lambda o, q: o.solve(q, tol=1e-13, min_its=60), 1e-4))
        muts = [("coef", lambda o, r: setattr(o, "coef", 2.5)), ("quadratic", lambda o, r: setattr(o, "quadratic", quad(r, (D.p,)))),
                ("offset", lambda o, r: setattr(o, "offset", r.standard_normal(D.p))), ("coefs", lambda o, r: inplace(o.coefs)),
                ("saturated coef", lambda o, r: setattr(o.saturated_loss, "coef", 3.))]
        return obj, qs, muts
    return build


def flatdata(d):
    return [x for a in d for x in (flatdata(a) if isinstance(a, tuple) else [a])]


def make_data(rng, fam):
    n, p = int(rng.integers(3, 9)), int(rng.integers(1, 5))
    return p07.Data(rng, fam, n, p)


def multi_life(which):
    def build(rng):
        n = C.dim(rng, 2, 6)
        if which < 2:
            J = int(rng.integers(2, 5))
            q = J - which
            K = rr.multinomial_baseline_loglike if which else M.multinomial_loglike
            obj = K((n, q), p22.counts(rng, n, J), coef=S.coef(rng), offset=p22.offs2(rng, n, q), case_weights=S.weights(rng, n))
            e = lambda r: [np.asarray(p22.etas(r, n, q), float)]
            shape = (n, q)
        else:
            common = which == 2
            specs, refs, sizes, c = p22.build_stack(rng, common, n, int(rng.integers(1, 4)))
            import regreg.smooth.glm as G
            tot = n if common else sum(sizes)
            obj = (M.stacked_common_loglike if common else G.stacked_loglike)(p22.lib_losses(specs), coef=c, case_weights=S.weights(rng, tot))
            e = lambda r: [p22.points(r, specs, sizes, common, 1)[0]]
            n2 = tot
            shape = (n, len(specs)) if common else (tot,)
        N = n if which < 3 else n2
        w = lambda r: e(r) + [np.round(r.uniform(.1, 2, N), 2)]
        idx = lambda r: e(r) + [r.random(N) < .8]
        qs = so("eval", e) + so("weighted", w, case_weights=1) + so("eval2", e)
        qs += [("copy", e, lambda o, v: derived(copy(o), lambda c: c.smooth_objective(v, "both")), 0),
               ("subsample", idx, lambda o, v, i: derived(o.subsample(i), lambda c: c.smooth_objective(v, "both")), 0)]
        muts = [("coef", lambda o, r: setattr(o, "coef", 2.5)), ("quadratic", lambda o, r: setattr(o, "quadratic", quad(r, shape))),
                ("offset", lambda o, r: setattr(o, "offset", r.standard_normal(shape))), ("offset in place", lambda o, r: inplace(o.offset))]
        return obj, qs, muts
    return build


def mglm_life(rng):
    n, p, J = C.dim(rng, 3, 7), C.dim(rng, 1, 4), int(rng.integers(2, 5))
    bl = bool(rng.random() < .5)
    X, A, kind = S.design(rng, n, p, ("dense", "F", "strided", "csr"))
    obj = M.mglm.multinomial(X, p22.counts(rng, n, J), case_weights=S.weights(rng, n), baseline=bl)
    x = lambda r: [np.clip(C.point(r, (p, J - bl)), -1, 1)]
    qs = so("eval", x) + so("eval2", x)
    idx = lambda r: x(r) + [r.random(n) < .8]
    qs += [("copy", x, lambda o, v: derived(copy(o), lambda c: c.smooth_objective(v, "both")), 0),
           ("subsample", idx, lambda o, v, i: derived(o.subsample(i), lambda c: c.smooth_objective(v, "both")), 0),
           ("gradient", x, lambda o, v: o.gradient(v), 0), ("linear_predictor", x, lambda o, v: o.linear_predictor(v), 0)]
    muts = [("coef", lambda o, r: setattr(o, "coef", 2.5)), ("quadratic", lambda o, r: setattr(o, "quadratic", quad(r, (p, J - bl))))]
    return obj, qs, muts


def other_loss_life(name):
    def build(rng):
        if name == "quadratic":
            n = C.dim(rng, 1, 6)
            B = rng.standard_normal((n, n))
            kind = rng.integers(0, 3)
            obj = [lambda: rr.quadratic_loss((n,), Q=B.T.dot(B), coef=S.coef(rng)), lambda: rr.quadratic_loss((n,), Q=np.abs(B[0]) + .1, Qdiag=True),
                   lambda: rr.quadratic_loss((n,), coef=2.)][kind]()
            shape = (n,)
        elif name == "signal":
            shape = (C.dim(rng, 1, 6),)
            obj = rr.signal_approximator(rng.standard_normal(shape), coef=S.coef(rng))
        elif name == "sum":
            l = P.sum_loss(rng, 5, 3)
            obj, shape = l.build(), l.shape
        elif name == "smoothed":
            l = P.smoothed_l1(rng, 5, 3)
            obj, shape = l.build(), l.shape
        elif name == "quadaffine":
            l = P.quad_affine(rng, 5, 3)
            obj, shape = l.build(), l.shape
        x = lambda r: [np.clip(C.point(r, shape), -2, 2)]
        qs = so("eval", x) + so("eval2", x) + [("objective", x, lambda o, v: o.objective(v), 0),
                                               ("solve", lambda r: [iq(1., np.zeros(shape), r.standard_normal(shape), 0)], lambda o, q: o.solve(q, tol=1e-13, min_its=60), 1e-4)]
        if name == "signal":
            qs.append(("conjugate", x, lambda o, v: derived(o.conjugate, lambda c: c.smooth_objective(v, "both")), 0))
        if name == "quadratic" and hasattr(type(obj), "__copy__"):
            qs.append(("copy", x, lambda o, v: derived(copy(o), lambda c: c.smooth_objective(v, "both")), 0))
        return obj, qs, []
    return build


# -- transforms ----------------------------------------------------------------

def transform_life(rng):
    u = rng.random()
    if u < .25:                 # parts which may hand back what they are given
        t = p08.combine(rng, p08.MIXED[rng.integers(0, len(p08.MIXED))], p08.square_parts(rng))
    else:
        t = p08.gen(rng, 2) if u < .8 else p08.leaf(rng)
    m = t.A.shape
    x = lambda r: [C.point(r, (m[1],))]
    u = lambda r: [C.point(r, (m[0],))]
    if tuple(t.ins) != (m[1],) or tuple(t.outs) != (m[0],):
        raise Skip("vector transforms only")
    qs = [("linear", x, lambda o, v: o.linear_map(v), 0), ("affine", x, lambda o, v: o.affine_map(v), 0), ("adjoint", u, lambda o, v: o.adjoint_map(v), 0),
          ("linear2", x, lambda o, v: o.linear_map(v), 0), ("adjoint2", u, lambda o, v: o.adjoint_map(v), 0),
          ("compose", x, lambda o, v: derived(rr.affine_composition(o, rr.affine_transform(None, np.ones(m[1]))), lambda c: c.affine_map(v)), 0),
          ("transpose", u, lambda o, v: derived(ra.adjoint(o), lambda c: c.linear_map(v)), 0),
          ("scaled", x, lambda o, v: derived(ra.scalar_multiply(o, 2.), lambda c: c.affine_map(v)), 0),
          ("shifted", x, lambda o, v: derived(rr.affine_transform(o, np.ones(m[0])), lambda c: c.affine_map(v)), 0)]
    if t.cols:
        qs.append(("columns", lambda r: [r.standard_normal((m[1], 2))], lambda o, v: o.linear_map(v), 0))
    return t.obj, qs, []


def normalize_life(rng):
    X, given, kind, o, A, const = p09.make(rng, 4, 12, 6)
    n = X.shape[0]
    M_ = rr.normalize(given, **o)
    k = A.shape[1]
    x = lambda r: [r.standard_normal(k)]
    u = lambda r: [r.standard_normal(n)]
    qs = [("linear", x, lambda m, v: m.linear_map(v), 0), ("affine", x, lambda m, v: m.affine_map(v), 0), ("adjoint", u, lambda m, v: m.adjoint_map(v), 0),
          ("linear2", lambda r: [r.standard_normal((k, 2))], lambda m, v: m.linear_map(v), 0)]
    if hasattr(M_, "slice_rows"):
        qs.append(("rows", lambda r: [np.nonzero(r.random(n) < .7)[0], r.standard_normal(k)], lambda m, i, v: derived(m.slice_rows(i), lambda c: c.linear_map(v)), 0))
    if hasattr(M_, "slice_columns"):
        qs.append(("columns", lambda r: [np.arange(k)[r.random(k) < .7]], lambda m, i: derived(m.slice_columns(i), lambda c: c.linear_map(np.ones(len(i)))) if len(i) else 0, 0))
    return M_, qs, []


# -- quadratics, problems --------------------------------------------------------

def quadratic_life(rng):
    shape = p13.shape_of(rng)
    obj = p13.build(p13.gen(rng, shape))
    x = lambda r: [C.point(r, shape)]
    q = lambda r: [C.point(r, shape), quad(r, shape)]
    val = lambda v: (lambda c: c.objective(v, "both"))
    qs = [("objective", x, lambda o, v: o.objective(v, "both"), 0), ("func", x, lambda o, v: o.objective(v, "func"), 0),
          ("plus", q, lambda o, v, b: derived(o + b, val(v)), 0), ("rplus", q, lambda o, v, b: derived(b + o, val(v)), 0),
          ("collapsed", x, lambda o, v: derived(o.collapsed(), val(v)), 0), ("copy", x, lambda o, v: derived(copy(o), val(v)), 0),
          ("recenter", lambda r: [C.point(r, shape), C.point(r, shape)], lambda o, v, b: derived(o.recenter(b)[1], val(v)), 0),
          ("repr", lambda r: [], lambda o: repr(o), 0)]
    if obj.coef:
        qs.append(("conjugate", x, lambda o, v: derived(o.conjugate, val(v)), 0))
    muts = [("coef", lambda o, r: setattr(o, "coef", (o.coef or 0) + 1.)), ("center in place", lambda o, r: inplace(o.center)),
            ("linear in place", lambda o, r: inplace(o.linear_term)), ("constant", lambda o, r: setattr(o, "constant_term", 7.))]
    return obj, qs, muts


def problem_life(rng):
    p = P.generate(rng, kind=C.ALL[rng.integers(0, len(C.ALL))])
    m = rng.integers(0, 4)
    loss, pen = p.lib_loss(), p.lib_pen()
    if m <= 1:
        obj = rr.simple_problem(loss, pen)
    elif m == 2:
        obj = rr.container(loss, pen)
    else:
        obj = rr.simple_problem(loss, pen)
        obj.quadratic = p.extra() if p.eq is not None else iq(.5, 0, 0, 0)
    x = lambda r: [np.clip(C.point(r, p.shape), -1, 1)]
    q = lambda r: [iq(float(np.exp(r.uniform(-1, 1))), C.point(r, p.shape), np.zeros(p.shape), 0)]
    ptol = 0 if m != 2 else LOOSE
    qs = so("eval", x) + [("nonsmooth", x, lambda o, v: o.nonsmooth_objective(v), 1e-12), ("objective", x, lambda o, v: o.objective(v), 1e-12),
                          ("proximal", q, lambda o, v: o.proximal(v), max(ptol, 1e-9))]
    qs.append(("solve", lambda r: [iq(1., np.zeros(p.shape), r.standard_normal(p.shape), 0)],
               lambda o, v: o.solve(v, tol=1e-14, min_its=60), 2e-4))
    qs.append(("solve-optimum", lambda r: [iq(1., np.zeros(p.shape), r.standard_normal(p.shape), 0)], lambda o, v: o.solve(v, tol=1e-14, min_its=60, return_optimum=True)[1], 2e-4))
    return obj, qs, []


# -- the two monitors -------------------------------------------------------------

def history(case, build, steps):
    L = Life(case, build, int(case.rng.integers(0, 2 ** 31)))
    case.note(kind=type(L.obj).__name__, repr=str(L.obj)[:300])
    order = []
    n = len(L.qs)
    for _ in range(steps):
        i, j = int(case.rng.integers(0, n)), int(case.rng.integers(0, 2))
        order.append((L.qs[i][0], j))
        case.note(order=order)
        L.step(i, j)
    case.event("history")
    return L


def independent(case, build):
    """a copy and its original do not share state: changing one in any way leaves the other as it was"""
    L = Life(case, build, int(case.rng.integers(0, 2 ** 31)))
    if not hasattr(type(L.obj), "__copy__") or not L.muts:
        raise Skip("nothing to copy")
    case.note(kind=type(L.obj).__name__, repr=str(L.obj)[:300])
    a = L.obj
    n = len(L.qs)
    for _ in range(int(case.rng.integers(0, 4))):          # buffers filled by earlier questions
        L.step(int(case.rng.integers(0, n)), 0)
    b = copy(a)
    if case.rng.random() < .3:
        b = copy(b)
    moved, still = (a, b) if case.rng.random() < .5 else (b, a)
    # only judge the questions that the copy answers like the original
    ask = [i for i in range(n)]
    done = []
    for _ in range(int(case.rng.integers(1, 4))):
        k = int(case.rng.integers(0, len(L.muts)))
        name, mut = L.muts[k]
        done.append(name)
        case.note(mutators=done, moved="original" if moved is a else "copy")
        mut(moved, case.rng)
        for i in case.rng.permutation(ask)[:3]:
            try:
                L.ask(moved, i, 0)
            except Exception:
                case.event("refused-after-change")
        L.watch, L.derived = [], []
        for i in case.rng.permutation(ask)[:5]:
            L.step(int(i), int(case.rng.integers(0, 2)), obj=still, key="copy-shares-state:%s" % name)
    case.event("independent")
    case.event("mutated:" + name)


LIVES = {}
for k in C.ALL:
    LIVES.setdefault("penalty", []).append((k, penalty_life(k)))
LIVES["penalty"] += [("mixed_lasso", mixed_life(False)), ("mixed_lasso_dual", mixed_life(True))]
LIVES["loss"] = [(f, saturated_life(f)) for f in S.ALL + ["cox"]]
LIVES["glm"] = [(f, glm_life(f)) for f in S.ALL + ["cox"]]
LIVES["multi"] = [("m%d" % i, multi_life(i)) for i in range(4)] + [("mglm", mglm_life)]
LIVES["other"] = [(f, other_loss_life(f)) for f in ("quadratic", "signal", "sum", "smoothed", "quadaffine")]
LIVES["transform"] = [("transform", transform_life), ("normalize", normalize_life)]
LIVES["quadratic"] = [("quadratic", quadratic_life)]
LIVES["problem"] = [("problem", problem_life)]


def run(group, steps):
    def fn(case):
        lives = LIVES[group]
        name, build = lives[case.index % len(lives)]
        case.note(life=name)
        history(case, build, steps)
        case.event("life:" + group)
    return fn


def run_copy(case):
    lives = [x for g in ("penalty", "loss", "glm", "multi", "quadratic", "loss", "glm", "multi", "quadratic", "quadratic") for x in LIVES[g]]
    name, build = lives[case.index % len(lives)]
    case.note(life=name)
    independent(case, build)


FAMILIES = [
    Family("penalty", run("penalty", 14), 260, 9000),
    Family("loss", run("loss", 18), 120, 6000),
    Family("glm", run("glm", 12), 80, 3000),
    Family("multi", run("multi", 14), 80, 4000),
    Family("other", run("other", 12), 60, 3000),
    Family("transform", run("transform", 14), 480, 16000),
    Family("quadratic", run("quadratic", 14), 80, 4000),
    Family("problem", run("problem", 8), 60, 2000),
    Family("copy", run_copy, 300, 12000),
]
