"""P18 native kernels: an instrumented build (AddressSanitizer + UBSan, fresh memory filled with NaN) of the four extension
modules, driven through the public interface with hostile sizes; sanitizer reports, guard zones around every array handed
in, uninitialised results, refusals of inconsistent input."""
import glob
import os
import numpy as np
import regreg.api as rr
from rv.core import Family, Skip, Violation
from rv import catalog as C, losses as S, refloss as L
from rv.props import p01, p17, p19

SAN = os.environ.get("RV_SANLOG")
ASAN = os.environ.get("RV_VARIANT") == "asan"


# -- monitors ------------------------------------------------------------------

def reports():
    return {f: os.path.getsize(f) for f in glob.glob(SAN + ".*")} if SAN else {}


def poison():
    """leave NaN in the small blocks numpy is going to hand out next"""
    for n in range(1, 48):
        x = [np.full(n, np.nan) for _ in range(3)]
    del x


def watched(fn):
    """run a case, then look for sanitizer reports it caused in the package's own code"""
    def f(case):
        before = reports()
        poison()
        fn(case)
        for name, size in reports().items():
            if size > before.get(name, 0):
                with open(name, "rb") as fh:
                    fh.seek(before.get(name, 0))
                    text = fh.read().decode(errors="replace")
                if "regreg" in text or "cox_fns" in text or ".pyx" in text:
                    case.fail("sanitizer", text[:1500])
                case.event("foreign-report")
        if ASAN:
            case.event("sanitized")
    f.__doc__ = fn.__doc__
    return f


class Guard(object):
    """arrays placed in the middle of a larger block: NaN (or a recognisable integer) before, after and between"""
    def __init__(self, case):
        self.case, self.bufs = case, []

    def put(self, a, stride=None):
        a = np.asarray(a)
        if a.ndim != 1 or a.dtype.kind not in "fi":
            return a
        k = stride or int(self.case.rng.choice([1, 1, 1, 2, -1]))
        n = a.shape[0]
        s = abs(k)
        fill = np.nan if a.dtype.kind == "f" else np.iinfo(a.dtype).min // 3
        buf = np.full(16 + n * s, fill, dtype=a.dtype)
        v = buf[8:8 + n * s:s]
        v = v[::-1] if k < 0 else v
        v[:] = a
        mask = np.ones(buf.shape[0], bool)
        mask[8:8 + n * s:s] = False
        self.bufs.append((buf, buf.copy(), mask, v, a.copy()))
        self.case.event("stride:%d" % k)
        return v

    def check(self, key, args=True):
        for buf, was, mask, v, a in self.bufs:
            self.case.same(buf[mask], was[mask], key + ":wrote-outside")
            if args:
                self.case.same(v, a, key + ":changed-its-argument")


# -- survival --------------------------------------------------------------------

def f_cox(case):
    """every entry point of the survival loss on guarded arrays, sizes 1 .. a few thousand"""
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 5, 8, 17, 64, 150, 600, 3000], p=[.15, .15, .12, .12, .1, .1, .1, .08, .05, .03]))
    t, d = p19.data(rng, n)
    w, c, so = S.weights(rng, n), S.coef(rng), S.offs(rng, n)
    x = np.clip(np.asarray(p19.eta(rng, n), float), -200, 200)
    G = Guard(case)
    put = lambda a: None if a is None else G.put(np.asarray(a, float))
    case.note(n=n, t=t[:20], d=d[:20], w=None if w is None else w[:20], coef=c, so=None if so is None else so[:20])
    loss = rr.cox_loglike((n,), put(t), put(d), coef=c, offset=put(so), case_weights=put(w))
    ref = L.Cox(t, d, c, so, w) if n <= 150 else None
    cw = S.weights(rng, n) if rng.random() < .4 else None
    kw = {} if cw is None else dict(case_weights=put(cw))
    if cw is not None and ref is not None:
        ref = ref.weighted(cw)
    W = (1. if w is None else np.asarray(w)) * (1. if cw is None else np.asarray(cw)) * np.ones(n)
    gm = c * (W.sum() + 1)
    for _ in range(int(rng.integers(1, 4))):
        m = rng.integers(0, 4)
        xx = G.put(x)
        poison()
        if m <= 1:
            v, g = loss.smooth_objective(xx, "both", **kw)
        elif m == 2:
            v, g = None, loss.smooth_objective(xx, "grad", **kw)
        else:
            v, g = loss.smooth_objective(xx, "func", **kw), None
        if g is not None:
            case.check(g.shape == (n,) and np.isfinite(g).all(), "cox:gradient-finite", g[:10])
            case.close(g.sum(), 0., "cox:gradient-sum", 1e-8, gm)
            if ref is not None:
                case.close(g, ref.grad(x), "cox:gradient", 1e-9, gm)
        if v is not None:
            case.check(np.isfinite(v), "cox:value-finite", v)
            if ref is not None:
                case.close(v, ref.val(x), "cox:value", 1e-9, ref.mag(x))
        r = rng.standard_normal(n)
        poison()
        h = loss.hessian_mult(xx, G.put(r), **kw)
        case.check(h.shape == (n,) and np.isfinite(h).all(), "cox:hessian-finite", h[:10])
        if ref is not None:
            case.close(h, ref.hess(x).dot(r), "cox:hessian", 1e-8, gm * (1 + np.abs(r).max()))
        G.check("cox")
        case.event("cox:n%s" % (n if n < 4 else "large" if n > 100 else "some"))
        # shuffle what the object holds: new data, copies, subsamples
        k = rng.integers(0, 4)
        if k == 0:
            t, d = p19.data(rng, n)
            loss.data = np.array([np.asarray(t, float), np.asarray(d, float)]).T
            ref = None if ref is None else L.Cox(t, d, c, so, W)
        elif k == 1:
            from copy import copy
            loss = copy(loss)
        elif k == 2:
            keep = rng.random(n) < rng.choice([0, .5, .9])
            loss = loss.subsample(np.nonzero(keep)[0] if rng.random() < .5 else keep)
            W = W * keep
            ref = None if ref is None else ref.weighted(keep)
        case.event("cox")


def bad_labels(rng, n):
    k = rng.integers(0, 5)
    d = rng.integers(0, 2, n).astype(float)
    d[rng.integers(0, n)] = [-1, 2, .5, np.nan, 1e12][k]
    return d


def f_refuse(case):
    """inconsistent lengths and labels must end in an exception, at construction or at the first evaluation"""
    rng = case.rng
    n = C.dim(rng, 2, 9)
    m = int(rng.choice([k for k in (0, 1, n - 1, n + 1, 2 * n, n + 3) if k != n]))
    kind = case.index % 12
    t, d = p19.data(rng, n)
    t, d = np.asarray(t, float), np.asarray(d, float)
    x = rng.standard_normal(n)
    cox = lambda shape=n, t=t, d=d, **k: rr.cox_loglike((shape,), t, d, **k)
    mm = max(m, 2) if max(m, 2) != n else n + 1          # numpy broadcasts arrays of length one
    st, w, full = p01.gen_mixed(rng, n)
    G = Guard(case)

    def mixed(x):
        cls = [rr.mixed_lasso, rr.mixed_lasso_dual][rng.integers(0, 2)]
        a = cls(st.copy(), 1.3, weights=dict(w))
        k = rng.integers(0, 4)
        case.note(mixed=k, st=st)
        if k == 0:
            return a.proximal(C.iq(1., G.put(x), 0, 0))
        if k == 1:
            return a.seminorm(G.put(x))
        if k == 2:
            return a.nonsmooth_objective(G.put(x), check_feasibility=True)
        return a.conjugate.proximal(C.iq(1., G.put(x), 0, 0))

    def group(x):
        lab = np.array([int(v) for v in rng.integers(0, 3, n)])
        cls = [rr.group_lasso, rr.group_lasso_dual][rng.integers(0, 2)]
        a = cls(lab, **{["lagrange", "bound"][rng.integers(0, 2)]: 1.3})
        k = rng.integers(0, 2)
        case.note(group=lab, form=str(a))
        return a.proximal(C.iq(1., G.put(x), 0, 0)) if k else a.seminorm(G.put(x), lagrange=1.)

    def epigraph(x):
        lab = np.array([int(v) for v in rng.integers(0, 3, n)])
        cls = [rr.group_lasso_epigraph, rr.group_lasso_dual_polar, rr.group_lasso_dual_epigraph][rng.integers(0, 3)] if hasattr(rr, "group_lasso_dual_polar") else rr.group_lasso_epigraph
        a = cls(lab)
        return a.cone_prox(G.put(x))

    bad = rng.standard_normal(m)
    t2 = t.copy()
    t2[rng.integers(0, n)] = np.nan
    calls = [
        ("times", lambda: cox(t=rng.exponential(size=m), d=rng.integers(0, 2, m)).smooth_objective(x)),
        ("censoring", lambda: cox(d=np.ones(m)).smooth_objective(x)),
        ("eta", lambda: cox().smooth_objective(G.put(bad), str(rng.choice(["func", "grad", "both"])))),
        ("weights", lambda: cox(case_weights=np.ones(mm)).smooth_objective(x)),
        ("call-weights", lambda: cox().smooth_objective(x, case_weights=np.ones(mm))),
        ("right-vector", lambda: cox().hessian_mult(x, G.put(bad))),
        ("labels", lambda: cox(d=bad_labels(rng, n)).smooth_objective(x)),
        ("undefined-times", lambda: cox(t=t2).smooth_objective(x)),
        ("reset", lambda: reset(rng, cox(), x, m)),
        ("mixed", lambda: mixed(bad)),
        ("group", lambda: group(bad)),
        ("design", lambda: rr.glm.cox(rng.standard_normal((mm, 2)), t, d).smooth_objective(rng.standard_normal(2))),
    ]
    name, call = calls[kind]
    case.note(kind=name, n=n, m=m)
    try:
        r = call()
    except Exception as e:
        case.event("refused:" + name)
        case.event("refused-by:" + type(e).__name__)
        case.check(True, "refused")
        G.check("refused:" + name)
        return
    case.fail("processed:" + name, "n=%d m=%d answer %s" % (n, m, str(r)[:200]))


def reset(rng, loss, x, m):
    t, d = rng.exponential(size=m), rng.integers(0, 2, m)
    if rng.random() < .5 and len(t) == m:
        loss.smooth_objective(x)
    loss.data = np.array([t, d]).T if m else np.zeros((0, 2))
    return loss.smooth_objective(x)


# -- projection kernels, directly ---------------------------------------------------

def values(rng, n):
    m = rng.integers(0, 7)
    return [lambda: rng.standard_normal(n), lambda: np.zeros(n), lambda: np.ones(n) * rng.choice([-1, 1, 1e-300, 1e150]), lambda: rng.integers(-2, 3, n) * 1.,
            lambda: np.sort(rng.standard_normal(n)), lambda: rng.standard_normal(n) * np.exp(rng.uniform(-20, 20, n)), lambda: np.sign(rng.standard_normal(n)) * 5e-324][m]()


def f_kernel(case):
    """the exported kernels on guarded, strided, tiny, empty and tied arrays"""
    rng = case.rng
    from regreg.atoms import projl1_cython as K, piecewise_linear as W
    n = int(rng.choice([0, 1, 2, 3, 5, 9, 33, 200, 2000], p=[.08, .2, .15, .15, .12, .1, .1, .07, .03]))
    x = values(rng, n)
    G = Guard(case)
    b = float(rng.choice([0., .3, 1., 2., np.abs(x).sum(), np.abs(x).sum() * .5, 1e3])) if n else 1.
    which = int(rng.integers(0, 5))
    case.note(n=n, x=x[:30], bound=b, which=which)
    sc = max(np.abs(x).sum(), b, 1e-300) if n else 1.
    poison()
    if which == 0:
        z = K.projl1(G.put(x), b)
        case.check(z.shape == (n,) and np.isfinite(z).all(), "projl1:finite", z[:10])
        case.leq(np.abs(z).sum(), b, "projl1:norm", 1e-9, sc)
        case.check(np.all(np.abs(z) <= np.abs(x)) and np.all(z * x >= 0), "projl1:shrinks")
        r = x - z
        if n and np.abs(x).sum() > b * (1 + 1e-9):
            case.close((r * z).sum() / sc, np.abs(r).max() * (np.abs(z).sum() / sc), "projl1:optimal", 1e-8, sc)
            case.leq(np.abs(np.abs(z).sum() - b), 0, "projl1:tight", 1e-9, sc)
    elif which == 1:
        v = np.append(x, rng.choice([-1., 0, 1.]) * b * rng.random())
        try:
            z = K.projl1_epigraph(G.put(v))
        except IndexError:
            if n:
                raise
            G.check("kernel")
            case.event("kernel:n0")
            raise Skip("no norm at all below height zero: refused")
        s2 = max(np.abs(v).sum(), 1e-300)
        case.check(z.shape == v.shape and np.isfinite(z).all(), "epigraph:finite", z[:10])
        case.leq(np.abs(z[:-1]).sum(), z[-1], "epigraph:member", 1e-9, s2)
        r = v - z                                     # in the polar cone, orthogonal to z
        if n:
            case.leq(np.abs(r[:-1]).max(), -r[-1], "epigraph:polar", 1e-9, s2)
        case.leq(abs(((r / s2) * (z / s2)).sum()), 0, "epigraph:orthogonal", 1e-9, 1.)
    elif which == 2 and n:
        a = np.abs(x)
        cut = W.find_solution_piecewise_linear_c(b, 0., G.put(a))
        case.check(np.isfinite(cut) and cut >= 0, "cut:finite", cut)
        case.close(np.maximum(a - cut, 0).sum(), min(b, a.sum()), "cut", 1e-9, sc)
    elif which == 3 and n:
        a = np.abs(x)
        w = np.where(rng.random(n) < .15, 0., np.round(rng.uniform(.1, 3, n), 2))
        if not w.any():
            w[0] = 1.
        wa = G.put(w)
        cut = W.find_solution_piecewise_linear(b, 0., G.put(a), wa)
        f = (w * np.maximum(a - w * cut, 0)).sum()
        case.check(np.isfinite(cut) and cut >= 0, "weighted-cut:finite", cut)
        case.close(f, min(b, (w * a).sum()), "weighted-cut", 1e-9, 3 * sc)
    elif which == 4 and n:
        cut = W.find_solution_piecewise_linear_uncon(b, G.put(x))
        case.check(np.isfinite(cut), "simplex-cut:finite", cut)
        case.close(np.maximum(x - cut, 0).sum(), b, "simplex-cut", 1e-9, n * max(np.abs(x).max(), b, 1e-300))
    else:
        raise Skip("empty")
    G.check("kernel")
    case.event("kernel:%d" % which)
    case.event("kernel:n%s" % (n if n < 3 else "more"))


def f_mixed(case):
    """the remaining mixed-penalty kernels: seminorms, strong rule, optimality check, on one object again and again"""
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 6, 15, 60, 400], p=[.2, .2, .2, .15, .1, .1, .05]))
    st, w, full = p01.gen_mixed(rng, n)
    lam = float(np.exp(rng.uniform(-2, 1)))
    a = rr.mixed_lasso(st.copy(), lam, weights=dict(w))
    dual = rr.mixed_lasso_dual(st.copy(), lam, weights=dict(w))
    s = p01.mixed_ref(st, w, lam)
    case.note(st=st[:30], w=w, lam=lam, n=n)
    from regreg.atoms.mixed_lasso_cython import strong_set_mixed_lasso, check_KKT_mixed_lasso
    parts = lambda a: (a._l1_penalty, a._unpenalized, a._positive_part, a._nonnegative, a._groups, a._weight_array)
    for _ in range(4):
        G = Guard(case)
        x = values(rng, n)
        x = x if np.abs(x).max() < 1e100 else np.sign(x)
        k = rng.integers(0, 5)
        poison()
        if k == 0:
            v = a.seminorm(G.put(x))
            want = lam * (np.abs(x[s["l1"]]).sum() + np.maximum(x[s["pp"]], 0).sum() + sum(wt * np.linalg.norm(x[st == g]) for g, wt in full.items()))
            case.close(v, want, "mixed:seminorm", 1e-9, lam * np.abs(x).sum() * 4)
        elif k == 1:
            v = dual.seminorm(G.put(x))
            want = max([0.] + list(np.abs(x[s["l1"]])) + list(np.maximum(x[s["pp"]], 0)) + [np.linalg.norm(x[st == g]) / wt for g, wt in full.items() if wt > 0])
            case.close(v, want, "mixed:dual-seminorm", 1e-9, 1e-300 + want)
        elif k == 2:
            z = a.proximal(C.iq(1.7, G.put(x), 0, 0))
            case.check(z.shape == (n,) and np.isfinite(z).all(), "mixed:prox-finite", z[:10])
            u = dual.proximal(C.iq(1., G.put(1.7 * x), 0, 0))
            case.close(1.7 * x - u, 1.7 * z, "mixed:moreau", 1e-9, 2 * np.abs(x).max() + 1e-300)
        elif hasattr(a, "_groups") and k == 3:
            try:
                v = strong_set_mixed_lasso(G.put(x), lam * .8, lam, 1., *parts(a))
            except (AttributeError, TypeError):
                raise Skip("kernel not callable this way")
            case.check(np.isin(np.asarray(v), [0, 1]).all(), "mixed:strong-set", v[:10])
        elif hasattr(a, "_groups"):
            try:
                v = check_KKT_mixed_lasso(G.put(x), G.put(values(rng, n)), lam, *parts(a))
            except (AttributeError, TypeError):
                raise Skip("kernel not callable this way")
            case.check(np.asarray(v).shape == (n,) and np.isfinite(np.asarray(v, float)).all(), "mixed:kkt", v)
        G.check("mixed")
        case.event("mixed:%d" % k)


KINDS = ["l1norm", "supnorm", "positive_part", "constrained_max"] + C.WEIGHTED + C.GROUP + C.BLOCK
LIVES = [x for x in p17.LIVES["penalty"] if x[0] in set(C.GROUP + C.BLOCK + C.SVD + C.WEIGHTED) or x[0].startswith("mixed")] + \
        [x for g in ("loss", "glm") for x in p17.LIVES[g] if x[0] == "cox"] * 4


def f_history(case):
    name, build = LIVES[case.index % len(LIVES)]
    case.note(life=name)
    p17.history(case, build, 12)
    case.event("history")


F = lambda name, fn, q, t: Family(name, watched(fn), q, t)
FAMILIES = [
    F("cox", f_cox, 400, 20000),
    F("survival-values", p19.f_value, 150, 8000),
    F("survival-glm", p19.f_glm, 120, 6000),
    F("refuse", f_refuse, 480, 20000),
    F("kernel", f_kernel, 700, 30000),
    F("mixed", f_mixed, 300, 15000),
    F("mixed-prox", p01.f_mixed, 200, 10000),
    F("projections", p01.fam([k for k in KINDS if k in C.ALL]), 300, 15000),
    F("cones", p01.fam(C.CONES), 300, 12000),
    F("simplex", p01.fam(C.OTHER), 80, 4000),
    F("svd", p01.fam(C.SVD), 80, 3000),
    F("history", f_history, 80, 4000),
]
