"""P14 every point of a regularisation path solves its full problem."""
import contextlib
import io
import warnings
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
from regreg.paths import strong_rules, warm_start, default_lagrange_sequence, lasso as PL, group_lasso as PG
from regreg.paths import sparse_group_lasso as PS, sparse_group_block as PB
from regreg.paths.basil import basil, basil_inner_loop
from regreg.smooth import glm as G, mglm as M
from rv.core import Family, Skip
from rv import losses as S, refloss as L
from rv.props import p19, p22

SCREEN = 1e-2          # documented KKT tolerance for features left out by screening
FAMS = ["gaussian", "gaussian", "logistic", "probit", "cloglog", "poisson", "huber", "huber_svm", "cox"]


def soft(g, t): return np.sign(g) * np.maximum(np.abs(g) - t, 0)


def blocks_prox(v, l1, l2, groups, slack=0.):
    """prox of sum_j l1_j|b_j| + sum_g l2_g ||b_g||; slack relaxes the thresholds of blocks that are zero"""
    out = np.zeros_like(v)
    for g in groups:
        u = soft(v[g], l1[g])
        nu = np.linalg.norm(u)
        out[g] = 0 if nu <= l2[g[0]] else u * (1 - l2[g[0]] / nu)
    return out


class Pen(object):
    """l1 weight per coordinate (flattened), l2 weight per coordinate's block, blocks as index arrays"""
    def __init__(self, l1, l2, groups):
        self.l1, self.l2, self.groups = np.asarray(l1, float), np.asarray(l2, float), groups

    def free(self):
        return (self.l1 == 0) & (self.l2 == 0)

    def val(self, b):
        return (self.l1 * np.abs(b)).sum() + sum(self.l2[g[0]] * np.linalg.norm(b[g]) for g in self.groups)

    def prox(self, v, lam):
        return blocks_prox(v, lam * self.l1, lam * self.l2, self.groups)

    def dual(self, g):
        """smallest lam with -g in lam * d pen(0), over the penalised blocks; free blocks are ignored"""
        best = 0.
        for i in self.groups:
            l1, l2, u = self.l1[i], self.l2[i[0]], np.abs(g[i])
            if l2 == 0:
                if np.any(l1 > 0):
                    best = max(best, (u[l1 > 0] / l1[l1 > 0]).max())
                continue
            lo, hi = 0., np.linalg.norm(u) / l2
            for _ in range(200):
                mid = (lo + hi) / 2
                if np.linalg.norm(np.maximum(u - mid * l1, 0)) <= mid * l2:
                    hi = mid
                else:
                    lo = mid
            best = max(best, hi)
        return best


class Model(object):
    """a path problem: min_b loss(X b) + sum (1-alpha)/2 e_j (lam if penalised else 1) b_j^2 + alpha lam pen(b), b flattened"""
    def __init__(self, ref, apply, adjoint, shape, pen, enet, alpha, lip):
        self.ref, self.X, self.XT, self.shape, self.pen, self.alpha, self.lip = ref, apply, adjoint, shape, pen, alpha, lip
        self.enet = np.asarray(enet, float).ravel()
        self.free = pen.free()

    def q(self, lam):
        return (1 - self.alpha) * self.enet * np.where(self.free, 1., lam)

    def grad(self, b, lam):
        eta = self.X(b.reshape(self.shape))
        return np.asarray(self.XT(self.ref.grad(eta))).ravel() + self.q(lam) * b

    def val(self, b, lam):
        return self.ref.val(self.X(b.reshape(self.shape))) + .5 * (self.q(lam) * b ** 2).sum() + self.alpha * lam * self.pen.val(b)

    def residual(self, b, lam, screen):
        """prox-gradient residual at unit step 1/L relative to the coefficient scale; blocks at zero get the screening slack"""
        Lip = self.lip(self.X(b.reshape(self.shape))) + self.q(lam).max() + 1e-12
        g = self.grad(b, lam)
        v = b - g / Lip
        r = b - self.pen.prox(v, self.alpha * lam / Lip)
        if screen:
            relaxed = b - self.pen.prox(v, (1 + screen) * self.alpha * lam / Lip)
            for i in self.pen.groups:
                if not b[i].any():
                    r[i] = relaxed[i]
        return r, Lip


def design(rng, n, p, kinds=("dense", "F", "int", "csr", "transform", "strided")):
    X, D, kind = S.design(rng, n, p, kinds)
    if kind in ("dense", "F", "transform") and p > 1:
        m = rng.integers(0, 5)
        if m == 1:      # strongly correlated
            D = D + 2 * rng.standard_normal((n, 1))
        elif m == 2:    # duplicated and opposite columns
            j, k = rng.integers(0, p, 2)
            D[:, j] = D[:, k] * (1 if rng.random() < .5 else -1)
        elif m == 3:    # autoregressive
            for j in range(1, p):
                D[:, j] += .8 * D[:, j - 1]
        elif m == 4:    # different scales
            D = D * 2. ** rng.integers(-2, 3, p)
        D = np.round(D, 4)
        X = {"dense": D.copy(), "F": np.asfortranarray(D), "transform": rr.astransform(D.copy())}[kind]
    return X, D, kind


def labels(rng, p, K):
    ids = rng.integers(0, K, p)
    ids[:K] = rng.permutation(K)
    ids = rng.permutation(ids)
    m = rng.integers(0, 4)
    names = [np.arange(K), rng.permutation(10 * np.arange(K) - 7), np.array(["g%s" % "zyxwvutsrqponm"[k % 14] + str(k) for k in range(K)]),
             rng.permutation(K)][m]
    return names[ids]


def enet_of(rng, p, free):
    alpha = [1., 1., .5, .9, float(np.round(rng.uniform(.05, 1), 2))][rng.integers(0, 5)]
    m = rng.integers(0, 4)
    e = [None, np.ones(p), np.round(rng.uniform(0, 2, p), 2), np.where(free, 0, 1.)][m]
    return alpha, e


def data(rng, fam, n, D, sizes_free):
    """saturated loss and reference with a response that leaves the unpenalised fit finite"""
    if fam == "cox":
        t, d = p19.data(rng, n)
        d = np.asarray(d)
        if d.sum() == 0:
            raise Skip
        w = S.weights(rng, n)
        if w is not None:
            w = np.clip(np.asarray(w, float), 0, 5)
        ref = L.Cox(t, d, 1., None, w)
        return G.cox_loglike((n,), t, d, case_weights=None if w is None else w.copy()), ref, dict(fam=fam, t=t, d=d, w=w)
    s = S.Spec(rng, fam, n, c=[1., .5, 2., 1. / n][rng.integers(0, 4)])
    if s.w is not None:
        s.w = np.clip(np.asarray(s.w, float), 0, 5)
        if s.w.sum() == 0:
            s.w[:] = 1
    y = np.asarray(s.y, float)
    t = np.ones(n) if s.trials is None else np.asarray(s.trials, float)
    if fam in S.BINARY or fam == "huber_svm":
        if s.trials is None:
            s.y = (rng.random(n) < .5).astype(int)
            s.y[0], s.y[-1] = 0, 1
    if fam == "poisson" and y.sum() == 0:
        s.y = rng.poisson(2, n)
        s.y[0] = 1
    return s.lib(), s.ref(), s.desc()


def curvature(ref, fam):
    """Lipschitz bound of the saturated gradient at eta"""
    def f(eta):
        if fam == "cox":
            return max(float(np.sum(ref.w * ref.d)), 1e-8) if hasattr(ref, "d") else 1.
        if fam.startswith("huber"):
            h = ref.coef * ref.w / ref.ref.eps
        else:
            h = ref.hess(eta)
        return max(float(np.max(np.abs(h))), 1e-8)
    return f


def build(case, kind, fam=None, n=None, p=None):
    """path object, model, rebuild function for other rows"""
    rng = case.rng
    n = n or int(rng.integers(8, 41))
    p = p or int(rng.choice([1, 2, 3, 5, 8, 12, 20]))
    fam = fam or FAMS[case.index % len(FAMS)]
    X, D, xk = design(rng, n, p)
    obj, ref, desc = data(rng, fam, n, D, 0)
    nfree = 0
    if kind == "lasso":
        w = [np.ones(p), np.round(rng.uniform(.3, 2, p), 2), rng.integers(1, 4, p)][rng.integers(0, 3)]
        w = np.array(w, float)
        if rng.random() < .5 and p > 1:
            w[rng.choice(p, rng.integers(1, min(3, p - 1) + 1), replace=False)] = 0
        groups = [np.array([j]) for j in range(p)]
        pen = Pen(w, np.zeros(p), groups)
        lab = None
        args = (w.copy(),)
        kw = {}
    else:
        K = int(rng.integers(1, p + 1))
        lab = labels(rng, p, K)
        ids = sorted(set(lab.tolist()))
        groups = [np.nonzero(lab == g)[0] for g in ids]
        if rng.random() < .4:
            wt = {}
            gw = {g: np.sqrt(len(i)) for g, i in zip(ids, groups)}
        else:
            gw = {g: float(np.round(rng.uniform(.3, 2), 2)) for g in ids}
            if kind == "group" and rng.random() < .5 and K > 1:
                for g in rng.choice(K, rng.integers(1, min(2, K - 1) + 1), replace=False):
                    gw[ids[g]] = 0.
            wt = dict(gw)
        l2 = np.zeros(p)
        for g, i in zip(ids, groups):
            l2[i] = gw[g]
        if kind == "group":
            l1 = np.zeros(p)
            args, kw = (list(lab) if rng.random() < .3 else lab.copy(),), dict(weights=wt)
        else:
            lw = [np.ones(p), np.round(rng.uniform(.3, 2, p), 2)][rng.integers(0, 2)]
            a1 = [.95, .5, float(np.round(rng.uniform(.05, .95), 2)), 1., 0.][rng.choice(5, p=[.3, .3, .3, .05, .05])]
            if rng.random() < .4 and K > 1:         # some groups entirely unpenalised
                for g in rng.choice(K, rng.integers(1, min(2, K - 1) + 1), replace=False):
                    lw[groups[g]] = 0
                    gw[ids[g]] = 0.
                    wt = dict(gw)
                    l2[groups[g]] = 0
            elif rng.random() < .3:                  # some coordinates without an l1 part
                lw[rng.random(p) < .4] = 0
            l1, l2 = lw * a1, l2 * (1 - a1)
            args, kw = (lab.copy(), lw.copy()), dict(weights=wt, l1_alpha=a1)
        pen = Pen(l1, l2, groups)
    free = pen.free()
    if free.all() or free.sum() > n // 3 or any(free[i].any() and not free[i].all() for i in groups):
        raise Skip
    alpha, e = enet_of(rng, p, free)
    if e is not None and rng.random() < .2:
        e = e.astype(int) if np.all(e == np.round(e)) else e
    cls = {"lasso": PL.lasso_path, "group": PG.group_lasso_path, "sgl": PS.sparse_group_lasso_path}[kind]
    curv = curvature(ref, fam)
    nx = np.linalg.norm(D, 2) ** 2

    def model(r):
        return Model(r, lambda b: D.dot(b), lambda g: D.T.dot(g), (p,), pen, np.ones(p) if e is None else e, alpha, lambda eta: nx * curv(eta))

    def make():
        return cls(obj, X, *args, elastic_net_param=None if e is None else e.copy(), alpha=alpha, **kw)
    desc.update(kind=kind, X=D, xk=xk, lab=lab, args=args, kw=kw, alpha=alpha, e=e)
    case.note(**desc)
    return make, model(ref), model, n, D, fam


def build_multi(case, kind):
    rng = case.rng
    n, p, q = int(rng.integers(8, 31)), int(rng.choice([1, 2, 4, 8, 12])), int(rng.integers(1, 5))
    l1, l2 = [(1, np.sqrt(q)), (float(np.round(rng.uniform(.2, 2), 2)), float(np.round(rng.uniform(.2, 2), 2))), (1., 0.), (0., 1.)][rng.choice(4, p=[.4, .4, .1, .1])]
    a1 = [None, None, .5, float(np.round(rng.uniform(.05, .95), 2))][rng.integers(0, 4)]
    m1, m2 = (l1, l2) if a1 is None else (l1 * a1, l2 * (1 - a1))
    if kind == "multi":
        q = max(q, 2)
        D = np.round(rng.standard_normal((n, p)), 4)
        which = ["gaussian", "multinomial", "multinomial-baseline"][case.index % 3]
        if which == "gaussian":
            Y = np.round(rng.standard_normal((n, q)) * 2, 3)
            loss = M.stacked_common_loglike.gaussian(Y.T)
            ref = p22.Stack([L.Sat(L.FAM["gaussian"](Y[:, k]), 1., None, None) for k in range(q)], True)
            y = Y
        else:
            y = p22.counts(rng, n, q)
            y[0], y[-1] = np.eye(q)[0], np.eye(q)[-1]
            loss = M.multinomial_loglike(y.shape, y.copy())
            ref = p22.Multi(y, False)
        if which == "multinomial-baseline":
            w = np.round(rng.uniform(.2, 2, n), 2)
            loss = M.multinomial_loglike(y.shape, y.copy(), case_weights=w)
            ref = p22.Multi(y, False, w=w)
        obj, ap, ad = D, lambda b: D.dot(b), lambda g: D.T.dot(g)
        nx = np.linalg.norm(D, 2) ** 2
        lip = lambda eta: nx * (1. if which == "gaussian" else max(ref.n.max(), 1e-8))
        cls = PB.sparse_group_common_path
        Ds = D
        desc = dict(which=which, y=y)
    else:
        fam = FAMS[case.index % len(FAMS)]
        if fam == "huber":
            fam = "gaussian"
        ns = [int(rng.integers(6, 25)) for _ in range(q)]
        Ds = [np.round(rng.standard_normal((k, p)), 4) for k in ns]
        refs, ys, ts = [], [], []
        for k in ns:
            if fam == "cox":
                t, d = p19.data(rng, k)
                if np.sum(d) == 0:
                    raise Skip
                ts.append(t), ys.append(d)
                refs.append(L.Cox(t, np.asarray(d), 1., None, None))
            else:
                y, _ = S.response(rng, fam, k)
                y = np.asarray(y)
                if fam in S.BINARY or fam == "huber_svm":
                    y = (rng.random(k) < .5).astype(int)
                ys.append(y)
                refs.append(L.Sat(L.FAM[fam](y, None, .5 if fam == "huber_svm" else None), 1., None, None))
        loss = (G.stacked_loglike.cox(ts, ys) if fam == "cox" else G.stacked_loglike.huber_svm(ys, .5) if fam == "huber_svm" else
                getattr(G.stacked_loglike, fam)(ys))
        ref = p22.Stack(refs, False)
        obj = [d.copy() for d in Ds]
        cut = np.cumsum(ns)[:-1]
        ap = lambda b: np.hstack([d.dot(b[:, k]) for k, d in enumerate(Ds)])
        ad = lambda g: np.array([d.T.dot(u) for d, u in zip(Ds, np.split(g, cut))]).T
        nx = max(np.linalg.norm(d, 2) ** 2 for d in Ds)

        def lip(eta):
            return nx * max(curvature(r, fam)(x) for r, x in ref.parts(eta))
        cls = PB.sparse_group_block_path
        desc = dict(which=fam, ys=ys, ts=ts)
    groups = [np.arange(j * q, (j + 1) * q) for j in range(p)]
    pen = Pen(np.full(p * q, m1), np.full(p * q, m2), groups)
    alpha, e = enet_of(rng, p * q, np.zeros(p * q, bool))
    if e is not None:
        e = e.reshape((p, q))

    def model(r):
        return Model(r, ap, ad, (p, q), pen, np.ones(p * q) if e is None else e, alpha, lip)

    def make():
        return cls(loss, obj, l1, l2, elastic_net_param=None if e is None else e.copy(), alpha=alpha, l1_alpha=a1)
    desc.update(kind=kind, X=Ds, l1=l1, l2=l2, l1_alpha=a1, alpha=alpha, e=e)
    case.note(**desc)
    return make, model(ref), model, n, D if kind == "multi" else Ds, desc["which"]


def sequence(case, path, model, top):
    """(lagrange sequence, description); top = reference lambda_max"""
    rng = case.rng
    m = rng.integers(0, 5)
    if m == 0 or top < 1e-8:
        prop, k = [.05, .3, .5, .8][rng.integers(0, 4)], int(rng.integers(2, 9))
        return default_lagrange_sequence(path.penalty, path.grad_solution, lagrange_proportion=prop, nstep=k, alpha=path.alpha), "default"
    if m == 1:
        return top * np.array([1., .6, .1, .02])[:int(rng.integers(1, 5))], "coarse"
    if m == 2:
        return top * np.linspace(1, .1, int(rng.integers(2, 12))), "linear"
    if m == 3:
        return top * np.array([3., 2.9, 1.2, .5, .3]), "above"
    return top * np.array([.7, .4, .39, .1])[:int(rng.integers(1, 5))], "below"


STRATS = ["strong", "strong-active", "warm", "basil", "basil-inner"]


def run(case, path, how, seq, tol):
    init = (path.solution, path.grad_solution)
    seq = seq.copy()
    np.random.seed(case.index)      # the step size guess is a randomised power iteration
    if how == "strong":
        return np.asarray(strong_rules(path, seq, init, inner_tol=tol)["beta"])
    if how == "strong-active":
        return np.asarray(strong_rules(path, seq, init, inner_tol=tol, check_active=True)["beta"])
    if how == "warm":
        return np.asarray(warm_start(path, seq, init, inner_tol=tol, solve_args=dict(max_its=20000))["beta"])
    if how == "basil":
        return np.asarray(basil(path, seq, init, inner_tol=tol, step_nvar=int(case.rng.integers(1, 10)), step_lagrange=int(case.rng.integers(1, 6))))
    lam, sol, g, ever = basil_inner_loop(path, seq, init, inner_tol=tol, step_nvar=50)
    case.check(list(lam) == list(seq[:len(lam)]), "basil-inner:order", "%s" % (lam,))
    return np.asarray(sol)


def null(case, path, model, key="null"):
    """the path's null solution: penalised part zero, unpenalised part optimal; returns reference lambda_max"""
    b = np.asarray(path.solution, float).ravel().copy()
    case.check(not b[~model.free].any(), key + ":penalised-nonzero", str(b))
    g = model.grad(b, 1.)
    if model.free.any():
        Lip = model.lip(model.X(b.reshape(model.shape))) + model.q(1.).max()
        if np.abs(b).max() > 10:
            raise Skip              # (nearly) separable data: the unpenalised fit does not exist
        case.leq(np.abs(g[model.free]).max() / Lip, 1e-3 * (1 + np.abs(b).max()), key + ":not-optimal", tol=0, msg="at %s" % b)
    case.close(np.asarray(path.grad_solution).ravel()[~model.free], g[~model.free], key + ":gradient", tol=1e-6, scale=np.abs(g).max() + 1)
    return model.pen.dual(g), g


def judge(case, model, beta, seq, how, key, worst):
    screen = 0 if how == "warm" else SCREEN * 1.001
    case.check(beta.shape[0] == len(seq) or how == "basil-inner", key + ":length", "%s for %d" % (beta.shape, len(seq)))
    for b, lam in zip(beta, seq):
        b = np.asarray(b, float).T.ravel()
        r, Lip = model.residual(b, lam, screen)
        sc = 1 + np.abs(b).max()
        d = np.abs(r).max() / sc
        worst.append(d)
        case.event("points:" + how)
        case.event("active", int((b != 0).sum()))
        case.leq(d, 5e-4 if how.startswith("basil") else 1e-4, key, tol=0, msg="lambda=%r residual %s at %s Lip=%g" % (lam, r, b, Lip))


def start(case, kind, **kw):
    make, model, mk, n, D, fam = build(case, kind, **kw) if kind in ("lasso", "group", "sgl") else build_multi(case, kind)
    path = make()
    top, g = null(case, path, model)
    case.event("fam:%s:%s" % (kind, fam))
    if top < 1e-5 * (1 + np.abs(g).max()):
        raise Skip                  # nothing left to penalise
    return path, model, mk, n, top / model.alpha, make


def gen(kind):
    def fn(case):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            path, model, mk, n, top, make = start(case, kind)
            seq, sk = sequence(case, path, model, top)
            how = STRATS[int(case.rng.integers(0, len(STRATS)))]
            case.note(seq=seq, how=how)
            beta = run(case, path, how, seq, 1e-11)
            case.event("seq:" + sk)
            judge(case, model, beta, seq, how, "kkt:%s:%s" % (kind, how), [])
    return fn


KINDS = ("lasso", "group", "sgl", "multi", "blocks")


def default(case):
    """the default sequence: first entry is the smallest parameter with a null penalised part; geometric; given length and range"""
    kind = KINDS[case.index % 5]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path, model, mk, n, top, make = start(case, kind)
        prop, k = [.05, .001, .5, .9][case.rng.integers(0, 4)], int(case.rng.integers(1, 40))
        seq = np.asarray(default_lagrange_sequence(path.penalty, path.grad_solution, lagrange_proportion=prop, nstep=k, alpha=path.alpha))
        case.check(seq.shape == (k,), "default:length", str(seq.shape))
        if k > 1:
            case.close(seq[0], top, "default:first", tol=1e-5, scale=top)
            case.close(seq[-1], prop * top, "default:last", tol=1e-5, scale=top)
            case.close(np.diff(np.log(seq)), np.full(k - 1, np.log(prop) / (k - 1)), "default:geometric", tol=1e-6)
            # just above it the reported solution is null, just below it is not
            g = model.grad(np.asarray(path.solution, float).ravel(), 1.)
            if model.free.any() and np.abs(g[model.free]).max() > 1e-6 * np.abs(g).max():
                raise Skip              # the null fit (default tolerance) is too rough to place the entry point within 0.1%
            b = run(case, path, "warm", top * np.array([1.001, .98]), 1e-12)
            z = [np.abs(np.asarray(u).T.ravel()[~model.free]).max() for u in b]
            case.leq(z[0], 1e-5 * (1 + np.abs(b).max()), "default:null-above", tol=0)
            case.event("default:active-below", int(z[1] > 0))
            case.event("default")
        else:
            case.close(seq[0], prop * top, "default:single", tol=1e-5, scale=top)


def agree(case):
    """every strategy on one strictly convex problem"""
    kind = KINDS[case.index % 5]
    rng = case.rng
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path, model, mk, n, top, make = start(case, kind, **({} if kind in ("multi", "blocks") else dict(p=int(rng.choice([3, 5, 8, 12])))))
        seq, sk = sequence(case, path, model, top)
        hows = [STRATS[i] for i in rng.permutation(len(STRATS))]
        case.note(seq=seq, how=hows)
        out = {}
        for how in hows:
            out[how] = run(case, path, how, seq, 1e-11)
            judge(case, model, out[how], seq, how, "agree-kkt:%s:%s" % (kind, how), [])
        # objective values: screening may leave 1% of a threshold on excluded features
        for how in hows:
            for b, w, lam in zip(out[how], out["warm"], seq):
                b, w = np.asarray(b).T.ravel(), np.asarray(w).T.ravel()
                f, g = model.val(b, lam), model.val(w, lam)
                gap = SCREEN * model.alpha * lam * model.pen.val(w) + 1e-4 * (1 + abs(g))
                case.leq(g, f, "agree:%s" % kind, tol=1e-5, scale=abs(g), msg="%s below warm start at %r" % (how, lam))
                case.leq(f, g + gap, "agree:%s" % kind, tol=0, msg="%s above warm start at %r" % (how, lam))
                case.event("agreed")


def subset(rng, n):
    """rows kept, as index in one of the accepted forms, and the indicator"""
    k = int(rng.integers(max(3, n // 2), n + 1))
    keep = np.zeros(n, bool)
    keep[rng.permutation(n)[:k]] = True
    m = rng.integers(0, 4)
    if m == 0:
        return keep.copy(), keep
    if m == 1:
        return list(np.nonzero(keep)[0]), keep
    if m == 2:
        keep = np.arange(n) < k
        return slice(0, k), keep
    return rng.permutation(np.nonzero(keep)[0]), keep


def subsample(case):
    """path.subsample(rows): every point solves the problem on those rows; again after a second subsample; the parent does not change"""
    kind = KINDS[case.index % 5]
    rng = case.rng
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path, model, mk, n, top, make = start(case, kind)
        N = int(path.saturated_loss.shape[0])
        seq = top * np.array([.9, .5, .2])
        parent = run(case, path, "strong", seq, 1e-11)
        cur, r = path, model.ref
        for level in range(int(rng.integers(1, 3))):
            idx, keep = subset(rng, N)
            if kind == "blocks":
                pass
            cur, r = cur.subsample(idx), r.weighted(keep)
            sub = mk(r)
            if not np.any(r.grad(model.X(np.zeros(model.shape)))):
                raise Skip
            t2, g2 = null(case, cur, sub, "subsample-null:" + kind)
            if t2 < 1e-4 * (1 + np.abs(g2).max()):
                raise Skip
            s2 = t2 / model.alpha * np.array([1., .8, .3])[:int(rng.integers(1, 4))]
            how = STRATS[int(rng.integers(0, len(STRATS)))]
            case.note(rows=keep, how=how, seq=s2)
            judge(case, sub, run(case, cur, how, s2, 1e-11), s2, how, "subsample:%s:%s" % (kind, how), [])
            case.event("subsample:" + kind)
        case.same(run(case, path, "strong", seq, 1e-11), parent, "subsample:parent-changed:" + kind)


def history(case):
    """strategies in random order on one path object: no run changes the path's data or a later run's answer"""
    kind = KINDS[case.index % 5]
    rng = case.rng
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path, model, mk, n, top, make = start(case, kind)
        seq = top * np.array([.9, .5, .2])
        keep = [np.array(path.solution), np.array(path.grad_solution), np.array(path.elastic_net_param)]
        seen = {}
        fresh = make()
        hows = [STRATS[int(i)] for i in rng.integers(0, len(STRATS), int(rng.integers(2, 5)))]
        hows.append(hows[0])
        case.note(hows=hows)
        for how in hows:
            case.rng = np.random.default_rng(7)      # same batching options each time
            s = seq.copy()
            beta = run(case, path, how, s, 1e-10)
            case.same(s, seq, "history:sequence-changed")
            for a, b, nm in zip(keep, [path.solution, path.grad_solution, path.elastic_net_param], ["solution", "grad_solution", "elastic_net_param"]):
                case.same(np.asarray(b), a, "history:%s-changed:%s" % (nm, how))
            if how in seen:
                case.same(beta, seen[how], "history:answer-changed:%s:%s" % (kind, how))
                case.event("history:repeat")
            seen[how] = beta
            judge(case, model, beta, seq, how, "history:%s:%s" % (kind, how), [])
        how = hows[int(rng.integers(0, len(hows)))]
        case.rng = np.random.default_rng(7)
        case.same(run(case, fresh, how, seq.copy(), 1e-10), seen[how], "history:differs-from-fresh:%s:%s" % (kind, how))
        case.event("history:fresh")


def options(case):
    """progress messages, the first guess of the step size and solver arguments do not change what is found; reported deviances are
    those of the reported coefficients; argument dictionaries and the sequence stay the caller's"""
    kind = KINDS[case.index % 5]
    rng = case.rng
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path, model, mk, n, top, make = start(case, kind)
        seq = top * np.array([.95, .5, .2])[:int(rng.integers(1, 4))]
        how = [strong_rules, warm_start, basil][int(rng.integers(0, 3))]
        nm = how.__name__
        kw = {}
        if how is strong_rules and rng.random() < .5:
            kw["check_active"] = True
        sa = dict(max_its=30000) if rng.random() < .5 else dict(max_its=30000, min_its=10)
        if how is not strong_rules:
            kw["solve_args"] = dict(sa)
        init = (np.array(path.solution), np.array(path.grad_solution))
        keep = [a.copy() for a in init]

        def go(**more):
            np.random.seed(case.index)
            s = seq.copy()
            with contextlib.redirect_stdout(io.StringIO()) as out:
                r = how(make(), s, init, inner_tol=1e-11, **dict(kw, **more))
            case.same(s, seq, "options:sequence-changed:" + nm)
            case.same(init[0], keep[0], "options:solution-changed:" + nm)
            case.same(init[1], keep[1], "options:gradient-changed:" + nm)
            if "solve_args" in kw:
                case.check(kw["solve_args"] == sa, "options:solve-args-changed:" + nm, str(kw["solve_args"]))
            return r, out.getvalue()
        case.note(how=nm, kw=kw, seq=seq)
        quiet, _ = go()
        loud, text = go(verbose=True)
        beta = lambda r: np.asarray(r if how is basil else r["beta"])
        case.same(beta(loud), beta(quiet), "options:verbose-changes-answer:" + nm)
        case.event("options:printed", int(len(text) > 0))
        step = float(10 ** rng.uniform(-3, 4))
        other, _ = go(initial_step=step)
        judge(case, model, beta(other), seq, "warm" if how is warm_start else "basil" if how is basil else "strong", "options:step:" + nm, [])
        judge(case, model, beta(quiet), seq, "warm" if how is warm_start else "basil" if how is basil else "strong", "options:quiet:" + nm, [])
        if how is not basil:
            case.same(np.asarray(quiet["lagrange"]), seq, "options:lagrange:" + nm)
            X = path.X
            L0 = path.saturated_loss          # multinomial losses keep their constant in the quadratic
            f = np.array([L0.smooth_objective(e, "func") + L0.quadratic.objective(e, "func") for e in [X.dot(np.asarray(b, float).T) for b in beta(quiet)]])
            if how is warm_start:
                case.close(quiet["devratio"], 1 - f / f.max(), "options:deviance:warm_start", tol=1e-6, scale=1 + np.abs(f / f.max()).max())
        case.event("options:" + nm)


def factories(case):
    """the constructors by loss name"""
    rng = case.rng
    n, p = int(rng.integers(10, 31)), int(rng.integers(2, 9))
    mods = {"lasso": PL, "group": PG, "sgl": PS, "blocks": PB, "multi": PB}
    kind = KINDS[case.index % 5]
    D = np.round(rng.standard_normal((n, p)), 4)
    fam = FAMS[(case.index // 5) % len(FAMS)]
    mod = mods[kind]

    def resp(m):
        if fam == "cox":
            t, d = p19.data(rng, m)
            d = np.asarray(d).copy()
            if d.sum() == 0:
                d[:] = 1
            return t, d
        y = np.asarray(S.response(rng, fam, m)[0])
        if fam in S.BINARY or fam == "huber_svm":
            y = (rng.random(m) < .5).astype(int)
            y[0], y[-1] = 0, 1
        if fam == "poisson":
            y = rng.poisson(2, m) + 1
        return (y,)
    eps = (float(np.round(rng.uniform(.2, 2), 2)),) if fam.startswith("huber") else ()

    def ref(y):
        if fam == "cox":
            return L.Cox(y[0], y[1], 1., None, None)
        return L.Sat(L.FAM[fam](y[0], None, eps[0] if eps else None), 1., None, None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind in ("lasso", "group", "sgl"):
            y, w = resp(n), np.round(rng.uniform(.5, 2, p), 2)
            lab = rng.integers(0, 3, p)
            ids = np.unique(lab)
            groups = [np.array([j]) for j in range(p)] if kind == "lasso" else [np.nonzero(lab == g)[0] for g in ids]
            sq = np.zeros(p)
            for i in groups:
                sq[i] = np.sqrt(len(i))
            args = {"lasso": (w.copy(),), "group": (lab.copy(),), "sgl": (lab.copy(), w.copy())}[kind]
            pen = {"lasso": Pen(w, np.zeros(p), groups), "group": Pen(np.zeros(p), sq, groups), "sgl": Pen(.95 * w, .05 * sq, groups)}[kind]
            keep = [np.array(a) for a in y] + [np.array(a) for a in args]
            path = getattr(mod, fam)(D.copy(), *(y + eps + args))
            r = ref(y)
            nx = np.linalg.norm(D, 2) ** 2
            model = Model(r, lambda b: D.dot(b), lambda g: D.T.dot(g), (p,), pen, np.ones(p), 1., lambda eta: nx * curvature(r, fam)(eta))
            for a, b in zip(keep, list(y) + list(args)):
                case.same(np.asarray(b), a, "factory:input-changed:%s:%s" % (kind, fam))
        else:
            q = int(rng.integers(2, 4))
            l1, l2 = float(np.round(rng.uniform(.5, 2), 2)), float(np.round(rng.uniform(.5, 2), 2))
            pen = Pen(np.full(p * q, l1), np.full(p * q, l2), [np.arange(j * q, (j + 1) * q) for j in range(p)])
            nx = np.linalg.norm(D, 2) ** 2
            if kind == "multi":
                fam = ["multinomial", "gaussian"][(case.index // 5) % 2]
                if fam == "multinomial":
                    Y = np.eye(q, dtype=int)[rng.integers(0, q, n)]
                    Y[:q] = np.eye(q)
                    path, r = mod.multinomial(D.copy(), Y.copy(), l1, l2), p22.Multi(Y, False)
                else:
                    Y = np.round(rng.standard_normal((n, q)), 3)
                    path = mod.multiresponse_gaussian(D.copy(), Y.copy(), l1, l2)
                    r = p22.Stack([L.Sat(L.FAM["gaussian"](Y[:, k]), 1., None, None) for k in range(q)], True)
                model = Model(r, lambda b: D.dot(b), lambda g: D.T.dot(g), (p, q), pen, np.ones(p * q), 1., lambda eta: nx)
            else:
                ns = [int(rng.integers(6, 20)) for _ in range(q)]
                Ds = [np.round(rng.standard_normal((k, p)), 4) for k in ns]
                ys = [resp(k) for k in ns]
                call = tuple([list(c) for c in zip(*ys)])
                path = getattr(mod, "stacked_" + fam)([d.copy() for d in Ds], *(call + eps + (l1, l2)))
                r = p22.Stack([ref(y) for y in ys], False)
                cut = np.cumsum(ns)[:-1]
                nx = max(np.linalg.norm(d, 2) ** 2 for d in Ds)
                model = Model(r, lambda b: np.hstack([d.dot(b[:, k]) for k, d in enumerate(Ds)]),
                              lambda g: np.array([d.T.dot(u) for d, u in zip(Ds, np.split(g, cut))]).T, (p, q), pen, np.ones(p * q), 1.,
                              lambda eta: nx * max(curvature(a, fam)(x) for a, x in r.parts(eta)))
        case.note(kind=kind, fam=fam, X=D, eps=eps)
        top, g = null(case, path, model, "factory-null:" + kind)
        if top < 1e-6:
            raise Skip
        seq = top * np.array([1., .6, .3])
        how = STRATS[int(rng.integers(0, len(STRATS)))]
        judge(case, model, run(case, path, how, seq, 1e-11), seq, how, "factory:%s:%s" % (kind, fam), [])
        case.event("factory:%s:%s" % (kind, fam))


FAMILIES = [Family(k, gen(k), 60, 2500, need=["points:" + h for h in STRATS], timeout=240) for k in KINDS] + [
    Family("default", default, 40, 1500, need=["default"], timeout=240),
    Family("agree", agree, 40, 1500, need=["agreed"], timeout=240),
    Family("subsample", subsample, 50, 2000, need=["subsample:" + k for k in KINDS], timeout=240),
    Family("history", history, 40, 1500, need=["history:repeat", "history:fresh"], timeout=240),
    Family("options", options, 40, 1200, need=["options:strong_rules", "options:warm_start", "options:basil", "options:printed"], timeout=240),
    Family("factories", factories, 90, 1500, need=["factory:lasso:cox", "factory:blocks:poisson", "factory:multi:multinomial"], timeout=240),
]
