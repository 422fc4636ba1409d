"""P16 estimators fit, predict and score the model they describe."""
import copy, warnings
import numpy as np
import scipy.sparse as sp
from scipy.special import softmax, expit, ndtri
import regreg.api as rr
import regreg.sklearn.api as sk
from sklearn.base import clone
from sklearn.model_selection import GridSearchCV, KFold, LeaveOneOut, cross_val_predict, cross_val_score, cross_validate
from rv.core import Family, Skip
from rv import catalog as C, losses as S, refloss as L, refpen as R, problems as P
from rv.props import p19, p22
from rv.props.p11 import judge

FAMS = ["gaussian", "logistic", "probit", "cloglog", "huber", "huber_svm", "cox"]
TIGHT = dict(tol=1e-14, min_its=50)


def quiet(f):
    def g(case):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return f(case)
    g.__name__ = f.__name__
    return g


def like(rng, a, one=False):
    """the same numbers in another memory layout"""
    a = np.asarray(a)
    m = rng.integers(0, 4)
    if m == 1 and a.ndim > 1:
        return np.asfortranarray(a)
    if m == 2:
        return np.repeat(a, 2, axis=0)[::2]
    return np.array(a)


class Data(object):
    """one dataset of a family: X (library object), A (dense), Y (columns), reference loss of the linear predictor"""
    def __init__(self, rng, fam, n, p, like_=None, q=0, weights=None, offset=None, big=1., simple=False):
        self.fam, self.n = fam, n
        A = np.round(rng.standard_normal((n, p)) * (rng.random((n, p)) < .8), 3)
        if fam == "cloglog":
            A = np.round(A / max(1., np.abs(A).sum(1).max() / 3.), 6)
        self.A = A * big
        m = rng.integers(0, 6)
        self.X = sp.csr_matrix(self.A) if m == 0 else like(rng, self.A)
        self.eps = like_.eps if like_ is not None else (S.eps(rng) if fam.startswith("huber") else None)
        self.trials = None
        if fam == "cox":
            t, d = p19.data(rng, n)
            self.y = (np.asarray(t, float), np.asarray(d, float))
            cols = list(self.y)
        elif fam == "multinomial":
            one = rng.random() < .6 or simple
            self.one = one
            self.y = np.eye(q)[rng.integers(0, q, n)] if one else rng.integers(0, 4, (n, q)).astype(float)
            if rng.random() < .3:
                self.y = self.y.astype(int)
            cols = list(self.y.T)
        else:
            self.y, self.trials = S.response(rng, fam, n)
            want = like_.trials is not None if like_ is not None else None
            if simple or (want is False and self.trials is not None):
                self.y, self.trials = (rng.random(n) < .5).astype([int, float, bool][rng.integers(0, 3)]), None
                if fam in ("gaussian", "huber"):
                    self.y = np.round(rng.standard_normal(n), 3)
                if fam == "huber_svm":
                    self.y = self.y.astype(float)
            if want and self.trials is None:
                self.trials = rng.integers(1, 6, n)
                self.y = rng.binomial(self.trials, .5)
            cols = [self.y] + ([] if self.trials is None else [self.trials])
        w = S.weights(rng, n) if weights is None else (S.weights(rng, n) if weights else None)
        while weights and w is None:
            w = S.weights(rng, n)
        if w is not None:
            w = np.minimum(w, 20)
        o = None
        if fam != "multinomial":
            o = S.offs(rng, n) if offset is None else (S.offs(rng, n) if offset else None)
            while offset and o is None:
                o = S.offs(rng, n)
        self.w, self.o = w, o
        if w is not None: cols.append(w)
        if o is not None: cols.append(o)
        if len(cols) == 1:
            self.Y = np.array(cols[0])
        else:
            self.Y = like(rng, np.column_stack([np.asarray(c) for c in cols]))

    def kw(self):
        d = dict(case_weights=self.w is not None)
        if self.fam != "multinomial":
            d["offset"] = self.o is not None
        return d

    def ref(self, coef=1., extra=None, w="own", off=True):
        w = self.w if isinstance(w, str) else w
        if extra is not None:
            w = np.asarray(extra, float) * (1. if w is None else w)
        o = self.o if off else None
        if self.fam == "cox":
            return L.Cox(self.y[0], self.y[1], coef, o, w)
        if self.fam == "multinomial":
            return p22.Multi(self.y, False, coef, None, w)
        return L.Sat(L.FAM[self.fam](self.y, self.trials, self.eps), coef, o, w)

    def loss(self, coef, shape):
        r, A = self.ref(coef), self.A
        return P.Loss(self.fam, shape, None, lambda x: r.val(A.dot(x)), lambda x: A.T.dot(r.grad(A.dot(x))), design=A, desc=self.desc())

    def desc(self):
        return dict(fam=self.fam, A=self.A, Y=self.Y, eps=self.eps, trials=self.trials is not None, w=self.w is not None, o=self.o is not None,
                    sparse=sp.issparse(self.X))


def norm(fam):
    return rr.l1_l2 if fam == "multinomial" else rr.l1norm


def eclass(fam, kind=""):
    return getattr(sk, fam + kind)


def estimator(d, ctor, params, kind="", solve=None, **kw):
    args = [ctor, params]
    if d.eps is not None:
        args = [d.eps] + args
    kw = dict(d.kw(), **kw)
    if kind == "_classifier":
        kw.pop("offset", None)
    own = solve is not None and (d.fam.startswith("huber") or kind == "_classifier")
    if solve is not None and not own:
        kw["solve_args"] = dict(solve)
    e = eclass(d.fam, kind)(*args, **kw)
    if own:
        e.solve_args = dict(solve)
    return e


def dense(X):
    return np.asarray(X.todense()) if sp.issparse(X) else np.array(X)


class Keep(object):
    """the arrays handed over stay as they were"""
    def __init__(self, case, **arrays):
        self.case, self.a, self.c = case, arrays, {k: copy.deepcopy(v) for k, v in arrays.items()}

    def __call__(self, key):
        for k, v in self.a.items():
            o = self.c[k]
            if v is None:
                continue
            same = np.array_equal(dense(v), dense(o), equal_nan=True) if not isinstance(v, dict) else set(v) == set(o)
            self.case.check(same, key + ":%s-modified" % k, lambda: "%s was %s now %s" % (k, o, v))
        self.case.event("inputs-kept")


def predictions(case, e, rng, d, key):
    X2 = np.round(rng.standard_normal((C.dim(rng, 1, 6), d.A.shape[1])) * 3, 3)
    b = np.array(e._coefs)
    got = e.predict(X2)
    case.close(got, X2.dot(b), key + ":predict", 1e-12)


def again(case, e, d, key, tol=1e-6):
    """second fit and a fit of a clone give the same coefficients"""
    b = np.array(e._coefs)
    r = e.fit(d.X, d.Y)
    case.check(r is e, key + ":fit-returns-self")
    case.close(e._coefs, b, key + ":refit", tol)
    c = clone(e)
    if hasattr(e, "solve_args"):
        c.solve_args = e.solve_args
    c.fit(d.X, d.Y)
    case.close(c._coefs, b, key + ":clone", tol)
    case.event("refit+clone")


def fam_for(rng, index, shape):
    return "multinomial" if len(shape) > 1 else FAMS[index % len(FAMS)]


def make(case, kinds, form=None, fam=None):
    """a penalty maker, its parameter scale and a dataset of matching shape"""
    rng = case.rng
    kind = kinds[case.index // 2 % len(kinds)]
    form = form or ("lagrange" if rng.random() < .5 else "bound")
    if (kind, form) in C.NOPROX:
        form = "bound" if form == "lagrange" else "lagrange"
    seed = int(rng.integers(0, 2 ** 31))
    mk = lambda prm: C.make(np.random.default_rng(seed), kind, form, param=prm, zero_param=False)
    item = mk(1.)
    fam = fam or fam_for(rng, case.index, item.shape)
    if len(item.shape) > 1 and (len(item.shape) > 2 or item.shape[1] < 2):
        raise Skip("no multinomial of this shape")
    d = Data(rng, fam, C.dim(rng, 2, 14), item.shape[0], q=item.shape[1] if len(item.shape) > 1 else 0)
    return mk, item, d, kind


def scale_of(item, ls, rng):
    u = float(np.exp(rng.uniform(-3, .5)))
    if item.form == "lagrange":
        g0 = ls.grad(np.zeros(item.shape))
        g = item.pen.g.q(g0) if item.pen.g.q_out(g0) == 0 else 1.
    else:
        g = item.pen.g.p(C.point(rng, item.shape))
    return float(np.clip(u * g, 1e-3, 1e3)) if np.isfinite(g) and g > 0 else u


@quiet
def f_fit(case):
    """base estimators: coefficients minimise coef * loss + regulariser"""
    rng = case.rng
    mk, item, d, kind = make(case, C.ALL)
    coef = S.coef(rng)
    ls = d.loss(coef, item.shape)
    if item.form in ("lagrange", "bound"):
        item = mk(scale_of(item, ls, rng))
    off = C.point(rng, item.shape, .5) if rng.random() < .3 else None
    mu = float(np.round(np.exp(rng.uniform(-2.5, 1)), 3))
    where = ["p", "p", "e", "pe"][rng.integers(0, 4)]
    if d.fam.startswith("huber"):
        where = "p"                 # these constructors take no quadratic
    pq = P.arr_parts(rng, item.shape, mu) if "p" in where else None
    eq = P.arr_parts(rng, item.shape, mu) if "e" in where else None
    prob = P.Prob(ls, item, off, pq, None, eq)
    case.note(kind=kind, coef=coef, **prob.desc())
    prob.optimum(case)
    params = {}
    if off is not None: params["offset"] = off.copy()
    if pq is not None: params["quadratic"] = P.lib_quad(pq)
    kw = dict(coef=coef)
    if eq is not None: kw["quadratic"] = P.lib_quad(eq)
    init = C.point(rng, item.shape, .3) if rng.random() < .3 and not d.fam.startswith("huber") else None
    if init is not None: kw["initial"] = init
    easy = rng.random() < .15
    e = estimator(d, lambda **k: item.build(**k), params, solve=None if easy else TIGHT, **kw)
    keep = Keep(case, X=d.X, y=d.Y, initial=init, atom_params=params, offset=params.get("offset"))
    e.fit(d.X, d.Y)
    case.event("fit:" + d.fam)
    if easy:
        case.event("default-solver")
        judge(case, prob, e._coefs, "fit-default", tol=5e-2, xtol=10.)
    else:
        judge(case, prob, e._coefs, "fit", xtol=1e-3)
    predictions(case, e, rng, d, "fit")
    if rng.random() < .4:
        again(case, e, d, "fit")
    keep("fit")


FULL = [k for k in C.ALL if (k, "lagrange") not in C.NOPROX and k not in C.CONES and k not in C.OTHER]


@quiet
def f_lagrange(case):
    """lagrange estimators: the constructor gets the gradient of the loss at zero; elastic net mixing"""
    rng = case.rng
    mk, item, d, kind = make(case, [k for k in FULL], form="lagrange")
    if item.form != "lagrange":
        raise Skip("no lagrange form")
    coef = S.coef(rng)
    ls = d.loss(coef, item.shape)
    g0 = ls.grad(np.zeros(item.shape))
    u = float(np.round(np.exp(rng.uniform(-2.5, .5)), 3))
    rule = (lambda s: float(np.clip(u * np.abs(s).max(), 1e-3, 1e3)))
    a = [0., .1, .5, .9][rng.integers(0, 4)]
    pq = P.arr_parts(rng, item.shape, float(np.round(np.exp(rng.uniform(-2, .5)), 3))) if a == 0 or rng.random() < .3 else None
    seen = []

    def ctor(score, **k):
        seen.append(np.array(score))
        return mk(rule(score)).build(**k)
    params = {} if pq is None else dict(quadratic=P.lib_quad(pq))
    e = estimator(d, ctor, params, "_lagrange", solve=TIGHT, coef=coef, enet_alpha=a)
    keep = Keep(case, X=d.X, y=d.Y, atom_params=params)
    case.note(kind=kind, coef=coef, u=u, a=a, pq=pq, d=d.desc())
    e.fit(d.X, d.Y)
    case.check(len(seen) > 0, "lagrange:constructor-called")
    gs = 1 + np.abs(g0).max()
    for s in seen:
        case.close(s, g0, "lagrange:score-at-zero", 1e-8, gs * d.n)
    case.event("score-seen")
    prm = rule(seen[-1])
    eq = None if a == 0 else (a * prm, None, None, 0)
    prob = P.Prob(ls, mk(prm * (1 - a)), None, pq, None, eq)
    prob.optimum(case)
    judge(case, prob, e._coefs, "lagrange", xtol=1e-3)
    case.event("enet" if a else "plain")
    predictions(case, e, rng, d, "lagrange")
    if rng.random() < .4:
        again(case, e, d, "lagrange")
    keep("lagrange")


@quiet
def f_unpenalized(case):
    """unpenalized=True: the constructor gets the gradient at the fit of the unpenalised features"""
    rng = case.rng
    p = int(rng.integers(2, 9))
    fam = FAMS[case.index % len(FAMS)]
    n = int(rng.integers(20, 40))
    d = Data(rng, fam, n, p)
    groups = C.rand_groups(rng, p) if rng.random() < .5 else [int(v) for v in rng.integers(0, 3, p)]
    labs = sorted(set(groups))
    fl = set(x for x in labs if rng.random() < .4) or {labs[0]}
    if len(fl) == len(labs):
        fl.discard(labs[-1])
    if not fl:
        raise Skip("one group")
    free = np.array([g in fl for g in groups])
    m = case.index // len(FAMS) % 3
    gw = {g: 0. if g in fl else float(np.round(rng.uniform(.5, 2), 2)) for g in labs}
    l1 = np.where(free, 0., np.round(rng.uniform(.3, 2, p), 2))
    u = float(np.round(np.exp(rng.uniform(-2.5, 0)), 3))
    rule = lambda s: float(np.clip(u * np.abs(np.asarray(s)[~free]).max(), 1e-2, 1e3))
    if m == 0:
        gauge = R.WeightedL1(l1)
        mk = lambda prm, **k: rr.weighted_l1norm(l1.copy(), lagrange=prm, **k)
    elif m == 1:
        gauge = R.Group(groups, gw)
        mk = lambda prm, **k: rr.group_lasso(groups, weights=dict(gw), lagrange=prm, **k)
    else:
        gauge = R.SparseGroup(groups, l1, gw)
        mk = lambda prm, **k: rr.sparse_group_lasso(groups, l1.copy(), weights=dict(gw), lagrange=prm, **k)
    coef = S.coef(rng)
    a = [0., .3, .8][rng.integers(0, 3)]
    pq = P.arr_parts(rng, (p,), float(np.round(np.exp(rng.uniform(-2, .5)), 3)))
    seen = []

    def ctor(score, **k):
        seen.append(np.array(score))
        return mk(rule(score), **k)
    params = dict(quadratic=P.lib_quad(pq))
    e = estimator(d, ctor, params, "_lagrange", solve=TIGHT, coef=coef, enet_alpha=a, **({} if fam.startswith("huber") else dict(unpenalized=True)))
    e.unpenalized = True
    case.note(m=m, groups=groups, l1=l1, gw=gw, u=u, a=a, pq=pq, coef=coef, d=d.desc())
    ls = d.loss(coef, (p,))
    keep = Keep(case, X=d.X, y=d.Y)
    e.fit(d.X, d.Y)
    keep("unpenalized")
    # null model: only the unpenalised features, with the ridge parts
    prm0 = rule(ls.grad(np.zeros(p)))
    sub = lambda v: None if v is None else np.asarray(v)[free]
    emb = lambda x: np.where(free, 0., 0.) + np.bincount(np.flatnonzero(free), weights=x, minlength=p)
    l0 = P.Loss("null", (int(free.sum()),), None, lambda x: ls.val(emb(x)), lambda x: ls.grad(emb(x))[free])
    null = P.Prob(l0, None, None, (pq[0], sub(pq[1]), sub(pq[2]), 0), None, None if a == 0 else (a * prm0, None, None, 0))
    x0 = null.optimum(case)
    # other features may be moved by the quadratic's own linear part only through the penalty: they stay at zero
    want = ls.grad(emb(x0))
    scale = np.abs(ls.grad(np.zeros(p))).max() + np.abs(want).max()
    case.close(seen[-1], want, "unpenalized:null-gradient", 0.15, scale)      # the null fit runs at default tolerances
    case.event("null-gradient")
    prm = rule(seen[-1])
    prob = P.Prob(ls, None, None, pq, None, None if a == 0 else (a * prm, None, None, 0))
    item = Holder(lambda offset=None, quadratic=None: mk(prm * (1 - a), offset=offset, quadratic=quadratic), R.Pen(gauge, lagrange=prm * (1 - a)))
    prob.item, prob.pen = item, item.pen
    prob.optimum(case)
    judge(case, prob, e._coefs, "unpenalized", xtol=1e-3)
    case.event("unpenalized:%s" % ["l1", "group", "sgl"][m])


class Holder(object):
    def __init__(self, build, pen):
        self.build, self.pen, self.desc = build, pen, {}


CLASSES = ["logistic", "probit", "cloglog", "multinomial"]


@quiet
def f_classifier(case):
    """labels, probabilities and accuracy"""
    rng = case.rng
    fam = CLASSES[case.index % 4]
    p, q = C.dim(rng, 1, 6), int(rng.integers(2, 5))
    shape = (p, q) if fam == "multinomial" else (p,)
    d = Data(rng, fam, C.dim(rng, 2, 20), p, q=q, offset=False, simple=True)
    coef = S.coef(rng)
    ls = d.loss(coef, shape)
    bound = float(np.round(np.exp(rng.uniform(-1, 2)), 2))
    pq = P.arr_parts(rng, shape, .1)
    item = Holder(lambda offset=None, quadratic=None: 
                  (rr.l1_l2 if fam == "multinomial" else rr.l1norm)(shape, bound=bound, quadratic=quadratic),
                  R.Pen(R.Block(R.L2()) if fam == "multinomial" else R.L1(), bound=bound))
    prob = P.Prob(ls, item, None, pq, None, None)
    case.note(bound=bound, coef=coef, pq=pq, d=d.desc())
    prob.optimum(case)
    kind = "_classifier" if rng.random() < .6 else ["_classifier_lagrange", ""][rng.integers(0, 2)]
    plain = kind == ""
    params = dict(quadratic=P.lib_quad(pq))
    e = (eclass(fam)(lambda **k: item.build(**k), params, case_weights=d.w is not None, coef=coef, score_method="accuracy") if plain else
         eclass(fam, kind)(lambda **k: item.build(**k), params, case_weights=d.w is not None, coef=coef))
    e.solve_args = dict(TIGHT)
    keep = Keep(case, X=d.X, y=d.Y)
    e.fit(d.X, d.Y)
    judge(case, prob, e._coefs, "classifier:fit", xtol=1e-3)
    b = np.array(e._coefs)
    big = 1. if rng.random() < .5 else float(10 ** rng.uniform(0, 5))
    t = Data(rng, fam, C.dim(rng, 1, 12), p, q=q, offset=False, weights=d.w is not None, simple=True, big=big)
    eta = t.A.dot(b)
    k2 = Keep(case, X=t.X, y=t.Y)
    if fam == "multinomial":
        want = softmax(eta, axis=1)
        srt = np.sort(eta, axis=1)
        clear = srt[:, -1] - srt[:, -2] > 1e-9 * (1 + np.abs(eta).max())
        lab, true = eta.argmax(1), t.y.argmax(1)
    else:
        want = L.FAM[fam](t.y if t.y.dtype != bool else t.y.astype(float)).mean(eta)
        th = np.log(np.log(2)) if fam == "cloglog" else 0.
        clear = np.abs(eta - th) > 1e-9 * (1 + np.abs(eta).max())
        lab, true = eta > th, np.asarray(t.y, float)
    if not plain:
        case.event("proba:" + fam)
        pr = np.asarray(e.predict_proba(t.X))
        case.check(pr.shape == want.shape, "classifier:proba-shape", "%s" % (pr.shape,))
        case.check(np.isfinite(pr).all(), "classifier:proba-finite", "eta=%s p=%s" % (eta, pr))
        case.check(pr.min() >= 0 and pr.max() <= 1, "classifier:proba-range", pr)
        if fam == "multinomial":
            case.close(pr.sum(1), np.ones(len(pr)), "classifier:proba-sum", 1e-12)
        case.close(pr, want, "classifier:proba", 1e-10, 1 + np.abs(eta).max() * 1e-3)
        got = np.asarray(e.predict(t.X))
        case.check(got.shape == lab.shape, "classifier:label-shape", "%s" % (got.shape,))
        case.check(np.all((got == lab)[clear]), "classifier:label", lambda: "eta=%s labels=%s" % (eta, got))
        case.event("labels:" + fam)
    if np.all(clear):
        right = lab == true
        sw = None if rng.random() < .6 else np.round(rng.uniform(.1, 3, t.n), 2)
        w = t.w if sw is None else sw * (1. if t.w is None else t.w)
        s = e.score(t.X, t.Y) if sw is None else e.score(t.X, t.Y, sample_weight=sw)
        acc = [right.mean()] + ([np.average(right, weights=w)] if w is not None and np.sum(w) > 0 else [])
        case.leq(min(abs(s - v) for v in acc), 0, "classifier:accuracy", 1e-12, 1., "score %r expected %r" % (s, acc))
        case.event("accuracy:" + fam)
    else:
        case.event("unclear")
    keep("classifier")
    k2("classifier:score")
    if rng.random() < .3:
        again(case, e, d, "classifier")


def null_of(fam, y, trials):
    """constant prediction with the mean response"""
    if fam == "cox":
        return 0.
    if fam == "multinomial":
        return np.log(np.mean(y, 0))
    mu = np.sum(y) / np.sum(trials) if trials is not None else np.mean(y)
    if fam == "logistic": return np.log(mu) - np.log1p(-mu)
    if fam == "probit": return ndtri(mu)
    if fam == "cloglog": return np.log(-np.log1p(-mu))
    return float(mu)


def refscore(case, t, eta, method, sw):
    """(value, tolerance scale) or None when the definition gives no number"""
    r = t.ref(extra=sw, off=False)
    ev = lambda e: r.val(np.asarray(e, float))
    c = 0.
    if t.trials is not None:        # value up to a constant that does not depend on the predictor
        kw = dict(trials=np.array(t.trials), case_weights=np.array(r.w))
        lib = S.cls(t.fam)((t.n,), np.array(t.y), **kw)
        c = lib.smooth_objective(np.zeros(t.n), "func") - ev(np.zeros(t.n))
    f = 1. if t.fam.startswith("huber") else 2.
    v = ev(eta) + c
    mag = r.mag(np.asarray(eta, float)) + abs(c)
    if method == "deviance":
        return -f * v, f * mag
    if method == "mean_deviance":
        return -f * v / t.n, f * mag / t.n
    n0 = null_of(t.fam, t.y, t.trials)
    n0 = np.ones((t.n, 1)) * n0 if t.fam == "multinomial" else np.full(t.n, float(n0))
    if not np.isfinite(n0).all():
        return None
    v0 = ev(n0) + c
    if not np.isfinite(v0) or v0 <= 1e-6 * mag:
        return None
    return 1 - v / v0, (mag + abs(v)) / v0 + 1


@quiet
def f_score(case):
    rng = case.rng
    fam = (FAMS + ["multinomial"])[case.index % 8]
    method = ["deviance", "mean_deviance", "R2"][case.index // 8 % 3]
    p, q = C.dim(rng, 1, 6), int(rng.integers(2, 5))
    shape = (p, q) if fam == "multinomial" else (p,)
    d = Data(rng, fam, int(rng.integers(2, 14)), p, q=q)
    bound = float(np.round(np.exp(rng.uniform(-1, 1)), 2))
    coef = S.coef(rng)
    e = estimator(d, norm(fam), dict(shape=shape, bound=bound), coef=coef, score_method=method)
    case.note(method=method, bound=bound, coef=coef, d=d.desc())
    e.fit(d.X, d.Y)
    same = rng.random() < .3
    m = 1 if rng.random() < .15 else C.dim(rng, 1, 14)
    t = d if same else Data(rng, fam, m, p, like_=d, q=q, weights=d.w is not None, offset=d.o is not None)
    sw = [None, None, np.round(rng.uniform(.1, 3, t.n), 2), rng.integers(0, 3, t.n), np.ones(t.n)][rng.integers(0, 5)]
    eta = t.A.dot(np.array(e._coefs))
    if t.o is not None:
        eta = eta - t.o
    case.note(t=t.desc(), sw=sw)
    if sw is not None and np.all(sw == 0):
        raise Skip("no weight left")
    if t.w is not None and np.all(np.asarray(t.w) == 0):
        raise Skip("no weight left")
    keep = Keep(case, X=t.X, y=t.Y, sw=sw)
    want = refscore(case, t, eta, method, sw)
    if want is None:
        raise Skip("undefined")
    for k in range(2):
        s = e.score(t.X, t.Y) if sw is None else e.score(t.X, t.Y, sample_weight=sw)
        case.check(np.ndim(s) == 0, "score:scalar", repr(s))
        case.close(s, want[0], "score:%s:%s" % (fam, method), 1e-9, want[1])
        keep("score")
    case.event("score:%s:%s" % (fam, method))
    if t.n == 1: case.event("single-row")
    if sw is not None: case.event("sample-weight" + ("+case-weight" if t.w is not None else ""))


@quiet
def f_cv(case):
    """through scikit-learn's own machinery: folds equal fits and scores made by hand"""
    rng = case.rng
    fam = (FAMS + ["multinomial"])[case.index % 8]
    method = ["deviance", "mean_deviance"][rng.integers(0, 2)]
    p, q = C.dim(rng, 1, 5), 3
    shape = (p, q) if fam == "multinomial" else (p,)
    n = int(rng.integers(6, 16))
    d = Data(rng, fam, n, p, q=q)
    X, Y = d.X, d.Y
    b = float(np.round(np.exp(rng.uniform(-1, 1)), 2))
    lag = rng.random() < .5
    if lag:
        ctor = lambda g, **k: norm(fam)(**k)
        params = dict(shape=shape, lagrange=b, quadratic=rr.identity_quadratic(.3, 0, 0, 0))
        e = estimator(d, ctor, params, "_lagrange", score_method=method, enet_alpha=[0, .4][rng.integers(0, 2)])
    else:
        params = dict(shape=shape, bound=b, quadratic=rr.identity_quadratic(.3, 0, 0, 0))
        e = estimator(d, norm(fam), params, score_method=method)
    loo = rng.random() < .2
    cv = LeaveOneOut() if loo else KFold(int(rng.integers(2, min(5, n) + 1)), shuffle=True, random_state=int(rng.integers(0, 99)))
    case.note(method=method, lag=lag, b=b, loo=loo, d=d.desc())
    keep = Keep(case, X=X, y=Y)
    splits = list(cv.split(np.zeros((n, 1))))

    def part(idx):
        t = copy.copy(d)
        t.n, t.A, t.X, t.Y = len(idx), d.A[idx], d.X[idx], d.Y[idx]
        t.y = tuple(v[idx] for v in d.y) if fam == "cox" else d.y[idx]
        t.trials = None if d.trials is None else np.asarray(d.trials)[idx]
        t.w = None if d.w is None else np.asarray(d.w)[idx]
        t.o = None if d.o is None else np.asarray(d.o)[idx]
        return t

    def byhand(est):
        out = []
        for tr, te in splits:
            f = clone(est).fit(X[tr], Y[tr])
            t = part(te)
            eta = t.A.dot(np.array(f._coefs)) - (0 if t.o is None else t.o)
            out.append(refscore(case, t, eta, method, None))
        return np.array(out)
    want = byhand(e)
    got = cross_val_score(e, X, Y, cv=cv, error_score="raise")
    case.close((got - want[:, 0]) / (1 + want[:, 1]), np.zeros(len(got)), "cv:scores", 1e-8)
    case.event("cv-folds", len(got))
    if loo: case.event("leave-one-out")
    if rng.random() < .5:
        pr = cross_val_predict(e, X, Y, cv=cv)
        for tr, te in splits:
            f = clone(e).fit(X[tr], Y[tr])
            case.close(np.asarray(pr)[te], d.A[te].dot(np.array(f._coefs)), "cv:predict", 1e-8)
        case.event("cv-predict")
    if rng.random() < .5 and not loo:
        key = "lagrange" if lag else "bound"
        grid = [dict(params, **{key: b * s}) for s in (.3, 1, 3.)]
        gs = GridSearchCV(e, {"atom_params": grid}, cv=cv, error_score="raise")
        gs.fit(X, Y)
        means = []
        for g in grid:
            h = clone(e).set_params(atom_params=g)
            means.append(byhand(h))
        means = np.array(means)[:, :, 0].mean(1)
        case.close(gs.cv_results_["mean_test_score"], means, "cv:grid", 1e-8)
        best = clone(e).set_params(atom_params=gs.best_params_["atom_params"]).fit(X, Y)
        case.close(gs.best_estimator_._coefs, best._coefs, "cv:refit", 1e-8)
        case.close(gs.predict(dense(X)), d.A.dot(np.array(best._coefs)), "cv:best-predict", 1e-8)
        case.event("grid-search")
    keep("cv")
    case.event("cv:" + fam)


@quiet
def f_params(case):
    """constructor arguments survive get_params, set_params and clone, and decide the fit"""
    rng = case.rng
    fam = (FAMS + ["multinomial"])[case.index % 8]
    kinds = [("", {}), ("_lagrange", dict(enet_alpha=.25))]
    if fam in CLASSES:
        kinds.append(("_classifier", {}))
    kind, kw = kinds[case.index // 8 % len(kinds)]
    d = Data(rng, fam, int(rng.integers(4, 10)), 3, q=3, offset=False if kind == "_classifier" else None, simple=kind == "_classifier")
    shape = (3, 3) if fam == "multinomial" else (3,)
    mk = (lambda g, **k: norm(fam)(**k)) if kind == "_lagrange" else norm(fam)
    params = dict(shape=shape, lagrange=float(np.round(rng.uniform(.1, 2), 2)), quadratic=rr.identity_quadratic(.5, 0, 0, 0))
    c = S.coef(rng)
    e = estimator(d, mk, params, kind, coef=c, **kw)
    got = e.get_params(deep=False)
    want = dict(dict(d.kw(), coef=c, atom_params=params, **kw), **({} if d.eps is None else dict(smoothing_parameter=d.eps)))
    if kind == "_classifier":
        want.pop("offset", None)
    for k, v in want.items():
        case.check(k in got and (got[k] is v or got[k] == v), "params:get:" + k, "%r vs %r" % (got.get(k), v))
    e2 = clone(e)
    for k, v in e2.get_params(deep=False).items():
        if k != "atom_params":
            case.check(v is got[k] or v == got[k], "params:clone:" + k, "%r vs %r" % (v, got[k]))
    e.fit(d.X, d.Y)
    e2.fit(d.X, d.Y)
    case.close(e2._coefs, e._coefs, "params:clone-fit", 1e-10)
    # changing parameters of a fitted estimator equals constructing it with them
    p2, c2 = dict(params, lagrange=params["lagrange"] * 3), float(c) * 2 + .5
    e.set_params(atom_params=p2, coef=c2)
    e.fit(d.X, d.Y)
    f = estimator(d, mk, p2, kind, coef=c2, **kw).fit(d.X, d.Y)
    case.close(e._coefs, f._coefs, "params:set", 1e-10)
    # the clone was not touched
    b = np.array(e2._coefs)
    e2.fit(d.X, d.Y)
    case.close(e2._coefs, b, "params:independent", 1e-10)
    case.event("params:" + fam + kind)


FAMILIES = [
    Family("fit", f_fit, 300, 16000, need=["inputs-kept", "refit+clone"] + ["fit:" + f for f in FAMS + ["multinomial"]], timeout=120),
    Family("lagrange", f_lagrange, 140, 9000, need=["score-seen", "enet", "plain"], timeout=120),
    Family("unpenalized", f_unpenalized, 60, 4000, need=["null-gradient"], timeout=120),
    Family("classifier", f_classifier, 160, 9000, need=["proba:" + f for f in CLASSES] + ["accuracy:" + f for f in CLASSES], timeout=60),
    Family("score", f_score, 400, 20000, need=["single-row", "sample-weight", "sample-weight+case-weight"], timeout=60),
    Family("cv", f_cv, 64, 4000, need=["cv-folds", "cv-predict", "grid-search", "leave-one-out"], timeout=120),
    Family("params", f_params, 48, 2000, need=[], timeout=60),
]
