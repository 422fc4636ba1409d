"""Generators of library losses together with rv/refloss references."""
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
from regreg.smooth import glm as G
from . import refloss as L
from .core import Skip

LIB = {"gaussian": "gaussian_loglike", "logistic": "logistic_loglike", "probit": "probit_loglike", "cloglog": "cloglog_loglike",
       "poisson": "poisson_loglike", "huber": "huber_loss", "huber_svm": "huber_svm"}
ALL = list(LIB)
BINARY = ("logistic", "probit", "cloglog")
LIMIT = {"poisson": 12., "cloglog": 12., "logistic": 400., "probit": 37., "gaussian": 1e3, "huber": 1e3, "huber_svm": 1e3}


def cls(fam):
    return getattr(G, LIB[fam])


def response(rng, fam, n, frac=True):
    """(y, trials or None) as handed to the library"""
    if fam in ("gaussian", "huber"):
        m = rng.integers(0, 4)
        y = [rng.standard_normal(n), rng.standard_normal(n) * 10, rng.integers(-3, 4, n), np.zeros(n)][m]
        return y, None
    if fam == "poisson":
        m = rng.integers(0, 4)
        y = [rng.poisson(2, n), np.zeros(n, int), rng.poisson(5, n).astype(float), rng.integers(0, 2, n)][m]
        return y, None
    m = rng.integers(0, 6)
    y = (rng.random(n) < 0.5)
    y = [y.astype(int), y.astype(float), np.zeros(n), np.ones(n), y.astype(int), y][m]
    if fam == "huber_svm":
        return np.asarray(y, float) if y.dtype == bool else y, None
    if rng.random() < 0.4:
        t = rng.integers(1, 7, n)
        y = rng.binomial(t, 0.5)
        if frac and rng.random() < 0.3:
            y = np.round(t * rng.random(n), 2)
        return y, t
    return y, None


def weights(rng, n, ints=False, zeros=True):
    m = rng.integers(0, 6)
    if m == 0:
        return None
    if ints:
        return [rng.integers(0 if zeros else 1, 4, n), rng.integers(0 if zeros else 1, 4, n).astype(float)][rng.integers(0, 2)]
    w = [np.ones(n), rng.integers(0 if zeros else 1, 4, n), np.round(rng.uniform(0.1, 3, n), 3), np.round(rng.uniform(0.1, 3, n), 3),
         10 ** rng.uniform(-3, 2, n)][m - 1]
    if zeros and rng.random() < 0.3:
        w = w * (rng.random(n) < 0.7)
    return w


def offs(rng, n, scale=1.):
    m = rng.integers(0, 4)
    return [None, rng.standard_normal(n) * scale, rng.integers(-2, 3, n), np.zeros(n)][m]


def coef(rng):
    return [1., 1, 2, 0.5, float(np.round(np.exp(rng.uniform(-3, 2)), 3))][rng.integers(0, 5)]


def eps(rng):
    return [1, 0.5, float(np.round(np.exp(rng.uniform(-3, 2)), 3))][rng.integers(0, 3)]


def etas(rng, fam, n, wild=True):
    """hostile linear predictors"""
    lim = LIMIT[fam]
    m = rng.integers(0, 8)
    if m == 0:
        e = np.zeros(n)
    elif m == 1:
        e = rng.integers(-3, 4, n).astype(float)
    elif m == 2 and wild:
        e = rng.uniform(-lim, lim, n)
    elif m == 3 and wild:
        e = rng.standard_normal(n)
        e[rng.integers(0, n)] = rng.choice([-1, 1]) * rng.uniform(0.3, 1) * lim
    elif m == 4:
        e = rng.integers(-2, 3, n)
    elif m == 5:
        e = rng.standard_normal(n) * 3
    else:
        e = rng.standard_normal(n)
    return np.clip(e, -lim, lim)


class Spec(object):
    """everything needed to build the library loss and its reference"""
    def __init__(self, rng, fam, n, w="any", off=True, c=None):
        self.fam, self.n = fam, n
        self.y, self.trials = response(rng, fam, n)
        self.eps = eps(rng) if fam.startswith("huber") else None
        self.coef = coef(rng) if c is None else c
        self.offset = offs(rng, n) if off else None
        self.w = weights(rng, n) if isinstance(w, str) else w

    def desc(self):
        return dict(fam=self.fam, n=self.n, y=self.y, trials=self.trials, eps=self.eps, coef=self.coef, offset=self.offset, w=self.w)

    def lib(self, y=None, shape=None, **over):
        """saturated loss"""
        cp = lambda a: None if a is None else np.array(a)
        kw = dict(coef=self.coef, offset=cp(self.offset), case_weights=cp(self.w))
        kw.update(over)
        y = cp(self.y) if y is None else y
        shape = shape or (self.n,)
        if self.fam.startswith("huber"):
            return cls(self.fam)(shape, y, self.eps, **kw)
        if self.fam in BINARY:
            return cls(self.fam)(shape, y, trials=cp(self.trials), **kw)
        return cls(self.fam)(shape, y, **kw)

    def ref(self, w=None, coef=None):
        r = L.FAM[self.fam](self.y, self.trials, self.eps)
        s = L.Sat(r, self.coef if coef is None else coef, self.offset, self.w)
        return s if w is None else s.weighted(w)

    def glm(self, X, **over):
        """rr.glm.<fam>; case weights, coef, saturated offset of the spec"""
        cp = lambda a: None if a is None else np.array(a)
        kw = dict(coef=self.coef, saturated_offset=cp(self.offset), case_weights=cp(self.w))
        kw.update(over)
        f = getattr(rr.glm, self.fam)
        if self.fam.startswith("huber"):
            return f(X, cp(self.y), self.eps, **kw)
        if self.fam in BINARY:
            return f(X, cp(self.y), trials=cp(self.trials), **kw)
        return f(X, cp(self.y), **kw)


def design(rng, n, p, kinds=("dense", "F", "strided", "int", "csr", "csc", "transform")):
    """(object for the library, dense matrix, kind)"""
    kind = kinds[rng.integers(0, len(kinds))]
    X = np.round(rng.standard_normal((n, p)) * (rng.random((n, p)) < 0.8), 4)
    if kind == "F":
        return np.asfortranarray(X), X, kind
    if kind == "strided":
        return np.repeat(X, 2, axis=1)[:, ::2], X, kind
    if kind == "int":
        X = rng.integers(-2, 3, (n, p))
        return X, X.astype(float), kind
    if kind == "csr":
        return sp.csr_matrix(X), X, kind
    if kind == "csc":
        return sp.csc_matrix(X), X, kind
    if kind == "transform":
        return rr.astransform(X.copy()), X, kind
    return X.copy(), X, kind
