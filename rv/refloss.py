"""Independent definitions of the losses, written from the documented likelihoods with scipy special functions.

Each saturated reference works per case: val(eta), d1(eta), d2(eta) give value (up to a constant), derivative and
curvature (observed for logistic, Gaussian, Poisson; expected information for probit and complementary log-log)."""
import numpy as np
from scipy import special as sc


class Ref(object):
    hess = True
    response = "real"

    def __init__(self, y, trials=None, eps=None):
        self.y = np.asarray(y, float)
        self.n = np.ones_like(self.y) if trials is None else np.asarray(trials, float)
        self.eps = eps


class Gaussian(Ref):
    def val(self, e): return (e - self.y) ** 2 / 2
    def d1(self, e): return e - self.y
    def d2(self, e): return np.ones_like(e)
    def mean(self, e): return e
    def mag(self, e): return e ** 2 + self.y ** 2 + 1


class Logistic(Ref):
    response = "binary"
    def val(self, e): return self.n * np.logaddexp(0, e) - self.y * e
    def d1(self, e): return self.n * sc.expit(e) - self.y
    def d2(self, e): return self.n * sc.expit(e) * sc.expit(-e)
    def mean(self, e): return sc.expit(e)
    def mag(self, e): return self.n * (np.abs(e) + 1)


class Probit(Ref):
    response = "binary"

    def val(self, e):
        return -(sc.xlogy(self.y, 1) + np.where(self.y > 0, self.y * sc.log_ndtr(e), 0)
                 + np.where(self.n > self.y, (self.n - self.y) * sc.log_ndtr(-e), 0))

    @staticmethod
    def lpdf(e): return -e ** 2 / 2 - np.log(2 * np.pi) / 2

    def d1(self, e):
        a = np.exp(self.lpdf(e) - sc.log_ndtr(e))
        b = np.exp(self.lpdf(e) - sc.log_ndtr(-e))
        return -(self.y * a - (self.n - self.y) * b)

    def d2(self, e): return self.n * np.exp(2 * self.lpdf(e) - sc.log_ndtr(e) - sc.log_ndtr(-e))
    def mean(self, e): return sc.ndtr(e)
    def mag(self, e): return self.n * (e ** 2 + 1)


class CLogLog(Ref):
    response = "binary"

    @staticmethod
    def lp(e):
        """log(1 - exp(-exp(e)))"""
        t = np.exp(e)
        return np.where(e < -30, e, np.log(-np.expm1(-np.maximum(t, 1e-300))))

    def val(self, e):
        return -(np.where(self.y > 0, self.y * self.lp(e), 0) - np.where(self.n > self.y, (self.n - self.y) * np.exp(e), 0))

    @staticmethod
    def ratio(e):
        """t / (exp(t) - 1), t = exp(e)"""
        t = np.minimum(np.exp(np.maximum(e, -200)), 700)
        return t / np.expm1(t)

    def d1(self, e): return -(self.y * self.ratio(e) - (self.n - self.y) * np.exp(e))
    def d2(self, e): return self.n * np.exp(np.minimum(e, 300)) * self.ratio(e)
    def mean(self, e): return -np.expm1(-np.exp(e))
    def mag(self, e): return self.n * (np.exp(e) + np.abs(e) + 1)


class Poisson(Ref):
    response = "count"
    def val(self, e): return np.exp(e) - self.y * e
    def d1(self, e): return np.exp(e) - self.y
    def d2(self, e): return np.exp(e)
    def mean(self, e): return np.exp(e)
    def mag(self, e): return np.exp(e) + self.y * np.abs(e) + 1


class Huber(Ref):
    hess = False
    def _u(self, r): return np.clip(r / self.eps, -1, 1)
    def val(self, e):
        r = e - self.y
        u = self._u(r)
        return r * u - self.eps * u ** 2 / 2
    def d1(self, e): return self._u(e - self.y)
    def mag(self, e): return np.abs(e) + np.abs(self.y) + 1


class HuberSVM(Ref):
    hess = False
    response = "01"
    def _z(self, e): return (2 * self.y - 1) * e
    def val(self, e):
        r = 1 - self._z(e)
        u = np.clip(r / self.eps, 0, 1)
        return r * u - self.eps * u ** 2 / 2
    def d1(self, e):
        return -(2 * self.y - 1) * np.clip((1 - self._z(e)) / self.eps, 0, 1)
    def mag(self, e): return np.abs(e) + 1


FAM = {"gaussian": Gaussian, "logistic": Logistic, "probit": Probit, "cloglog": CLogLog, "poisson": Poisson,
       "huber": Huber, "huber_svm": HuberSVM}


class Sat(object):
    """coef * sum_i w_i l_i((x - offset)_i)"""
    def __init__(self, ref, coef=1., offset=None, w=None):
        self.ref, self.coef = ref, float(coef)
        self.off = np.zeros_like(ref.y) if offset is None else np.asarray(offset, float)
        self.w = np.ones_like(ref.y) if w is None else np.asarray(w, float)

    def _m(self, v): return np.where(self.w > 0, self.w * v, 0.)
    def val(self, x): return self.coef * self._m(self.ref.val(x - self.off)).sum()
    def grad(self, x): return self.coef * self._m(self.ref.d1(x - self.off))
    def hess(self, x): return self.coef * self._m(self.ref.d2(x - self.off))
    def mag(self, x): return self.coef * self._m(self.ref.mag(x - self.off)).sum() + 1e-12
    def gmag(self, x): return self.coef * self._m(np.abs(self.ref.d1(x - self.off)) + self.ref.n + 1) + 1e-12

    def weighted(self, w):
        return Sat(self.ref, self.coef, self.off, self.w * np.asarray(w, float))


class Cox(object):
    """negative log partial likelihood by explicit risk sets"""
    def __init__(self, times, failed, coef=1., offset=None, w=None):
        self.t, self.d = np.asarray(times, float), np.asarray(failed, float)
        self.coef = float(coef)
        self.off = np.zeros_like(self.t) if offset is None else np.asarray(offset, float)
        self.w = np.ones_like(self.t) if w is None else np.asarray(w, float)

    def weighted(self, w):
        return Cox(self.t, self.d, self.coef, self.off, self.w * np.asarray(w, float))

    def _probs(self, x):
        """rows: failures with positive weight; entries: risk-set probabilities"""
        e = x - self.off
        rows, lse, idx = [], [], []
        for i in range(len(e)):
            if self.d[i] > 0 and self.w[i] > 0:
                R = (self.t >= self.t[i]) & (self.w > 0)
                m = e[R].max()
                z = np.where(R, self.w * np.exp(np.where(R, e, m) - m), 0.)
                rows.append(z / z.sum())
                lse.append(m + np.log(z.sum()))
                idx.append(i)
        return e, rows, lse, idx

    def val(self, x):
        e, _, lse, idx = self._probs(x)
        return self.coef * sum(self.w[i] * (l - e[i]) for l, i in zip(lse, idx))

    def mag(self, x):
        e = x - self.off
        return self.coef * (self.w * (np.abs(e).max() + np.log(len(e) + 1) + 1)).sum() + 1e-12

    def grad(self, x):
        e, rows, _, idx = self._probs(x)
        g = np.zeros_like(e)
        for p, i in zip(rows, idx):
            g += self.w[i] * p
            g[i] -= self.w[i]
        return self.coef * g

    def hess(self, x):
        e, rows, _, idx = self._probs(x)
        H = np.zeros((len(e), len(e)))
        for p, i in zip(rows, idx):
            H += self.w[i] * (np.diag(p) - np.outer(p, p))
        return self.coef * H
