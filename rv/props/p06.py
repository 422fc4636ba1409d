"""P06 curvature: Hessians and Hessian products."""
import numpy as np
import scipy.sparse as sp
import regreg.api as rr
from rv.core import Family, Skip
from rv import catalog as C, losses as S, refloss as L
from rv.props import p19

HFAM = ["gaussian", "logistic", "probit", "cloglog", "poisson"]


def hlim(fam, eta, off):
    """range in which the curvature is a finite, non-negligible float"""
    return np.abs(eta - off).max() <= {"logistic": 300, "probit": 37, "cloglog": 12, "poisson": 12, "gaussian": 1e6}[fam]


def f_sat(case):
    rng = case.rng
    fam = HFAM[case.index % len(HFAM)]
    n = C.dim(rng, 1, 10)
    s = S.Spec(rng, fam, n)
    case.note(**s.desc())
    loss, ref = s.lib(), s.ref()
    kw = {}
    if rng.random() < 0.4:
        cw = S.weights(rng, n)
        if cw is not None:
            kw, ref = dict(case_weights=np.array(cw)), ref.weighted(cw)
    off = np.zeros(n) if s.offset is None else s.offset
    for _ in range(3):
        eta = S.etas(rng, fam, n)
        if not hlim(fam, eta, off):
            continue
        e0 = np.array(eta)
        h = loss.hessian(eta, **kw)
        case.same(eta, e0, "sat:argument-changed")
        r = ref.hess(e0.astype(float))
        case.check(np.shape(h) == np.shape(r), "sat:%s:shape" % fam, np.shape(h))
        d = np.abs(h - r)
        case.event("check:hessian")
        case.check((d <= 1e-8 * (np.abs(r) + 1e-12)).all(), "sat:%s:hessian" % fam, lambda: "got %s expected %s at %s" % (h, r, e0))
        case.check((h >= 0).all(), "sat:%s:psd" % fam)
        # derivative of the reported gradient
        if fam in ("gaussian", "logistic", "poisson"):
            st = 1e-5 * (1 + np.abs(e0))
            ga, gb = (loss.smooth_objective(e0 + sg * st, "grad", **kw) for sg in (1, -1))
            fd = (ga - gb) / (2 * st)
            lim = 1e-5 * (np.abs(h) + 1e-3 * s.coef * (ref.w + 1) * (ref.ref.n + np.abs(ga)))
            case.event("check:derivative")
            case.check((np.abs(fd - h) <= lim).all(), "sat:%s:derivative" % fam, lambda: "fd %s hess %s" % (fd, h))
        case.event("sat:" + fam)


def dense(H):
    return H.toarray() if sp.issparse(H) else np.asarray(H)


def f_glm(case):
    rng = case.rng
    fam = (HFAM + ["cox"])[case.index % 6]
    n, p = C.dim(rng, 1, 10), C.dim(rng, 1, 6)
    X, A, kind = S.design(rng, n, p, ("dense", "F", "strided", "int", "csr", "csc"))
    poff = S.offs(rng, p)
    o = np.zeros(p) if poff is None else poff
    cp = None if poff is None else np.array(poff)
    if fam == "cox":
        t, d = p19.data(rng, n)
        w, c, so = S.weights(rng, n), S.coef(rng), S.offs(rng, n)
        case.note(fam=fam, kind=kind, t=t, d=d, w=w, coef=c, so=so, poff=poff)
        loss = rr.glm.cox(X, t.copy(), d.copy(), case_weights=w, coef=c, saturated_offset=so, offset=cp)
        ref = L.Cox(t, d, c, so, w)
    else:
        s = S.Spec(rng, fam, n)
        case.note(kind=kind, p=p, poff=poff, **s.desc())
        loss, ref = s.glm(X, offset=cp), s.ref()
        so = s.offset
    so_ = np.zeros(n) if so is None else so

    def check(loss, ref, key):
        lim = 6. / (np.abs(A).sum(1).max() + 1)
        for _ in range(2):
            b = np.clip(C.point(rng, (p,)), -lim, lim) if rng.random() < .8 else rng.integers(-1, 2, p)
            eta = A.dot(b - o)
            if fam != "cox" and not hlim(fam, eta, so_):
                continue
            b0 = np.array(b)
            H = dense(loss.hessian(b))
            case.same(b, b0, key + ":argument-changed")
            h = ref.hess(eta)
            R = A.T.dot(h).dot(A) if h.ndim == 2 else A.T.dot(h[:, None] * A)
            sc = np.abs(A.T).dot(np.abs(h)).dot(np.abs(A)).max() if h.ndim == 2 else (np.abs(A).T.dot(np.abs(h)[:, None] * np.abs(A))).max()
            if fam == "cox":      # entries are differences of terms of the size of the weights
                sc = max(sc, np.abs(A).max() ** 2 * ref.coef * np.sum(ref.w) * 1e-3)
            case.check(H.shape == (p, p), key + ":shape", H.shape)
            case.event("check:hessian")
            case.check(np.abs(H - R).max() <= 1e-8 * sc + 1e-13, key + ":%s:hessian" % fam, lambda: "got %s expected %s" % (H, R))
            case.check(np.abs(H - H.T).max() <= 1e-9 * sc + 1e-14, key + ":%s:symmetric" % fam)
            ev = np.linalg.eigvalsh((H + H.T) / 2)
            case.check(ev.min() >= -1e-9 * sc - 1e-13, key + ":%s:psd" % fam, ev)
            # Hessian-vector product formed by hand from the saturated loss
            v = rng.standard_normal(p)
            sl = loss.saturated_loss
            if hasattr(sl, "hessian_mult"):
                Hv = A.T.dot(sl.hessian_mult(eta, A.dot(v), case_weights=loss.case_weights))
            else:
                Hv = A.T.dot(sl.hessian(eta, case_weights=loss.case_weights) * A.dot(v))
            case.close(H.dot(v), Hv, key + ":%s:product" % fam, 1e-9, sc * p)
            case.event(key + ":" + fam)

    check(loss, ref, "glm")
    m = (rng.random(n) < 0.7)
    sub = loss.subsample(np.nonzero(m)[0])
    check(sub, ref.weighted(m), "glm-sub")
    check(loss, ref, "glm")
    case.event("design:" + kind)


def f_cox(case):
    """Hessian products of the survival loss itself"""
    rng = case.rng
    n = C.dim(rng, 1, 10)
    t, d = p19.data(rng, n)
    w, c, so = S.weights(rng, n), S.coef(rng), S.offs(rng, n)
    case.note(t=t, d=d, w=w, coef=c, so=so)
    loss = rr.cox_loglike((n,), t.copy(), d.copy(), coef=c, offset=None if so is None else so.copy(), case_weights=w)
    ref = L.Cox(t, d, c, so, w)
    kw = {}
    if rng.random() < .4:
        cw = S.weights(rng, n)
        if cw is not None:
            kw, ref = dict(case_weights=np.array(cw)), ref.weighted(cw)
    for _ in range(2):
        eta = p19.eta(rng, n)
        H = ref.hess(np.asarray(eta, float))
        V = [rng.standard_normal(n), np.ones(n), rng.integers(-2, 3, n), np.eye(n)[rng.integers(0, n)]]
        sc = c * ref.w.sum()
        for v in V:
            v0, e0 = np.array(v), np.array(eta)
            g = loss.hessian_mult(eta, v, **kw)
            case.same(v, v0, "cox:argument-changed")
            case.same(eta, e0, "cox:argument-changed")
            case.close(g, H.dot(v0), "cox:hessian_mult", 1e-9, sc * (np.abs(v0).max() + 1))
        case.close(loss.hessian_mult(eta, np.ones(n), **kw), np.zeros(n), "cox:null-direction", 1e-9, sc)
        case.event("cox")


FAMILIES = [
    Family("sat", f_sat, 1200, 100000),
    Family("glm", f_glm, 900, 60000),
    Family("cox", f_cox, 400, 30000),
]
