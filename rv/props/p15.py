"""P15 cross-validation scores are the out-of-fold scores of fold-wise paths."""
import sys, threading, time, warnings
import numpy as np
from regreg.paths import strong_rules, warm_start
from regreg.paths.cross_validate import cross_validate, cross_validate_alt
from rv.core import Family, Skip
from rv import losses as S
from rv.props import p14

KINDS = p14.KINDS


def dense(a):
    return np.array(a.todense() if hasattr(a, "todense") else a, float)


class Log(object):
    """recorder shared by the hooks: subsample calls, fitted fold paths, score calls"""
    def __init__(self):
        self.lock, self.rows, self.fits, self.scores, self.threads = threading.Lock(), [], [], [], set()


def scorer(log, how):
    def f(x, y):
        x, y = np.asarray(x), np.asarray(y)
        if how == "count":
            v = float(len(log.scores))
        elif how == "l2":
            v = np.linalg.norm(x - (y if y.shape == x.shape else y[..., 0])) ** 2 / len(y)
        elif how == "max":
            v = np.abs(x).max() + y.sum()
        else:
            v = float((np.sign(x) * (y if y.shape == x.shape else y[:, :1])).sum())
        log.scores.append((np.array(x), np.array(y), v))
        return v
    return f


def run(case, path, seq, cv, seed, how, jobs, fitter, log, tol, alt=False):
    own = path.subsample

    def hooked(rows):
        sub = own(rows)
        with log.lock:
            log.rows.append(np.array(rows))
        sub._rv_rows = np.array(rows)
        return sub

    def fit(p, lagrange, init, **kw):
        out = fitter(p, lagrange, init, **kw)
        if jobs != 1:
            time.sleep(.002)                # injected delay: the other folds get their turn
        with log.lock:
            log.threads.add(threading.get_ident())
            log.fits.append((p._rv_rows, np.array(out["beta"]), p))
        return out
    path.subsample = hooked
    old = sys.getswitchinterval()
    try:
        np.random.seed(seed)
        if jobs != 1:
            sys.setswitchinterval(1e-6)
        if alt:
            def fold(lagrange, test, train, path_fitter, init, scale):
                p = path.subsample(train)
                p.saturated_loss.coef *= scale * len(train) / train.sum()
                return path_fitter(p, lagrange, init, inner_tol=tol)
            return cross_validate_alt(path, fold, (1.,), seq, path_fitter=fit, cv=cv, n_jobs=jobs, score=scorer(log, how), verbose=False)
        return cross_validate(path, seq, path_fitter=fit, cv=cv, n_jobs=jobs, score=scorer(log, how), verbose=False, inner_tol=tol)
    finally:
        sys.setswitchinterval(old)
        del path.subsample


def response(path, kind):
    d = path.saturated_loss.data
    return np.asarray(d[0] if isinstance(d, tuple) else d)


def linpred(model, kind, beta, N):
    """reference linear predictors of one fold's coefficients: (cases[, q])"""
    return model.X(np.asarray(beta, float).T.reshape(model.shape))


def judge(case, log, res, path, mk, ref, model, kind, seq, cv, N, key):
    mean, std = np.asarray(res[0], float), np.asarray(res[1], float)
    concurrent = len(log.threads) > 1       # calls interleave: folds with equal arguments cannot be told apart by order
    y = response(path, kind)
    k = len(log.fits)
    case.check(k == cv, key + ":folds", "%d folds fitted, %d asked for" % (k, cv))
    train = np.array([np.isin(np.arange(N), np.arange(N)[r]) for r, _, _ in log.fits])
    held = ~train
    case.check(np.all(held.sum(0) == 1), key + ":partition", "cases held out %s times" % held.sum(0))
    sizes = held.sum(1)
    case.check(sizes.max() - sizes.min() <= 1, key + ":balance", "fold sizes %s" % sizes)
    case.check(mean.shape == (len(seq),) and std.shape == (len(seq),), key + ":shape", "%s %s for %d" % (mean.shape, std.shape, len(seq)))
    case.check(len(log.scores) == k * len(seq), key + ":score-calls", "%d for %d folds x %d" % (len(log.scores), k, len(seq)))
    # every recorded score call belongs to one (fold, parameter): match by the linear predictors of the recorded coefficients
    table = np.full((k, len(seq)), np.nan)
    want = [[linpred(model, kind, b, N)[h] for b in beta] for (r, beta, p), h in zip(log.fits, held)]
    ys = [y[h] for h in held]
    for pos, (x, yy, v) in enumerate(log.scores):
        hit, best = None, np.inf
        order = sorted(((i, j) for i in range(k) for j in range(len(seq)) if np.isnan(table[i, j])),
                       key=lambda ij: (abs(ij[0] * len(seq) + ij[1] - pos)))
        for i, j in order:
            w = want[i][j]
            if w.shape == x.shape and ys[i].shape == yy.shape and np.array_equal(ys[i], yy):
                d = np.abs(w - x).max() if w.size else 0.
                if d <= 1e-9 * (1 + np.abs(w).max()) and d < best:
                    hit, best = (i, j), d
        case.check(hit is not None, key + ":score-arguments", "call %d: no held-out fold has predictor %s response %s" % (pos, x.ravel()[:5], yy.ravel()[:5]))
        table[hit] = v
        case.event("score-matched")
    case.close(mean, table.mean(0), key + ":mean", tol=1e-8 if concurrent else 1e-12, scale=np.abs(table).max())
    case.close(std, table.std(0), key + ":std", tol=1e-7 if concurrent else 1e-9, scale=np.abs(table).max())
    # the coefficients solve the problem of the training cases, loss rescaled to the full sample size
    for (r, beta, p), t in zip(log.fits, train):
        sub = mk(ref.weighted(t * (float(N) / t.sum())))
        p14.judge(case, sub, beta, seq, "strong", key + ":fold-fit", [])
        case.event("fold-fit")
    return held, table


def state(path):
    out = [path.solution, path.grad_solution, path.elastic_net_param, path.saturated_loss.coef, path.alpha]
    d = path.saturated_loss.data
    out += list(d) if isinstance(d, tuple) else [d]
    cw = getattr(path.saturated_loss, "case_weights", None)
    out.append(0 if cw is None else cw)
    pen = path.penalty
    out.append([pen.weights] if not isinstance(getattr(pen, "weights", 0), dict) and hasattr(pen, "weights") else
               sorted((str(a), float(b)) for a, b in pen.weights.items()) if hasattr(pen, "weights") else [pen.l1_weight, pen.l2_weight])
    return [np.array(o).copy() for o in out]


def setup(case, most=26):
    kind = KINDS[case.index % 5]
    rng = case.rng
    path, model, mk, n, top, make = p14.start(case, kind, **({} if kind in ("multi", "blocks") else dict(
        p=int(rng.choice([2, 3, 5, 8])), fam=p14.FAMS[(case.index // 5) % len(p14.FAMS)])))
    if model.free.any() and case.desc.get("fam") not in ("gaussian", "huber"):
        raise Skip              # a fold may be separable: no finite unpenalised fit
    N = int(path.saturated_loss.shape[0])
    m = rng.integers(0, 4)
    cv = [2, 3, 5, N if N <= most else int(rng.integers(2, 9))][m]
    if N // cv < 1:
        raise Skip
    seq = top * [np.array([1., .6, .3]), np.array([.9, .5]), np.array([.7])][rng.integers(0, 3)]
    case.note(cv=cv, seq=seq, N=N)
    return kind, path, model, mk, N, cv, seq


def base(case):
    rng = case.rng
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kind, path, model, mk, N, cv, seq = setup(case)
        how = ["count", "l2", "max", "sign"][rng.integers(0, 4)]
        if model.shape != (len(model.free),) and response(path, kind).ndim == 1:
            how = "max"
        jobs = [1, 1, 2, -1][rng.integers(0, 4)]
        if how == "count" and jobs != 1:
            how = "sign"                    # a counting score identifies its call only in sequential order
        alt = rng.random() < .3
        before = state(path)
        log = Log()
        fitter = [strong_rules, warm_start][rng.integers(0, 2)]
        seed = int(rng.integers(0, 1000))
        case.note(jobs=jobs, alt=bool(alt), how=how, fitter=fitter.__name__)
        keep = seq.copy()
        res = run(case, path, seq, cv, seed, how, jobs, fitter, log, 1e-10, alt)
        if max(np.abs(b).max() for _, b, _ in log.fits) > 30:
            raise Skip                      # a fold without a finite unpenalised fit
        judge(case, log, res, path, mk, model.ref, model, kind, seq, cv, N, "cv" + ("-alt" if alt else ""))
        case.same(seq, keep, "cv:sequence-changed")
        for i, (a, b) in enumerate(zip(before, state(path))):
            case.same(b, a, "cv:path-changed:%d" % i)
        case.event("cv:" + kind)
        case.event("cv:alt" if alt else "cv:plain")
        case.event("fam:%s" % case.desc.get("fam", case.desc.get("which")))


def workers(case):
    """same random state, different worker counts and hostile thread switching: same folds, same scores"""
    rng = case.rng
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kind, path, model, mk, N, cv, seq = setup(case, 8)
        seed = int(rng.integers(0, 1000))
        first = None
        for jobs in [1] + [int(j) for j in rng.permutation([2, 4, 8, -1])[:2]] + [1]:
            log = Log()
            res = run(case, path, seq, cv, seed, "max", jobs, strong_rules, log, 1e-11)
            if max(np.abs(b).max() for _, b, _ in log.fits) > 30:
                raise Skip
            held, table = judge(case, log, res, path, mk, model.ref, model, kind, seq, cv, N, "workers:%d" % (jobs if jobs == 1 else 2))
            sets = sorted(tuple(h) for h in held)
            if first is None:
                first = sets, np.array(res)
            else:
                case.check(sets == first[0], "workers:folds-differ", "n_jobs=%d" % jobs)
                case.close(np.array(res), first[1], "workers:scores-differ", tol=1e-3, msg="n_jobs=%d" % jobs)
            if len(log.threads) > 1:
                case.event("concurrent")
        case.event("workers:" + kind)
        # a different state gives a different partition sooner or later
        log = Log()
        run(case, path, seq, cv, seed + 1, "max", 1, strong_rules, log, 1e-8)
        other = sorted(tuple(~np.isin(np.arange(N), np.arange(N)[r])) for r, _, _ in log.fits)
        case.event("partition:differs", int(other != first[0]))


def defaults(case):
    """default score (squared error per case) and default folds (five) without any hook"""
    rng = case.rng
    n, p = int(rng.integers(10, 40)), int(rng.integers(1, 6))
    from regreg.paths import lasso
    X = np.round(rng.standard_normal((n, p)), 4)
    y = np.round(rng.standard_normal(n) + X.sum(1), 4)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path = lasso.gaussian(X, y, np.ones(p))
        seq = np.abs(X.T.dot(y)).max() * np.array([1., .5, .1])
        seed = int(rng.integers(0, 1000))
        np.random.seed(seed)
        m, s = cross_validate(path, seq, verbose=False, inner_tol=1e-12, n_jobs=int(rng.choice([1, 2, -1])))
        log = Log()
        res = run(case, path, seq, 5, seed, "l2", 1, strong_rules, log, 1e-12)
        case.close(m, res[0], "defaults:mean", tol=1e-6)
        case.close(s, res[1], "defaults:std", tol=1e-6)
        case.event("defaults")


FAMILIES = [
    Family("base", base, 90, 2500, need=["score-matched", "fold-fit", "cv:alt", "cv:plain"] + ["cv:" + k for k in KINDS], timeout=300),
    Family("workers", workers, 40, 1000, need=["concurrent"] + ["workers:" + k for k in KINDS], timeout=300),
    Family("defaults", defaults, 20, 300, need=["defaults"], timeout=60),
]
