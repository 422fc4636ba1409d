"""P12 the contract of the first-order iteration: an online monitor on every proximal request and every accepted iterate.

The problem object under test is given a subclass on the fly whose `proximal` and `coefs` record what the solver does:
requests (working point z, gradient g, 1/step L, answer y) and accepted iterates.  After the run the log is checked
against the majorisation condition, the momentum rule, the returned history and the stopping rule.
"""
import warnings

import numpy as np
import regreg.api as rr
from regreg.identity_quadratic import identity_quadratic as iq
from regreg.problems.composite import composite
from rv.core import Family, Skip
from rv import catalog as C, problems as P
from rv.props import p11


class Log(object):
    def __init__(self, coefs):
        self.coefs = coefs
        self.events = []
        self.controls = []
        self.steps = 0

    def clear(self):
        self.events, self.controls = [], []


def watch(obj):
    """record what a solver does with obj"""
    base = obj.__class__
    log = Log(obj.__dict__.pop("coefs"))

    def proximal(self, q, *a, **k):
        z, g, L = np.array(q.center, float), np.array(q.linear_term, float), float(q.coef)
        y = base.proximal(self, q)
        log.events.append(("prox", z, g, L, np.array(y, float)))
        log.controls.append(k.get("prox_control"))
        return y

    def get(self):
        return log.coefs

    def put(self, v):
        log.events.append(("accept", np.array(v, float)))
        log.coefs = v
    obj.__class__ = type("Watched" + base.__name__, (base,), dict(proximal=proximal, coefs=property(get, put), __doc__=base.__doc__))
    return log


def near(a, b, tol=1e-9):
    if not (np.isfinite(a) and np.isfinite(b)):
        return a == b
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def judge_run(case, log, start, hist, o, smooth, grad, total, outside, sx, warned=False, alpha=1.1, backtrack=True, key="run",
              maxits=10000, exact=True):
    """smooth / grad / total: the objective, total = everything; outside: distance from the constraints"""
    tol = o.get("tol") or 1e-5
    min_its = o.get("min_its") or 5
    max_its = o.get("max_its") or maxits
    cur, prev = start.copy(), start.copy()
    ts = {1.}         # possible momentum weights
    accepted, centers = [start.copy()], []
    last = None          # last request
    objs = [total(start) if outside(start) <= 1e-5 * (1 + np.linalg.norm(start)) else np.inf]
    group = []           # requests since the last accepted iterate
    run_since = 0
    restarts = momentum = shrink = rejects = 0
    n_iter = 0
    for ev in log.events:
        if ev[0] == "prox":
            _, z, g, L, y = ev
            new = last is None or last[0] == "accept" or not np.array_equal(z, last[1]) or L <= last[3]
            if new and last is not None and last[0] == "prox":
                # the previous answer was not taken: momentum must be dropped
                rejects += 1
                case.check(o.get("monotonicity_restart", True), key + ":rejected-without-safeguard")
                case.close(z, cur, key + ":restart-from-current", 1e-12, sx)
                ts = {1.}
                run_since = 0
            if new:
                n_iter += 1
                case.close(g, grad(z), key + ":gradient", 1e-7, np.abs(grad(z)).max())
                d = cur - prev
                nz = np.linalg.norm(z - cur)
                if nz <= 1e-13 * sx or np.linalg.norm(d) == 0:
                    case.leq(nz, 0, key + ":center", 1e-12, sx)
                    run_since = 0
                    if np.linalg.norm(d) <= 1e-9 * sx:       # cannot tell a restart from a standstill
                        ts = ts | {1.}
                    elif min(wbeta(t) for t in ts) > 0:
                        restarts += 1
                        ts = {1.}
                    else:
                        ts = {t for t in ts if wbeta(t) == 0} | ({1.} if "restart" in o else set())
                else:
                    case.check(o.get("FISTA", True) is not False, key + ":momentum-in-plain-descent")
                    beta = ((z - cur) * d).sum() / (d * d).sum()
                    case.close(z, cur + beta * d, key + ":momentum-direction", 1e-9, sx)
                    if np.linalg.norm(d) > 1e-6 * sx:
                        fit = {t for t in ts if abs(beta - wbeta(t)) <= 1e-6}
                        case.check(fit, key + ":momentum-weight", lambda: "beta=%r expected %r" % (beta, [wbeta(t) for t in ts]))
                        ts = fit
                    momentum += 1
                    run_since += 1
                    case.leq(run_since, o.get("restart", np.inf), key + ":restart-interval", 0)
            else:
                shrink += 1
                case.close(L, last[3] * alpha, key + ":backtracking-factor", 1e-9)
            case.check(L > 0, key + ":step-sign")
        else:
            y = ev[1]
            case.check(last is not None and last[0] == "prox", key + ":accept-without-step")
            _, z, g, L, yp = last
            case.same(y, yp, key + ":accepted-is-not-the-proximal-answer")
            Fy, Fz = smooth(y), smooth(z)
            dz = y - z
            if exact or backtrack:
                case.leq(Fy, Fz + (g * dz).sum() + L / 2 * (dz ** 2).sum(), key + ":majorisation", 1e-9,
                         abs(Fy) + abs(Fz), "L=%r" % L)
            case.leq(outside(y), 0, key + ":infeasible-iterate", 1e-7, sx + np.abs(y).max())
            prev, cur = cur, y
            accepted.append(y.copy())
            objs.append(total(y))
            ts = {(1 + np.sqrt(1 + 4 * t * t)) / 2 for t in ts}
        last = ev
    case.event("requests", len(log.events))
    case.event("accepted", len(accepted) - 1)
    case.event("momentum", momentum)
    case.event("backtracks", shrink)
    case.event("rejects", rejects)
    case.event("restarts", restarts)
    m = len(accepted) - 1
    if o.get("monotonicity_restart", True):
        for a, b in zip(objs[:-1], objs[1:]):
            if np.isfinite(a):
                case.leq(b, a, key + ":increase", 2e-10 + (0 if exact else 1e-8), max(1, abs(a), sx if not exact else 0))
        case.leq(objs[-1] if m else objs[0], objs[0], key + ":worse-than-start", 1e-9 * (m + 1), abs(objs[0]) if np.isfinite(objs[0]) else 1) if np.isfinite(objs[0]) else None
    # an iterate that satisfied the stopping rule is not followed by another iteration
    for j in range(1, m):
        if j - 1 < min_its or n_iter == 0:
            continue
        a, b = objs[j - 1], objs[j]
        if o.get("coef_stop"):
            met = np.linalg.norm(accepted[j] - accepted[j - 1]) < 0.9 * tol * max(1, np.linalg.norm(accepted[j]))
            case.check(not met, key + ":continued-past-coef-stop", "iteration %d" % j)
        elif tol > 1e-11:
            met = abs(a - b) < 0.9 * tol * max(abs(a), 1) - 1e-13 * (1 + abs(a) + abs(smooth(accepted[j])))
            case.check(not met, key + ":continued-past-stop", "iteration %d: %r %r" % (j, a, b))
    if hist is None:
        return accepted, objs
    case.leq(len(hist), max_its, key + ":max-its", 0)
    # the history walks through the objectives of the accepted iterates
    at = {0}
    for i, v in enumerate(np.asarray(hist)):
        nxt = {k for k in (at | {k + 1 for k in at} if i else at) if k <= m and near(v, objs[k], 1e-8)}
        case.check(nxt, key + ":history", lambda: "entry %d is %r, objectives %r" % (i, v, objs[max(min(at) - 1, 0):max(at) + 2]))
        at = nxt
    if len(hist):
        case.check(m in at or m - 1 in at, key + ":history-misses-iterates", "%r of %d" % (at, m))
    case.event("history", len(hist))
    case.leq(m, len(hist), key + ":history-misses-iterates", 0)
    stopped = len(hist) < max_its and not warned
    if stopped:
        case.check(len(hist) >= min(min_its, max_its), key + ":stopped-before-min-its", "%d < %d" % (len(hist), min_its))
        if last is not None and last[0] == "prox":
            y = last[4]
            a, b = objs[-1], total(y)
            if o.get("coef_stop"):
                r = np.linalg.norm(cur - y) / max(1, np.linalg.norm(y))
                case.leq(r, tol * (1 + 1e-6), key + ":coef-stop-not-met", 1e-15)
                case.event("stop:coef")
            else:
                case.leq(abs(a - b), 1.0001 * tol * max(abs(a), 1), key + ":stop-not-met", 2e-12, abs(a) + abs(b) + abs(smooth(y)))
                case.event("stop:objective")
        case.event("stopped-early")
    else:
        case.event("warned" if warned else "max-its")
    if len(hist) and np.isfinite(hist[-1]) and o.get("monotonicity_restart", True):
        case.leq(objs[-1], hist[-1], key + ":worse-than-recorded", 1e-8, abs(hist[-1]))
    return accepted, objs


def wbeta(t):
    """the weight after t: t is the weight reached, the working point used (t_old - 1) / t_new with t_new = t"""
    # t = (1 + sqrt(1 + 4 s^2)) / 2  =>  s = sqrt((2 t - 1)^2 - 1) / 2
    s = np.sqrt(max((2 * t - 1) ** 2 - 1, 0)) / 2
    return (s - 1) / t if s >= 1 else 0.


def options(rng):
    o = dict(tol=float(10 ** rng.uniform(-13, -2)))
    if rng.random() < 0.5:
        o["min_its"] = int(rng.integers(1, 40))
    if rng.random() < 0.4:
        o["max_its"] = int(rng.integers(1, 120))
    else:
        o["max_its"] = 1500
    if rng.random() < 0.3:
        o["start_step"] = float(10 ** rng.uniform(-7, 7))
    if rng.random() < 0.25:
        o["coef_stop"] = True
    if rng.random() < 0.25:
        o["restart"] = int(rng.integers(2, 30))
    if rng.random() < 0.2:
        o["FISTA"] = False
    if rng.random() < 0.2:
        o["monotonicity_restart"] = False
    return o


def const(p, lib):
    x0 = np.zeros(p.shape)
    return lib.smooth_objective(x0, "func") - p.loss.val(x0)


def attempt(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fn()
    return r, any("bad steps" in str(x.message) for x in w)


def run_all(case, rng, prob, log, smooth, grad, total, outside, sx, lib_solve=None, extra=None, exact=True):
    """a first run and a few warm ones; every other one through the solver object"""
    solver = rr.FISTA(prob) if rng.random() < 0.5 else None
    case.event("via:solver" if solver is not None else "via:solve")
    alpha = 1.1
    if solver is not None and rng.random() < .4:         # the solver's own knobs
        alpha = solver.alpha = float(np.round(rng.uniform(1.05, 3), 3))
        solver.attempt_decrease = bool(rng.random() < .7)
        case.note(alpha=alpha)
        case.event("knobs")
    for k in range(int(rng.integers(1, 4))):
        o = options(rng)
        case.note(**{"o%d" % k: o})
        keep = rng.random() < 0.85
        log.clear()
        start = np.array(log.coefs, float)
        kw = dict(o) if keep else dict(o, return_objective_hist=False)
        if solver is not None:
            if extra is not None:
                prob.quadratic = extra()
            hist, warned = attempt(lambda: solver.fit(**kw))
            if not keep:
                case.check(hist is None, "run:history-not-asked-for")
        else:
            x, warned = attempt(lambda: prob.solve(extra() if extra is not None else None, **kw))
            hist = prob.solver_results
            case.same(x, log.coefs, "run:returned-coefficients")
        judge_run(case, log, start, hist if keep else None, o, smooth, grad, total, outside, sx, warned, alpha=alpha, exact=exact)
        if k:
            case.event("warm")
        if solver is not None and rng.random() < 0.2:
            log.coefs[:] = C.point(rng, log.coefs.shape, 0.3)


def f_runs(case):
    rng = case.rng
    p = P.generate(rng, kind=C.ALL[case.index % len(C.ALL)])
    case.note(**p.desc())
    lib, pen = p.lib_loss(), p.lib_pen()
    c = const(p, lib)
    prob = rr.simple_problem(lib, pen)
    m = rng.integers(0, 4)
    if m:
        prob.coefs[:] = C.point(rng, p.shape, [0.3, 1., 10.][m - 1])
        if p.loss.name in ("poisson", "cox") or "cloglog" in p.loss.name:
            prob.coefs[:] = np.clip(prob.coefs, -0.3, 0.3)
    if not np.isfinite(lib.smooth_objective(prob.coefs, "func")):
        raise Skip("start outside the domain")
    log = watch(prob)
    sx = 1 + (0 if p.off is None else np.abs(p.off).max())
    tot = lambda x: p.obj(x) + c
    run_all(case, rng, prob, log, lambda x: p.loss.val(x) + c, p.loss.grad, tot, p.outside, sx, extra=p.extra if p.eq is not None else None)


def f_smooth(case):
    rng = case.rng
    p = P.generate(rng, kind="l1norm", where="l")
    p.item = None
    from rv import refpen as R
    p = P.Prob(p.loss, None, None, None, p.lq, None)
    case.note(**p.desc())
    lib = p.lib_loss()
    c = const(p, lib)
    prob = rr.simple_problem.smooth(lib)
    if rng.random() < 0.5:
        prob.coefs[:] = C.point(rng, p.shape, 0.3)
    log = watch(prob)
    run_all(case, rng, prob, log, lambda x: p.loss.val(x) + c, p.loss.grad, lambda x: p.S(x) + c, lambda x: 0., 1.)


class Barrier(composite):
    """-sum log(b - Ax) + c/2 |x - m|^2 + box constraint: finite only in the interior of a polytope"""

    def __init__(self, rng):
        n, p = int(rng.integers(1, 8)), int(rng.integers(1, 6))
        self.A = np.round(rng.standard_normal((n, p)), 3)
        self.b = np.round(rng.uniform(0.1, 2, n), 3)
        self.nan = rng.random() < 0.5
        self.r = float(np.round(rng.uniform(0.2, 3), 3))
        self.m = 3 * rng.standard_normal(p)
        self.c = float(10 ** rng.uniform(-2, 2))
        composite.__init__(self, (p,))
        self.coefs = np.zeros(p)

    def f(self, x):
        s = self.b - self.A.dot(x)
        return -np.log(s).sum() + self.c / 2 * ((x - self.m) ** 2).sum() if (s > 0).all() else (np.nan if self.nan else np.inf)

    def g(self, x):
        return self.A.T.dot(1 / (self.b - self.A.dot(x))) + self.c * (x - self.m)

    def smooth_objective(self, x, mode="both", check_feasibility=False):
        if mode == "both":
            return self.f(x), self.g(x)
        return self.f(x) if mode == "func" else self.g(x)

    def nonsmooth_objective(self, x, check_feasibility=False):
        return np.inf if check_feasibility and np.abs(x).max() > self.r * (1 + 1e-9) else 0.

    def proximal(self, q, prox_control=None):
        return np.clip(q.center - q.linear_term / q.coef, -self.r, self.r)


def f_barrier(case):
    rng = case.rng
    b = Barrier(rng)
    b.coefs[:] = np.clip(0.01 * rng.standard_normal(b.coefs.shape), -b.r, b.r)
    if not np.isfinite(b.f(b.coefs)):
        raise Skip("start outside the domain")
    case.note(A=b.A, b=b.b, r=b.r, m=b.m, c=b.c)
    log = watch(b)
    solver = rr.FISTA(b)
    control = rng.random() < 0.4
    for k in range(3):
        o = options(rng)
        if o.get("FISTA", True) is not False:
            # the working point of an accelerated run may leave the domain, where no method can evaluate anything
            o["FISTA"] = False if rng.random() < 0.6 else True
        case.note(**{"o%d" % k: o})
        log.clear()
        start = log.coefs.copy()
        kw = dict(o, prox_control=dict(token=7)) if control else o
        try:
            hist, warned = attempt(lambda: solver.fit(**kw))
        except ValueError as e:
            z = [ev[1] for ev in log.events if ev[0] == "prox"]
            case.check("stepsize" in str(e) or "NaN" in str(e), "barrier:exception", e)
            raise Skip("momentum left the domain")
        if any(not np.isfinite(b.f(ev[1])) for ev in log.events if ev[0] == "prox"):
            for ev in log.events:
                if ev[0] == "accept":
                    case.check(np.isfinite(b.f(ev[1])), "barrier:left-domain")
            raise Skip("momentum left the domain")
        if control:
            case.check(all(x == dict(token=7) for x in log.controls), "barrier:prox-control", log.controls[:2])
            case.event("prox-control")
        judge_run(case, log, start, hist, o, b.f, b.g, b.f, lambda x: max(np.abs(x).max() - b.r, 0), 1 + b.r, warned, key="barrier")
        case.event("barrier")


def f_fixed(case):
    """no backtracking: the Lipschitz constant given is used in every step"""
    rng = case.rng
    p = P.generate(rng)
    if p.loss.name not in ("signal", "gaussian") and not p.loss.name.startswith("quad"):
        raise Skip("quadratic losses only")
    n = int(np.prod(p.shape))
    g0 = p.loss.grad(np.zeros(p.shape)).ravel()
    H = np.array([p.loss.grad(e.reshape(p.shape)).ravel() - g0 for e in np.eye(n)])
    L = max(np.linalg.eigvalsh((H + H.T) / 2)[-1], 1e-3) * float(rng.choice([1.0001, 1.5, 10.]))
    case.note(L=L, **p.desc())
    lib, pen = p.lib_loss(), p.lib_pen()
    c = const(p, lib)
    prob = rr.simple_problem(lib, pen)
    if p.eq is not None:
        prob.quadratic = p.extra()
    prob.lipschitz = L
    log = watch(prob)
    solver = rr.FISTA(prob)
    solver.perform_backtrack = False
    for k in range(2):
        o = options(rng)
        o.pop("start_step", None)
        case.note(**{"o%d" % k: o})
        log.clear()
        start = log.coefs.copy()
        hist, warned = attempt(lambda: solver.fit(**o))
        for ev in log.events:
            if ev[0] == "prox":
                case.close(ev[3], L, "fixed:lipschitz", 1e-12)
        judge_run(case, log, start, hist, o, lambda x: p.loss.val(x) + c, p.loss.grad, lambda x: p.obj(x) + c, p.outside,
                  1 + (0 if p.off is None else np.abs(p.off).max()), warned, key="fixed")
        case.event("fixed")


def f_printing(case):
    """progress messages are all that debug and verbose options add; a start or an objective that is not a number is refused"""
    import contextlib, io
    rng = case.rng
    p = P.generate(rng, kind=C.ALL[case.index % len(C.ALL)])
    case.note(**p.desc())
    start = C.point(rng, p.shape, 0.3)
    if p.loss.name in ("poisson", "cox") or "cloglog" in p.loss.name:
        start = np.clip(start, -0.3, 0.3)
    o = options(rng)
    out = []
    for dbg in rng.permutation([True, False]):
        prob = rr.simple_problem(p.lib_loss(), p.lib_pen())
        prob.coefs[:] = start
        if not np.isfinite(prob.smooth_objective(prob.coefs, "func")):
            raise Skip("start outside the domain")
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            x, warned = attempt(lambda: prob.solve(debug=bool(dbg), **o))
        case.check(bool(buf.getvalue()) == bool(dbg), "printing:messages", lambda: buf.getvalue()[:200])
        out.append((np.array(x, float), np.array(prob.solver_results, float)))
    (x, h), (y, k) = out
    case.close(x, y, "printing:solution", 1e-12)
    case.check(len(h) == len(k), "printing:iterations", (len(h), len(k)))
    case.close(h, k, "printing:history", 1e-12)
    case.event("printing")
    prob.coefs[:] = np.nan
    case.raises(lambda: prob.solve(**o), "printing:nan-start")


FAMILIES = [
    Family("runs", f_runs, 220, 30000),
    Family("smooth", f_smooth, 60, 9000),
    Family("barrier", f_barrier, 80, 14000),
    Family("fixed", f_fixed, 120, 14000),
    Family("printing", f_printing, 60, 3000, need=["printing"]),
]
