"""Case runner: deterministic generation, monitors, verdicts."""
import hashlib, json, os, signal, sys, time, traceback, warnings, zlib
import numpy as np


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key, self.msg = key, msg


class Skip(Exception):
    """The generated input lies outside the property's precondition."""


class CaseTimeout(BaseException):
    pass


def short(a, n=8):
    try:
        a = np.asarray(a)
        if a.size > n:
            return "%s%s..." % (a.shape, np.array2string(a.ravel()[:n], precision=6))
        return np.array2string(a, precision=10)
    except Exception:
        return repr(a)[:200]


class Case(object):

    def __init__(self, prop, family, index, seed, tier):
        self.prop, self.family, self.index, self.seed, self.tier = prop, family, index, seed, tier
        self.rng = np.random.default_rng([seed, int(prop[1:]), zlib.crc32(family.encode()), index])
        self.events = {}
        self.desc = {}
        self.maxdev = {}

    # -- recording ---------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def note(self, **kw):
        self.desc.update(kw)

    # -- oracles -----------------------------------------------------
    def fail(self, key, msg=""):
        raise Violation(key, msg)

    def check(self, cond, key, msg=""):
        self.event("check:" + key.split(":")[0])
        if not bool(cond):
            if callable(msg):
                msg = msg()
            raise Violation(key, str(msg))

    def close(self, a, b, key, tol=1e-7, scale=None, msg=""):
        """|a-b| <= tol * (1 + scale), scale default max|b|"""
        self.event("check:" + key.split(":")[0])
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape and not (a.size == 1 and b.size == 1):
            raise Violation(key, "shape %s != %s %s" % (a.shape, b.shape, msg))
        a, b = a.ravel().astype(float), b.ravel().astype(float)
        if a.size == 0:
            return
        same_inf = np.isinf(b) & (a == b)
        ok = ~same_inf
        if not ok.any():
            return
        a, b = a[ok], b[ok]
        if not (np.isfinite(a).all() and np.isfinite(b).all()):
            raise Violation(key, "non finite: got %s expected %s %s" % (short(a), short(b), msg))
        if scale is None:
            scale = np.max(np.abs(b))
        d = np.max(np.abs(a - b))
        lim = tol * (1. + scale)
        if d > lim:
            raise Violation(key, "got %s expected %s (dev %.3g > %.3g) %s" % (short(a), short(b), d, lim, msg))
        r = d / lim if lim > 0 else 0.
        if r > self.maxdev.get(key, 0):
            self.maxdev[key] = float(r)

    def leq(self, a, b, key, tol=1e-9, scale=1., msg=""):
        self.event("check:" + key.split(":")[0])
        a, b = float(a), float(b)
        if np.isnan(a) or np.isnan(b) or a > b + tol * (1 + abs(scale)):
            raise Violation(key, "%.12g > %.12g (tol %.3g) %s" % (a, b, tol * (1 + abs(scale)), msg))

    def same(self, a, b, key, msg=""):
        """bit for bit, up to the rounding that vectorised exp / BLAS kernels may vary with the alignment of temporaries"""
        self.event("check:" + key.split(":")[0])
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=(a.dtype.kind in "fc" and b.dtype.kind in "fc")):
            if a.shape == b.shape and a.dtype.kind == "f" and b.dtype.kind == "f" and np.array_equal(np.isfinite(a), np.isfinite(b)):
                m = np.isfinite(b)
                if np.array_equal(a[~m], b[~m], equal_nan=True) and np.abs(a[m] - b[m]).max() <= 1e-12 * np.abs(b[m]).max():
                    return
            raise Violation(key, "got %s expected %s %s" % (short(a), short(b), msg))

    def raises(self, fn, key, msg=""):
        self.event("check:" + key.split(":")[0])
        try:
            r = fn()
        except (CaseTimeout, KeyboardInterrupt):
            raise
        except Exception as e:
            self.event("refused:" + type(e).__name__)
            return e
        raise Violation(key, "no exception, returned %s %s" % (short(r), msg))


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return short(o, 12)
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:120]


class Family(object):
    """fn(case); quick/thorough: number of cases; need: events that must be seen."""

    def __init__(self, name, fn, quick, thorough, need=(), timeout=120, probe=False):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.need, self.timeout, self.probe = tuple(need), timeout, probe

    def count(self, tier, scale=1.):
        if tier != "quick":
            return self.thorough
        return self.quick if self.probe else int(round(self.quick * scale))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(prop, fam, index, seed, tier):
    """returns (case, status, key, msg, tb)"""
    case = Case(prop, fam.name, index, seed, tier)
    np.random.seed(zlib.crc32(("%s/%d/%d" % (fam.name, index, seed)).encode()) & 0x7fffffff)
    status, key, msg, tb = "ok", None, None, None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(fam.timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fam.fn(case)
    except Skip as e:
        status, msg = "skip", str(e)
    except Violation as e:
        status, key, msg, tb = "violation", e.key, e.msg, traceback.format_exc()
    except CaseTimeout:
        status, msg = "timeout", "case watchdog %ds" % fam.timeout
        tb = traceback.format_exc()
    except Exception as e:
        status, key, msg, tb = "violation", "exception:" + type(e).__name__, str(e)[:500], traceback.format_exc()
    finally:
        signal.alarm(0)
    return case, status, key, msg, tb


def shard_main(prop, families, seed, tier, shard, nshards, deadline, outfile, only=None, scale=1.):
    res = dict(evaluations=0, skips={}, events={}, families={}, hashes=[], samples=[], violations=[],
               timeouts=[], capped=False, maxdev={})
    cur = outfile + ".cur"
    nviol = {}
    per = {}
    hashes = set()

    def flush():
        res["hashes"] = sorted(hashes)
        with open(outfile + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(outfile + ".tmp", outfile)

    curf = open(cur, "w")
    offset = 0
    for fam in families:
        if only and fam.name not in only:
            continue
        n = fam.count(tier, scale)
        fstat = res["families"].setdefault(fam.name, dict(cases=0, skipped=0, nontrivial=0, s=0.))
        # start each family at another shard, so that small families do not all land on worker 0
        start = (shard + offset) % nshards
        offset += n
        bad = 0
        for index in range(start, n, nshards):
            if time.time() > deadline:
                res["capped"] = True
                break
            if bad >= 3:
                break
            curf.seek(0); curf.truncate(); curf.write(json.dumps([fam.name, index])); curf.flush()
            t0 = time.time()
            case, status, key, msg, tb = run_case(prop, fam, index, seed, tier)
            fstat["s"] += time.time() - t0
            res["evaluations"] += 1
            fstat["cases"] += 1
            for k, v in case.events.items():
                res["events"][k] = res["events"].get(k, 0) + v
            for k, v in case.maxdev.items():
                res["maxdev"][k] = max(v, res["maxdev"].get(k, 0))
            if status == "skip":
                fstat["skipped"] += 1
                res["skips"][msg] = res["skips"].get(msg, 0) + 1
                continue
            if status == "timeout":
                res["timeouts"].append([fam.name, index, (tb or "")[-1500:]])
                bad += 1
                continue
            nchecks = sum(v for k, v in case.events.items() if k.startswith("check:"))
            d = jsonable(case.desc)
            if nchecks:
                h = hashlib.sha1(json.dumps([fam.name, d if d else index], sort_keys=True, default=str).encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    fstat["nontrivial"] += 1
            if index < 2 and len(res["samples"]) < 60 and status == "ok":
                res["samples"].append(dict(family=fam.name, index=index, **{"case": d, "checks": nchecks}))
            if status == "violation":
                res["violations"].append(dict(family=fam.name, index=index, key=key, msg=msg, tb=tb, desc=d))
                if not fam.probe:
                    bad += 1
                flush()
        flush()
    res["done"] = True
    flush()
