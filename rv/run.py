#!/usr/bin/env python3
"""run.py PID [--tier quick|thorough] [--seed N] [--replay FILE] [--only FAM,FAM]

exit 0: held on everything explored; 1: VIOLATION printed; 2: no answer (build failed, monitor never reached, ...)
"""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from rv import build as B

WALL = {"quick": 420., "thorough": 780.}


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                body = line[len("finding:"):].strip()
                pid, key, what = body.split(None, 2)
                out[(pid.split("=", 1)[1], key.split("=", 1)[1])] = what.strip()
    return out


def asan_env():
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
    std = subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], capture_output=True, text=True).stdout.strip()
    return dict(LD_PRELOAD=" ".join([lib, ub, std]), PYTHONMALLOC="malloc")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    if a.tier not in WALL:
        a.tier = "quick"
    pid = a.prop.upper()
    t0 = time.time()
    # scratch lives under /tmp and is removed at the end, whatever happens
    base = tempfile.mkdtemp(prefix="rv_%s_" % pid)
    code = 2
    try:
        code = run(a, pid, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return code


def run(a, pid, base, t0):
    meta = {}
    exec(open(os.path.join(HERE, "meta.py")).read(), meta)
    info = meta["META"].get(pid, {})
    variants = info.get("variants", ["plain"])
    replay = json.load(open(a.replay)) if a.replay else None
    if replay:
        a.seed, a.tier = replay["seed"], replay["tier"]
        variants = [replay.get("variant", variants[0])]
    procs = []
    scratch = {}
    for v in variants:
        try:
            scratch[v] = B.build(v, base=base)
        except B.BuildError as e:
            print("INCONCLUSIVE: build failed: %s" % e)
            return 2
    deadline = time.time() + WALL[a.tier] - (time.time() - t0)
    env0 = dict(os.environ, **B.ENV_FIXED)
    env0["TMPDIR"] = base
    env0["RV_SCRATCH"] = base
    cfg0 = dict(prop=pid, seed=a.seed, tier=a.tier, deadline=deadline, only=a.only.split(",") if a.only else None, scale=info.get("quick_scale", 1.))
    if replay:
        v = variants[0]
        env = dict(env0, PYTHONPATH=VERIF + ":" + scratch[v], RV_VARIANT=v)
        if v == "asan":
            env.update(asan_env(), ASAN_OPTIONS="detect_leaks=0:halt_on_error=0:abort_on_error=0:allocator_may_return_null=1:malloc_fill_byte=255:max_malloc_fill_size=1048576",
                       UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=0")
        r = subprocess.run([B.PY, "-m", "rv.worker", json.dumps(dict(cfg0, scratch=scratch[v], replay=replay))], env=env, cwd=base)
        return r.returncode
    nvar = len(variants)
    jobs = a.jobs
    for vi, v in enumerate(variants):
        nsh = max(1, jobs // nvar)
        for s in range(nsh):
            out = os.path.join(base, "out_%s_%d.json" % (v, s))
            log = os.path.join(base, "san_%s_%d" % (v, s))
            env = dict(env0, PYTHONPATH=VERIF + ":" + scratch[v], RV_VARIANT=v, RV_SANLOG=log)
            if v == "asan":
                env.update(asan_env(),
                           ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:malloc_fill_byte=255:max_malloc_fill_size=1048576:detect_stack_use_after_return=1:log_path=%s" % log,
                           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=0:log_path=%s" % log)
            cfg = dict(cfg0, scratch=scratch[v], shard=s, nshards=nsh, out=out)
            err = open(out + ".err", "w")
            p = subprocess.Popen([B.PY, "-m", "rv.worker", json.dumps(cfg)], env=env, cwd=base, stdout=err, stderr=err,
                                 start_new_session=True)
            procs.append((v, s, p, out, log))
    problems, violations, timeouts = [], [], []
    agg = dict(evaluations=0, events={}, skips={}, families={}, hashes=set(), samples=[], maxdev={}, capped=False)
    hard = deadline + 100
    for v, s, p, out, log in procs:
        try:
            p.wait(timeout=max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            problems.append("worker %s/%d did not end" % (v, s))
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        res = None
        if os.path.exists(out):
            res = json.load(open(out))
        cur = None
        try:
            cur = json.loads(open(out + ".cur").read())
        except Exception:
            pass
        tail = open(out + ".err").read()[-3000:]
        if p.returncode != 0:
            san = sanlogs(log)
            if p.returncode in (-11, -6, -8, -7, -4, 99) and cur:
                violations.append(dict(family=cur[0], index=cur[1], key="crash:%d" % p.returncode,
                                       msg="process died in this case", tb=(san or tail), desc={}, variant=v))
            elif not any(x.startswith("worker") for x in problems):
                problems.append("worker %s/%d exit %s\n%s" % (v, s, p.returncode, tail))
        elif res is None:
            problems.append("worker %s/%d left no result\n%s" % (v, s, tail))
        if res:
            agg["evaluations"] += res["evaluations"]
            for k in ("events", "skips"):
                for kk, n in res[k].items():
                    agg[k][kk] = agg[k].get(kk, 0) + n
            for kk, n in res["maxdev"].items():
                agg["maxdev"][kk] = max(n, agg["maxdev"].get(kk, 0))
            for f, st in res["families"].items():
                d = agg["families"].setdefault(f, dict(cases=0, skipped=0, nontrivial=0, s=0.))
                for kk in d:
                    d[kk] += st[kk]
            agg["hashes"].update(res["hashes"])
            agg["samples"] += res["samples"]
            agg["capped"] = agg["capped"] or res["capped"]
            for x in res["violations"]:
                violations.append(dict(x, variant=v))
            timeouts += res["timeouts"]
    known = known_findings()
    real, seen = [], {}
    for x in violations:
        k = (pid, x["key"])
        if k in known:
            seen.setdefault(x["key"], x)
        else:
            real.append(x)
    for key, x in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s key=%s %s" % (pid, key, known[(pid, key)]))
    need = {}
    import ast
    fams = {}
    # the event minimums
    for n in info.get("need", []):
        if agg["events"].get(n, 0) == 0 and not a.only and not real:
            problems.append("monitor never reached: %s" % n)
    if not agg["evaluations"]:
        problems.append("no case was run")
    if timeouts:
        problems.append("case watchdog fired: %s" % timeouts[:3])
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    # replay files of this run
    code = 0
    shown = {}
    for x in sorted(real, key=lambda x: (x["family"], x["index"])):
        if len(shown) >= 12 or shown.get((x["family"], x["key"]), 0) >= 1:
            continue
        shown[(x["family"], x["key"])] = 1
        rp = os.path.join(evdir, "replay_%s_%s_%d.json" % (pid, x["family"], x["index"]))
        json.dump(dict(property=pid, family=x["family"], index=x["index"], seed=a.seed, tier=a.tier,
                       variant=x.get("variant"), key=x["key"], msg=x["msg"], desc=x["desc"], tb=x["tb"]), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("   [%s #%d] %s: %s" % (x["family"], x["index"], x["key"], (x["msg"] or "")[:600]))
        if a.verbose:
            print(x["desc"])
            print(x["tb"])
        code = 1
    per_family = {f: {k: (round(v, 2) if k == "s" else v) for k, v in d.items()} for f, d in sorted(agg["families"].items())}
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=agg["evaluations"], distinct_nontrivial=len(agg["hashes"]),
                            rule=info.get("rule", "") + " A case counts as non-trivial when at least one oracle comparison was made in it; "
                            "distinct means different generated description.",
                            samples=pick(agg["samples"]), families=per_family, events=dict(sorted(agg["events"].items())),
                            outside_precondition=agg["skips"], capped_by_wall=agg["capped"],
                            tightest_margins={k: round(v, 4) for k, v in sorted(agg["maxdev"].items(), key=lambda t: -t[1])[:15]},
                            known_findings_seen=sorted(seen)),
              assumptions=info.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(real))
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle comparisons, %d violations, %d known, %.1fs%s" % (
        pid, a.tier, a.seed, agg["evaluations"], len(agg["hashes"]),
        sum(n for k, n in agg["events"].items() if k.startswith("check:")), len(real), len(seen), time.time() - t0,
        " (wall cap reached)" if agg["capped"] else ""))
    if a.verbose:
        for f, d in per_family.items():
            print("   ", f, d)
    for pr in problems:
        print("INCONCLUSIVE: %s" % pr)
    if code == 0 and problems:
        code = 2
    return code


def pick(samples):
    out, seen = [], {}
    for s in samples:
        if seen.get(s["family"], 0) < 1:
            seen[s["family"]] = 1
            out.append(s)
    return out[:25]


def sanlogs(log):
    d, b = os.path.split(log)
    return "\n".join(open(os.path.join(d, f)).read()[:4000] for f in sorted(os.listdir(d)) if f.startswith(b + "."))


if __name__ == "__main__":
    sys.exit(main())
