"""Plant a bug: python3 tools/plant.py spec.py   (spec defines BUGS = [dict(id, prop, edits=[(path, old, new)], demo, needs, breaks)])

Each edit is applied in a scratch copy of /repo; the demonstration has to pass there before and fail after; the result is
written to /verif/seeded/<id>/.  "python3 tools/plant.py --tests" runs the stable tests once per planted bug not yet tested.
"""
import json, os, re, runpy, shutil, subprocess, sys

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           PATH="/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin")
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def scratch(name):
    d = "/tmp/sd/%s" % name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/sd", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    if os.environ.get("PLANT_REPO"):  # commits that are not in /repo yet
        subprocess.check_call(["git", "-C", d, "fetch", "-q", os.environ["PLANT_REPO"]])
        subprocess.check_call(["git", "-C", d, "reset", "-q", "--hard", "FETCH_HEAD"])
    return d


def build(d):
    return subprocess.call([PY, "setup.py", "build_ext", "--inplace", "--force"], cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def demo(folder, d):
    r = subprocess.run(["bash", folder + "/demo.sh"], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def plant(b):
    d = scratch(b["id"])
    out = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded/" + b["id"]
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.sh", "w").write(DEMO)
    open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    rc0, o0 = demo(out, d)
    for path, old, new in b["edits"]:
        s = open(d + "/" + path).read()
        assert s.count(old) == 1, (b["id"], path, old, s.count(old))
        open(d + "/" + path, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
    for path, old, new in b["edits"]:
        base = subprocess.check_output(["git", "-C", d, "show", "983ab31:" + path], text=True).splitlines()
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        assert all(l in base for l in gone) or len(b["edits"]) > 1, (b["id"], "changes lines the base does not have", [l for l in gone if l not in base])
    open(out + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
    if any(p.endswith((".pyx", ".c", ".h")) for p, _, _ in b["edits"]):
        assert build(d) == 0, "does not build"
    rc1, o1 = demo(out, d)
    ok = rc0 == 0 and rc1 != 0
    print(b["id"], "ok" if ok else "BAD", rc0, rc1, o0 if rc0 else "", o1 if not ok else o1.strip().splitlines()[-1:])
    shutil.rmtree(d)
    return ok


def some(id, module):
    """only the tests of one module, with one bug"""
    d = scratch("some")
    subprocess.check_call(["git", "-C", d, "apply", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded/%s/patch.diff" % id])
    build(d)
    r = subprocess.run([PY, "-W", "ignore", "-c", "import nose; nose.main()", "-v", module], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
    print(id, [l for l in r.stderr.splitlines() if "FAIL" in l or "ERROR" in l][:5], r.stderr.splitlines()[-1])
    shutil.rmtree(d)


def tests(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    d = scratch("tests")
    for i in ids:
        subprocess.check_call(["git", "-C", d, "apply", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded/%s/patch.diff" % i])
    build(d)
    rep = d + "_reports"
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    src = open("/opt/vp/run_nose.py").read().replace('"/repo/"', '"%s/"' % d)
    open(rep + "/run_nose.py", "w").write(src)
    env = dict(ENV, PYTHONHASHSEED="0", MPLBACKEND="agg", JOBLIB_MULTIPROCESSING="0", OPENBLAS_CORETYPE="Haswell", PYTHONPATH=d)
    ps = [subprocess.Popen(["timeout", "780", PY, rep + "/run_nose.py", "%s/%d.raw" % (rep, i), str(i), "8", "-v", "--with-doctest",
                            "--exclude=^set_seed_for_test$", "regreg"], cwd=d, env=env, stdout=subprocess.DEVNULL,
                           stderr=open("%s/%d.log" % (rep, i), "w")) for i in range(8)]
    for p in ps:
        p.wait()
    fails, npass = set(), 0
    for i in range(8):
        for line in open("%s/%d.raw" % (rep, i)):
            what, _, name = line.rstrip("\n").partition(" ")
            if what == "FAIL":
                fails.add(name)
            elif what == "PASS":
                npass += 1
    bad = sorted(f for f in fails if "mixed_lasso" not in f and "has_overlap" not in f)
    print("tests with", ids, ": pass", npass, "fail", len(fails), "unexpected", bad[:10])
    shutil.rmtree(d)
    shutil.rmtree(rep)
    return bad


if __name__ == "__main__":
    if sys.argv[1] == "--tests":
        tests(sys.argv[2:])
    elif sys.argv[1] == "--some":
        some(*sys.argv[2:])
    else:
        spec = runpy.run_path(sys.argv[1])
        only = sys.argv[2:]
        good = []
        for b in spec["BUGS"]:
            if not only or b["id"] in only:
                try:
                    if plant(b):
                        good.append(b["id"])
                except AssertionError as e:
                    print("ASSERT", e)
        print(" ".join(good))
