"""Run checks against planted bugs: python3 tools/hunt.py [id ...]; applies each patch to /repo (or RV_REPO), runs its property's quick check, undoes it."""
import json, os, subprocess, sys
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = home + "/seeded"
repo = os.environ.get("RV_REPO", "/repo")
ids = sys.argv[1:] or sorted(os.listdir(root))
ids = [i for j in ids for i in sorted(os.listdir(root)) if i.startswith(j)]
for i in ids:
    prop = json.load(open("%s/%s/meta.json" % (root, i)))["property"]
    subprocess.check_call(["git", "-C", repo, "apply", "%s/%s/patch.diff" % (root, i)])
    try:
        r = subprocess.run(["python3", "rv/run.py", prop], cwd=home, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        lines = [l for l in r.stdout.splitlines() if l.startswith("   [")]
        print("%-34s %s rc=%d %s" % (i, prop, r.returncode, lines[:1] or r.stdout.splitlines()[-3:]), flush=True)
    finally:
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
