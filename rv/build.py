"""Build a private copy of /repo's current regreg package.

The python sources, the Cython sources and the C sources of the working tree are
copied to a scratch directory and the four extension modules are compiled there,
so that a check always observes the tree as it is now, never a stale binary, and
leaves nothing in /repo.
"""
import time
import hashlib, os, shutil, subprocess, sys, sysconfig, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("RV_REPO", "/repo")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable

ENV_FIXED = dict(PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                 MKL_NUM_THREADS="1", PYTHONHASHSEED="0", OPENBLAS_CORETYPE="Haswell",
                 MPLBACKEND="agg")

VARIANTS = {
    "plain": dict(cflags=["-O1", "-fno-strict-aliasing", "-w"], ldflags=[]),
    "asan": dict(cflags=["-O1", "-g", "-fno-omit-frame-pointer", "-fno-strict-aliasing", "-w",
                         "-fsanitize=address,undefined", "-fsanitize-recover=all"],
                 ldflags=["-fsanitize=address,undefined"]),
}


class BuildError(Exception):
    pass


def _copy_tree(dst):
    src = os.path.join(REPO, "regreg")
    gen = set()
    for root, dirs, files in os.walk(src):
        for f in files:
            if f.endswith(".pyx"):
                gen.add(os.path.join(root, f[:-4] + ".c"))
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("tests", "sandbox", "__pycache__")]
        rel = os.path.relpath(root, src)
        out = os.path.join(dst, "regreg", rel) if rel != "." else os.path.join(dst, "regreg")
        os.makedirs(out, exist_ok=True)
        for f in files:
            p = os.path.join(root, f)
            if f.endswith((".so", ".pyc", ".o")) or p in gen:
                continue
            shutil.copy2(p, os.path.join(out, f))


def _extensions(dst):
    exts = []
    with open(os.path.join(REPO, "setup.py")) as fh:
        declared = fh.read()
    for root, dirs, files in os.walk(os.path.join(dst, "regreg")):
        for f in sorted(files):
            if f.endswith(".pyx") and _modname(os.path.join(root, f)) in declared:
                exts.append(os.path.join(root, f))
    return exts


def _includes():
    out = subprocess.run([PY, "-c", "import numpy,sysconfig;print(numpy.get_include());"
                          "print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True, check=True).stdout.split()
    return out


def _compile(pyx, inc, variant):
    np_inc, py_inc, suffix = inc
    v = VARIANTS[variant]
    d = os.path.dirname(pyx)
    c = pyx[:-4] + ".c"
    env = dict(os.environ, **ENV_FIXED)
    r = subprocess.run([PY, "-m", "cython", "--module-name", _modname(pyx), pyx, "-o", c],
                       capture_output=True, text=True, env=env)
    if r.returncode:
        raise BuildError("cython failed on %s\n%s" % (pyx, r.stderr[-3000:]))
    srcs = [c]
    # hand written C next to the extension (cox_fns.c) is listed in setup.py together with cox_utils
    if os.path.basename(pyx) == "cox_utils.pyx":
        srcs += [os.path.join(d, f) for f in sorted(os.listdir(d))
                 if f.endswith(".c") and os.path.join(d, f) != c and not os.path.exists(os.path.join(d, f[:-2] + ".pyx"))]
    so = pyx[:-4] + suffix
    cmd = ["gcc", "-shared", "-fPIC", "-I" + np_inc, "-I" + py_inc, "-I" + d] + v["cflags"] + srcs + ["-o", so] + v["ldflags"] + ["-lm"]
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    if r.returncode:
        raise BuildError("gcc failed on %s\n%s" % (pyx, r.stderr[-3000:]))
    return so


def _modname(pyx):
    i = pyx.rindex("/regreg/")
    return pyx[i + 1:-4].replace("/", ".")


def build(variant="plain", base=None):
    """Returns the scratch directory holding a compiled `regreg` package."""
    dst = tempfile.mkdtemp(prefix="rv_build_%s_" % variant, dir=base)
    try:
        _copy_tree(dst)
        inc = _includes()
        exts = _extensions(dst)
        if not exts:
            raise BuildError("no extension modules found")
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda p: _compile(p, inc, variant), exts))
    except Exception:
        shutil.rmtree(dst, ignore_errors=True)
        raise
    return dst


if __name__ == "__main__":
    # --smoke: prove that the toolchain can build the tree in both variants, leave nothing behind
    for v in ("plain", "asan"):
        t = time.time()
        d = build(v)
        shutil.rmtree(d)
        print("build %s ok %.1fs" % (v, time.time() - t))
