#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy: plant.py ID... [--tests]. Uses /tmp/pl/repo (a cp -a of /repo)."""
import os, shutil, subprocess, sys

W = "/tmp/pl/repo"
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
           PYTHONPATH=W + "/src")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def sync():
    if not os.path.isdir(W):
        os.makedirs("/tmp/pl", exist_ok=True)
        sh(f"cp -a /repo {W}")
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {W} checkout -q -- . && git -C {W} fetch -q /repo && git -C {W} reset -q --hard {h}")
    sh(f"cp -a /repo/src/*.so {W}/src/")


def build():
    e = dict(ENV, CONDA_PREFIX="/usr", SETUPTOOLS_SCM_PRETEND_VERSION="1.2.5", CC="ccache gcc", CXX="ccache g++", CCACHE_DIR="/tmp/pl/ccache")
    r = sh("/opt/venv/bin/python setup.py -q build_ext --inplace --force --parallel 8", cwd=W, env=e)
    return r.returncode == 0 or print(r.stderr[-800:])


def demo(i):
    d = f"/tmp/pl/demo_{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f"/verif/seeded/{i}", d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        r = sh(f"timeout 300 bash {d}/demo.sh", cwd=W, env=ENV)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r.returncode, (r.stdout + r.stderr)[-400:]


for i in [a for a in sys.argv[1:] if not a.startswith("-")]:
    sync()
    p = f"/verif/seeded/{i}/patch.diff"
    cpp = ".cpp" in open(p).read() or ".h" in open(p).read()
    a = demo(i)
    r = sh(f"git apply {p}", cwd=W)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stderr)
        continue
    if "cpp/" in open(p).read():
        build()
    b = demo(i)
    t = ""
    if "--tests" in sys.argv:
        r = sh("timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_hsmm.py", cwd=W, env=ENV)
        t = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-200:]
    ok = a[0] == 0 and b[0] != 0
    print(i, "OK" if ok else "BAD", "clean:", a, "patched:", b, "tests:", t, flush=True)
sync()
