"""Build the six extensions from /repo's working tree into a scratch directory."""

import os
import subprocess
import sys


def build(dest, repo="/repo"):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        CONDA_PREFIX="/usr",
        SETUPTOOLS_SCM_PRETEND_VERSION="1.2.5",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
    )
    if os.path.isdir("/opt/ccache") and os.access("/opt/ccache", os.W_OK):
        env.update(
            CC="ccache gcc",
            CXX="ccache g++",
            CCACHE_DIR="/opt/ccache",
            CCACHE_COMPILERCHECK="content",
        )
    cmd = [
        sys.executable,
        "setup.py",
        "-q",
        "build_ext",
        "--force",
        "--parallel",
        "8",
        "--build-lib",
        dest,
        "--build-temp",
        dest + "-tmp",
    ]
    r = subprocess.run(cmd, cwd=repo, env=env, capture_output=True, text=True, timeout=800)
    if r.returncode != 0 and "CCACHE_DIR" in env:
        for k in ("CC", "CXX"):
            env.pop(k)
        r = subprocess.run(cmd, cwd=repo, env=env, capture_output=True, text=True, timeout=800)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-2000:] + r.stderr[-4000:])
        raise RuntimeError("building the extensions failed")
    return dest
