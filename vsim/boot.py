"""Import mssm from /repo's working tree (and the freshly built extensions) under the seams."""

import os
import sys
import warnings

REPO = os.environ.get("VSIM_REPO", "/repo")
SO = os.environ.get("VSIM_SO")


def boot():
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("TQDM_DISABLE", "1")
    sys.dont_write_bytecode = True
    paths = ([SO] if SO else []) + [os.path.join(REPO, "src")]
    for p in reversed(paths):
        sys.path.insert(0, p)
    from . import mpsim, fssim

    import pandas  # noqa: F401
    import scipy.stats  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.sparse  # noqa: F401
    import scipy.differentiate  # noqa: F401
    import tqdm

    tqdm.tqdm.monitor_interval = 0
    mpsim.install()
    fssim.install()
    warnings.simplefilter("ignore")
    import mssm  # noqa: F401
    import mssm.models  # noqa: F401
    import mssm.src.python.compare  # noqa: F401
    import mssm.src.python.mcmc  # noqa: F401
    import mssm.src.python.hsmm  # noqa: F401
    import eigen_solvers

    if not os.path.abspath(mssm.__file__).startswith(os.path.join(REPO, "src")):
        raise RuntimeError(f"mssm imported from {mssm.__file__}")
    if SO and not os.path.abspath(eigen_solvers.__file__).startswith(SO):
        raise RuntimeError(f"eigen_solvers imported from {eigen_solvers.__file__}")
