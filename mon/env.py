"""Bootstraps a process that imports pyswarms from /repo without leaving traces there.

Importing pyswarms writes report.log into the working directory and numpy/BLAS
may start threads, so the working directory, caches and thread counts are fixed
before the first import."""
import os
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def base_env(scratch):
    e = dict(os.environ)
    e.pop("LOG_CFG", None)
    mpl = os.path.join(scratch, "mpl")
    os.makedirs(mpl, exist_ok=True)
    e.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=mpl,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONWARNINGS="ignore",
        HOME=scratch,
        TMPDIR=scratch,
        PYTHONPATH=VERIF + os.pathsep + REPO,
    )
    return e


def enter(scratch):
    """In the worker: go to the scratch directory, import pyswarms and check its origin."""
    os.chdir(scratch)
    tempfile.tempdir = scratch
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    devnull = open(os.devnull, "w")
    keep = sys.stderr
    sys.stderr = devnull  # "report.log" set-up attaches to stderr
    try:
        import pyswarms
        import pyswarms.backend  # noqa
    finally:
        sys.stderr = keep
    origin = os.path.realpath(pyswarms.__file__)
    if not origin.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("pyswarms imported from %s instead of %s" % (origin, REPO))
    quiet()
    return pyswarms


def quiet():
    """Silence the root handlers that every Reporter() installs."""
    import logging

    logging.raiseExceptions = False
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(logging.NullHandler())
