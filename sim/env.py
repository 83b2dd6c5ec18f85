"""Process environment of the simulator. Import before anything else."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"


def reexec(jit=False):
    """Run under the project's interpreter with a fixed environment (one integer decides everything)."""
    want = {
        "PYTHONHASHSEED": os.environ.get("VERIF_HASHSEED", "0"),
        "PYTHONDONTWRITEBYTECODE": "1",
        "MPLBACKEND": "Agg",
        "NUMBA_THREADING_LAYER": "workqueue",
        "NUMBA_DISABLE_JIT": "0" if jit else "1",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "PYTHONPATH": REPO,
        "ASTROPY_USE_IERS": "0",
        "MPLCONFIGDIR": os.environ.get("MPLCONFIGDIR", "/tmp/.vmpl"),
        "VERIF_ENV_OK": "1",
    }
    if os.environ.get("VERIF_ENV_OK") == "1" and all(os.environ.get(k) == v for k, v in want.items()) \
            and os.path.realpath(sys.prefix) == os.path.realpath("/opt/venv"):
        return
    env = dict(os.environ)
    env.update(want)
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe] + sys.argv, env)


def load():
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    out = os.dup(1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    try:
        import numpy as np
        np.seterr(all="ignore")
        import clustertools as ct
        assert os.path.realpath(ct.__file__).startswith(os.path.realpath(REPO)), ct.__file__
        from clustertools.analysis import profiles  # noqa: F401
    finally:
        sys.stdout.flush()
        os.dup2(out, 1)
        os.close(out)
        os.close(dn)
    # amuse prints its citation banner at exit: not wanted in the report
    try:
        import atexit
        from amuse.support import literature
        for n in ("TrackLiteratureReferences",):
            c = getattr(literature, n, None)
            if c is not None and getattr(c, "INSTANCE", None) is not None:
                atexit.unregister(c.INSTANCE.atexit)
            if c is not None:
                c.suppress_output = classmethod(lambda cls: None)
                atexit.unregister(c.print_references) if hasattr(c, "print_references") else None
    except Exception:
        pass
    return ct
