"""Process environment for every check: single threaded numerics, no bytecode
in /repo, /repo's working tree first on the import path, Hypothesis last."""
import os
import sys

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VENV_PY = "/opt/venv/bin/python"

_ENV = {
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg", "LOKY_MAX_CPU_COUNT": "1",
}


def reexec_if_needed():
    """Re-start under the interpreter and environment the checks are defined
    for, so that a run is a function of the tree and VERIF_SEED only."""
    if os.environ.get("VP_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(_ENV)
    env["VP_BOOTED"] = "1"
    env.pop("PYTHONOPTIMIZE", None)
    py = VENV_PY if os.path.exists(VENV_PY) else sys.executable
    os.execve(py, [py] + sys.argv, env)


def setup_path():
    for p in (REPO, VERIF):
        while p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    if HYP_SITE not in sys.path:
        sys.path.append(HYP_SITE)
