#!/opt/venv/bin/python
"""Runs the runtime-monitoring check of one property against /repo's working tree.

    run.py C05                    tier from VERIF_TIER (default quick), seed from VERIF_SEED (default 1)
    run.py C05 --tier thorough
    run.py C05 --replay FILE      re-executes exactly the recorded case
    run.py --all                  all properties (summary, for development)

Exit 0: held on everything observed.  Exit 1 + VIOLATION line: violated.  Exit 2: inconclusive.
"""
import os, sys

_HERE = os.path.dirname(os.path.abspath(__file__))
_REPO = os.environ.get("VERIF_REPO", "/repo")

def _reexec():
    """Fix everything that could make two runs differ, then start over in a clean interpreter."""
    env = dict(os.environ)
    want = {
        "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
        "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "PYTHONPATH": os.path.join(_REPO, "src"), "TZ": "UTC", "VERIF_CHILD": "1",
    }
    if os.path.isdir("/opt/venv/mplconfig"):
        want["MPLCONFIGDIR"] = "/opt/venv/mplconfig"
    env.update(want)
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]], env)

if __name__ == "__main__":
    if os.environ.get("VERIF_CHILD") != "1":
        _reexec()
    sys.path.insert(0, _HERE)
    from lib import core
    sys.exit(core.main(sys.argv[1:], _HERE, _REPO))
