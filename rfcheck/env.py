"""Environment of a check: interpreter paths, quiet headless libraries.

Must be imported before numpy/reservoirflow.  The code under test is always
imported from the working tree /repo (nothing is copied or cached).
"""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("RFCHECK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "VTK_SMP_MAX_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")
os.environ.setdefault("TQDM_DISABLE", "1")
sys.dont_write_bytecode = True

if REPO not in sys.path:
    sys.path.insert(0, REPO)
# hypothesis lives in the tooling venv; appended last, so that numpy & co. still
# come from the interpreter that runs the project.
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

SCRATCH = None


def scratch():
    """A scratch directory private to this check process tree."""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="rfcheck-")
        os.environ["MPLCONFIGDIR"] = SCRATCH
    return SCRATCH


def load():
    """Import the code under test; returns the module."""
    scratch()
    warnings.simplefilter("ignore")
    import reservoirflow as rf

    got = os.path.realpath(rf.__file__)
    want = os.path.realpath(os.path.join(REPO, "reservoirflow")) + os.sep
    if not got.startswith(want):
        raise RuntimeError(f"reservoirflow imported from {got}, not from {want}")
    return rf
