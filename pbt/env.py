"""Process environment shared by every check (import before numpy)."""
import os
import sys
import tempfile
import atexit
import shutil

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
REPO = os.environ.get("PBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

SCRATCH = None


def setup():
    """Scratch directory, fresh JIT cache, import paths."""
    global SCRATCH
    if SCRATCH:
        return SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="pbt_")
    pid = os.getpid()

    def _clean():
        if os.getpid() == pid:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(_clean)
    if not os.environ.get("PBT_KEEP_NUMBA"):
        os.environ["NUMBA_CACHE_DIR"] = os.path.join(SCRATCH, "numba")
    os.makedirs(os.environ["NUMBA_CACHE_DIR"], exist_ok=True)
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if HYP not in sys.path:
        sys.path.append(HYP)
    import inflation
    where = os.path.realpath(inflation.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where
    return SCRATCH
