"""Process set-up shared by every check: real code from /repo, z3 from the tools venv, scratch cache."""
import atexit
import os
import shutil
import sys
import tempfile

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
_MAIN = os.environ.get("SYMVER_SCRATCH")
if _MAIN is None:
    _MAIN = tempfile.mkdtemp(prefix="symver-")
    os.environ["SYMVER_SCRATCH"] = _MAIN
    _pid = os.getpid()

    def _clean():
        if os.getpid() == _pid:
            shutil.rmtree(_MAIN, ignore_errors=True)

    atexit.register(_clean)
SCRATCH = _MAIN
os.makedirs(os.path.join(SCRATCH, "cache"), exist_ok=True)
# symfem reads and writes inverted dual matrices below the user cache directory: never the real one.
os.environ["XDG_CACHE_HOME"] = os.path.join(SCRATCH, "cache")
os.environ["HOME"] = SCRATCH
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
sys.setrecursionlimit(20000)
