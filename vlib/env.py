"""Process-wide set-up: which tree is under test, how it is imported."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ.setdefault(k, "1")
sys.dont_write_bytecode = True
for p in (os.path.join(REPO, "irreptables"), REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
