"""Import convst from the repository's working tree, on the stand-ins."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

import numpy as np      # noqa: E402

for _n, _t in (("float_", np.float64), ("bool8", np.bool_), ("int0", np.intp),
               ("unicode_", np.str_), ("string_", np.bytes_), ("object0", np.object_),
               ("complex_", np.complex128), ("Inf", np.inf), ("Infinity", np.inf),
               ("infty", np.inf), ("NaN", np.nan), ("PINF", np.inf), ("NINF", -np.inf),
               ("product", np.prod), ("cumproduct", np.cumprod), ("alltrue", np.all),
               ("sometrue", np.any), ("round_", np.round), ("row_stack", np.vstack),
               ("trapz", getattr(np, "trapezoid", None)),
               ("in1d", getattr(np, "in1d", None) or (lambda a, b, **k: np.isin(
                   np.asarray(a).ravel(), b, **k))),
               ("asfarray", lambda a, dtype=np.float64: np.asarray(a, dtype=dtype)),
               ("msort", lambda a: np.sort(a, axis=0))):
    if _t is not None:
        try:
            getattr(np, _n)
        except AttributeError:
            setattr(np, _n, _t)

warnings.simplefilter("ignore")
np.seterr(all="ignore")

sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(VERIF, "shims"))
sys.path.insert(0, os.path.join(VERIF, "shims_cpython"))

import numba            # noqa: E402
import numba._sched     # noqa: E402
import joblib           # noqa: E402

assert getattr(numba, "__vf_shim__", False)
numba._sched.scope_dirs = (REPO + os.sep,)


def reset_state(seed):
    """Put every process-wide state the code under test can see in a state that
    is a function of the case."""
    import random
    seed = int(seed) % (2 ** 31)
    random.seed(seed)
    np.random.seed(seed)
    numba._scramble(seed + 1)
    numba._depth = 0
    numba._sched.mode = None
    numba._sched._in_prange = False
    del numba._sched._stack[:]
    joblib.exec_order = 0
