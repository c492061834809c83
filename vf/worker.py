"""Worker of the second lane (see lane.py)."""
import json
import os
import signal
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(VERIF, "vf")]
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(VERIF, "shims"))
sys.path.insert(0, os.path.join(VERIF, "shims_pypy"))
sys.path.append(VERIF)
OUT = sys.stdout
sys.stdout = open(os.devnull, "w")
warnings.simplefilter("ignore")

import numpy as np      # noqa: E402
np.seterr(all="ignore")
SHIMS = ("sklearn", "numba", "joblib", "aeon", "matplotlib", "seaborn", "scipy", "networkx")


def plain(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


def send(o):
    OUT.write(json.dumps(o, default=plain) + "\n")
    OUT.flush()


def rpc(name, args, kwargs):
    send({"rpc": name, "args": args, "kwargs": kwargs})
    r = json.loads(sys.stdin.readline())
    if "error" in r:
        raise ValueError(r["error"])
    return r["value"]


def gap(e):
    if isinstance(e, ImportError):
        return (getattr(e, "name", None) or "").split(".")[0] in SHIMS
    if isinstance(e, AttributeError):
        return any("module '%s" % m in str(e) for m in SHIMS)
    return isinstance(e, NotImplementedError) and "stand-in" in str(e)


class _Spin(BaseException):
    pass


def _prof(*a):
    raise _Spin("120 s")


def main():
    import scipy
    scipy._rpc = rpc
    from vf import lanefuncs
    signal.signal(signal.SIGPROF, _prof)
    for line in sys.stdin:
        q = json.loads(line)
        try:
            np.random.seed(len(line) % 1000)
            signal.setitimer(signal.ITIMER_PROF, 120)
            r = {"value": getattr(lanefuncs, q["func"])(q["case"])}
            json.dumps(r, default=plain)
        except (Exception, _Spin) as e:
            tb = traceback.extract_tb(e.__traceback__)
            mine = [f for f in tb if f.filename.startswith(REPO + os.sep)]
            last = (mine or tb)[-1]
            r = {"exc": type(e).__name__, "msg": str(e), "mine": bool(mine), "gap": gap(e),
                 "where": "%s:%s" % (os.path.basename(last.filename), last.name)}
        signal.setitimer(signal.ITIMER_PROF, 0)
        send(r)


if __name__ == "__main__":
    main()
