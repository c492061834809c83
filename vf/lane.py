"""The second lane: the repository's own interpreter (PyPy, numpy 1.24, real
pandas), driven as a worker process over a pipe."""
import atexit
import json
import os
import subprocess
import sys

import numpy as np

from .core import LaneError
from .prelude import VERIF

PYTHON = os.environ.get("VERIF_LANE_PYTHON", "/opt/venv/bin/python")
_proc = None


def _plain(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.bool_):
        return bool(o)
    raise TypeError(type(o))


def _start():
    global _proc
    _proc = subprocess.Popen([PYTHON, os.path.join(VERIF, "vf", "worker.py")],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                             env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))


def stop():
    global _proc
    if _proc is not None:
        try:
            _proc.kill()
            _proc.wait()
        except OSError:
            pass
        _proc = None


atexit.register(stop)


def _rpc(name, args, kwargs):
    import scipy.stats
    r = {"wilcoxon": scipy.stats.wilcoxon,
         "friedmanchisquare": scipy.stats.friedmanchisquare}[name](*args, **kwargs)
    return [float(r[0]), float(r[1])]


def call(func, case):
    """run lanefuncs.<func>(case) in the worker"""
    if _proc is None:
        _start()
    try:
        _proc.stdin.write(json.dumps({"func": func, "case": case}, default=_plain) + "\n")
        _proc.stdin.flush()
        while True:
            line = _proc.stdout.readline()
            if not line:
                raise RuntimeError("the worker ended")
            r = json.loads(line)
            if "rpc" not in r:
                break
            try:
                out = {"value": _rpc(r["rpc"], [np.array(a) if isinstance(a, list) else a
                                                for a in r["args"]], r["kwargs"])}
            except Exception as e:
                out = {"error": "%s: %s" % (type(e).__name__, e)}
            _proc.stdin.write(json.dumps(out) + "\n")
            _proc.stdin.flush()
    except BaseException:
        stop()
        raise
    if "exc" in r:
        raise LaneError(r["exc"], r["msg"], r["mine"], r["gap"], r["where"])
    sys.stdout.flush()
    return r["value"]
