"""How many cores the code under test believes the machine has."""
import os
import sys
from contextlib import contextmanager

_real = os.cpu_count()
_movable = []


@contextmanager
def simulated(cores, extra=()):
    """every way to count cores answers `cores`; extra: [(object, attribute)] besides"""
    import multiprocessing
    where = [(os, "cpu_count"), (multiprocessing, "cpu_count")] + list(extra)
    ours = [getattr(o, a) for o, a in where]
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").split(".")[0] == "convst":
            where += [(m, a) for a, v in list(vars(m).items())
                      if callable(v) and any(v == f for f in ours)]
    old = [(o, a, getattr(o, a)) for o, a in where]
    affinity = getattr(os, "sched_getaffinity", None)

    def n(*args, **kwargs):
        return cores
    for o, a, _ in old:
        setattr(o, a, n)
    if affinity:
        os.sched_getaffinity = lambda pid: set(range(cores))
    try:
        yield
    finally:
        for o, a, f in old:
            setattr(o, a, f)
        if affinity:
            os.sched_getaffinity = affinity


def believed(cores, extra=()):
    """cores, unless the code counted them once and for all before we could say"""
    if not _movable:
        from convst.utils.checks_utils import check_n_jobs
        try:
            got = [check_n_jobs(-1)]
            for k in (_real + 1, _real + 2):
                with simulated(k, extra):
                    got.append(check_n_jobs(-1))
        except Exception:
            got = []
        _movable.append(not got or any(g != _real for g in got))
    return cores if _movable[0] else _real
