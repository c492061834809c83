"""Stand-in for joblib: runs tasks in an order owned by the harness, returns
results in submission order."""
import functools
import random

exec_order = 0          # 0: submission order, 1: reversed, k: shuffled by k
calls = []


def delayed(function):
    @functools.wraps(function)
    def deferred(*args, **kwargs):
        return function, args, kwargs
    return deferred


class Parallel:
    def __init__(self, n_jobs=None, backend=None, verbose=0, timeout=None,
                 pre_dispatch="2 * n_jobs", batch_size="auto", temp_folder=None,
                 max_nbytes="1M", mmap_mode="r", prefer=None, require=None,
                 return_as="list", **kw):
        if require not in (None, "sharedmem"):
            raise ValueError("require=%r is not a valid option" % (require,))
        if prefer not in (None, "processes", "threads"):
            raise ValueError("prefer=%r is not a valid option" % (prefer,))
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        self.n_jobs = n_jobs

    def __call__(self, iterable):
        tasks = list(iterable)
        idx = list(range(len(tasks)))
        if exec_order == 1:
            idx = idx[::-1]
        elif exec_order:
            random.Random(exec_order).shuffle(idx)
        calls.append(len(tasks))
        out = [None] * len(tasks)
        for i in idx:
            f, a, k = tasks[i]
            out[i] = f(*a, **k)
        return out

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def cpu_count():
    import os
    return os.cpu_count() or 1


def effective_n_jobs(n_jobs=-1):
    if n_jobs is None:
        return 1
    return max(1, cpu_count() + 1 + n_jobs) if n_jobs < 0 else n_jobs


class parallel_backend:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


parallel_config = parallel_backend


class Memory:
    def __init__(self, *a, **k):
        pass

    def cache(self, f=None, **k):
        return f if f is not None else (lambda g: g)
