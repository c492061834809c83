"""Placeholder for pandas in the CPython lane (isinstance checks only)."""


class DataFrame:
    def __init__(self, *a, **k):
        raise RuntimeError("pandas is not available in this lane")


class Series:
    def __init__(self, *a, **k):
        raise RuntimeError("pandas is not available in this lane")


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    def f(*a, **k):
        raise RuntimeError("pandas.%s is not available in this lane" % name)
    return f
