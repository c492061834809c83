"""Recording stand-in for matplotlib."""
from . import pyplot   # noqa: F401
rcParams = {}


def use(*a, **k):
    pass


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return pyplot._Any()
