"""Every call is recorded as (receiver, method, args, kwargs) in `log`.
plt.<m> calls go to the receiver 'plt', i.e. the current axes."""
import numpy as np

log = []
_ids = [0]


def reset():
    del log[:]
    _ids[0] = 0


def _freeze(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, list):
        return [_freeze(x) for x in v]
    if isinstance(v, tuple):
        return tuple(_freeze(x) for x in v)
    if isinstance(v, dict):
        return {k: _freeze(x) for k, x in v.items()}
    return v


class _Any:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()

    def __iter__(self):
        return iter(())

    def __getitem__(self, i):
        return _Any()


class Axes:
    def __init__(self, name):
        self._name = name
        self.transAxes = ("transAxes", name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n.startswith("trans") or n in ("figure", "spines", "xaxis", "yaxis", "patch"):
            return _Any()

        def rec(*a, **k):
            if n == "set":              # ax.set(xlabel=...) is ax.set_xlabel(...)
                for p, v in k.items():
                    log.append((self._name, "set_" + p, (_freeze(v),), {}))
            else:
                log.append((self._name, n, _freeze(a), _freeze(k)))
            return _Any()
        return rec

    def __repr__(self):
        return "<%s>" % self._name


class Figure:
    def __init__(self, name):
        self._name = name

    def add_axes(self, *a, **k):
        _ids[0] += 1
        return Axes("ax%d" % _ids[0])

    def add_subplot(self, *a, **k):
        return self.add_axes()

    def gca(self, *a, **k):
        if "_axes" not in self.__dict__:
            self.__dict__["_axes"] = self.add_axes()
        return self.__dict__["_axes"]

    def subplots(self, *a, **k):
        return subplots(*a, **k)[1]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def rec(*a, **k):
            log.append((self._name, n, _freeze(a), _freeze(k)))
            return _Any()
        return rec


def figure(*a, **k):
    _ids[0] += 1
    log.append(("plt", "figure", _freeze(a), _freeze(k)))
    return Figure("fig%d" % _ids[0])


def subplots(nrows=1, ncols=1, sharex=False, sharey=False, squeeze=True, **k):
    if nrows < 1 or ncols < 1:
        raise ValueError("Number of rows and columns must be positive, not %r x %r"
                         % (nrows, ncols))
    _ids[0] += 1
    log.append(("plt", "subplots", (nrows, ncols), dict(_freeze(k), _fig=_ids[0])))
    fig = Figure("fig%d" % _ids[0])
    ax = np.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols):
            ax[i, j] = Axes("fig%d[%d,%d]" % (_ids[0], i, j))
    if squeeze:
        if nrows == ncols == 1:
            return fig, ax[0, 0]
        if nrows == 1:
            return fig, ax[0]
        if ncols == 1:
            return fig, ax[:, 0]
    return fig, ax


_plt_ax = Axes("plt")


def gca():
    return _plt_ax


def gcf():
    return Figure("gcf")


def subplot(*a, **k):
    return _plt_ax


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return getattr(_plt_ax, name)
