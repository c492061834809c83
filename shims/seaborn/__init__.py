from matplotlib import pyplot as _p


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    def rec(*a, **k):
        _p.log.append(("sns", name, _p._freeze(a), _p._freeze(k)))
        return k.get("ax", _p._plt_ax)
    return rec
