overloads = {}


def overload(func, **kw):
    def deco(impl):
        overloads[func] = impl
        return impl
    return deco


def register_jitable(*args, **kw):
    if args and callable(args[0]):
        return args[0]
    return lambda f: f


def overload_method(*a, **k):
    return lambda f: f


overload_attribute = overload_method


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return lambda *a, **k: (lambda f: f)
