"""C30: unique rows and the all-reduction agree with numpy."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, prelude     # noqa: F401
from .common import Facet, Skip, Violation

DTYPES = ["int64", "int32", "int8", "uint8", "float64", "float32", "bool"]


def module():
    import convst.utils.numba_utils as m
    return m


def types_of(a, flag="C"):
    from numba import types
    if isinstance(a, np.ndarray):
        return types.Array(types.boolean, a.ndim, flag)
    if a is None:
        return types.none
    if isinstance(a, (int, np.integer)) and not isinstance(a, bool):
        return types.int64
    if isinstance(a, float):
        return types.float64
    return types.UniTuple(types.int64, 2)


def compiled_all(x, *a, **k):
    """np.all as compiled code sees it: the supplied implementation"""
    from numba import extending
    module()
    impl = extending.overloads.get(np_all0)
    if impl is None:
        raise Skip("no overload of np.all")
    tk = {q: types_of(v) for q, v in k.items()}
    ta = [types_of(v) for v in a]
    if not ta and not tk:
        return np_all0(x)       # provided by the compiler itself
    f = impl(types_of(x), *ta, **tk)
    if f is None:
        from numba.core.errors import TypingError
        raise TypingError("no implementation")
    return f(x, *a, **k)


np_all0 = np.all


@st.composite
def unique_case(draw):
    n, c = draw(st.integers(1, 14)), draw(st.integers(1, 4))
    hi = draw(st.sampled_from([2, 2, 3, 200]))
    return {"dtype": draw(st.sampled_from(DTYPES)), "axis": draw(st.sampled_from([0, 0, 1, None])),
            "v": [[draw(st.integers(0, hi - 1)) for _ in range(c)] for _ in range(n)],
            "off": draw(st.integers(-3, 3)), "scale": draw(st.sampled_from([1, 0.5, -1])),
            "layout": draw(st.sampled_from(["C", "F", "view", "readonly"])),
            "compiled": draw(st.booleans())}


@st.composite
def tall_case(draw):
    """too many entries to list: made from a seed"""
    n, c = draw(st.one_of(st.integers(15, 100), st.integers(100, 3000))), draw(st.integers(1, 4))
    hi = draw(st.sampled_from([2, 3, 5, 60]))
    return {"dtype": draw(st.sampled_from(DTYPES)), "axis": draw(st.sampled_from([0, 0, 1, None])),
            "n": n, "c": c, "hi": hi, "seed": draw(gen.seeds), "swap": draw(st.booleans()),
            "off": draw(st.integers(-3, 3)), "scale": draw(st.sampled_from([1, 0.5, -1])),
            "layout": draw(st.sampled_from(["C", "F", "view", "readonly"])),
            "compiled": draw(st.booleans())}


def tall(case, ctx):
    v = np.random.RandomState(case["seed"]).randint(0, case["hi"], size=(case["n"], case["c"]))
    if case["axis"] == 1 and case["swap"]:
        v = v.T
    uniq(dict(case, v=v), ctx)


def uniq(case, ctx):
    v = np.array(case["v"])
    if case["dtype"].startswith("float"):
        v = v * case["scale"] + case["off"]
    elif case["dtype"].startswith("int"):
        v = v % 100 + case["off"]
    a = v.astype(case["dtype"])
    if case["layout"] == "F":
        a = np.asfortranarray(a)
    elif case["layout"] == "view":
        b = np.zeros((2 * a.shape[0], a.shape[1] + 1), dtype=a.dtype)
        b[::2, 1:] = a
        a = b[::2, 1:]
    elif case["layout"] == "readonly":
        a = a.copy()
        a.setflags(write=False)
    keep = a.copy()
    f = module().nb_unique
    kw = {} if case["axis"] is None else {"axis": case["axis"]}
    try:
        if case["compiled"]:
            np.all = compiled_all
        r = f(a, **kw)
    finally:
        np.all = np_all0
    if not np.array_equal(a, keep):
        raise Violation("nb_unique changed its input")
    u, i, n = [np.asarray(q) for q in r]
    ax = case["axis"] or 0
    eu, ei, en = np.unique(keep, axis=ax, return_index=True, return_counts=True)
    if ax == 1:
        eu = eu.T
    for name, got, want in (("rows", u, eu), ("indexes", i, ei), ("counts", n, en)):
        if got.shape != want.shape or not np.array_equal(got, want):
            raise Violation("unique %s along axis %d of %d x %d, %s...: %s..., expected %s..." % (
                name, ax, keep.shape[0], keep.shape[1], keep[:14].tolist(), got[:14].tolist(),
                want[:14].tolist()))
    if u.dtype != keep.dtype:
        raise Violation("unique rows of %s data have dtype %s" % (keep.dtype, u.dtype))
    k = keep.shape[ax]
    ctx.nt(1 < len(eu) < k)
    ctx.label("one column" if keep.shape[1 - ax] == 1 else "columns",
              "compiled all" if case["compiled"] else "plain")
    if k == 1:
        ctx.label("one row")


@st.composite
def all_case(draw):
    nd = draw(st.sampled_from([1, 2, 2, 2]))
    shape = [draw(st.integers(1, 6)) for _ in range(nd)]
    false = draw(st.integers(0, 4))
    a = np.ones(shape, dtype=bool)
    for _ in range(false):
        a[tuple(draw(st.integers(0, s - 1)) for s in shape)] = False
    return {"a": a.tolist(), "axis": draw(st.sampled_from([0, 1, None])),
            "optional": draw(st.booleans()),
            "layout": draw(st.sampled_from(["C", "F", "T", "rev"]))}


def all_(case, ctx):
    from numba import extending, types
    module()
    a = np.array(case["a"], dtype=bool)
    if case["layout"] == "F":
        a = np.asfortranarray(a)
    elif case["layout"] == "T":
        a = a.T
    elif case["layout"] == "rev":
        a = a[::-1]
    keep = a.copy()
    ax = case["axis"]
    if a.ndim == 1 and ax == 1:
        ax = None
    impl = extending.overloads.get(np_all0)
    if impl is None:
        raise Skip("no overload of np.all")
    ta = types_of(a)
    t = types_of(ax)
    if case["optional"] and ax is not None:
        t = types.Optional(t)
        ctx.label("optional axis")
    f = impl(ta, t) if len(case["a"]) % 2 else impl(ta, axis=t)
    got, want = f(a, ax), np_all0(a, axis=ax)
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or not np.array_equal(got, want):
        raise Violation("all(%s, axis=%s) is %s, numpy gives %s"
                        % (keep.tolist(), ax, got.tolist(), want.tolist()))
    if got.dtype != np.bool_:
        raise Violation("all(...) has dtype %s" % got.dtype)
    if not np.array_equal(a, keep):
        raise Violation("all(...) changed its input")
    ctx.nt(not a.all() and a.ndim == 2)
    ctx.label("%dD axis %s" % (a.ndim, ax))
    if 1 in a.shape:
        ctx.label("one row or column")


def refuse_cases():
    return st.fixed_dictionaries({
        "what": st.sampled_from(["rank 0", "rank 3", "rank 4", "list", "int", "axis float",
                                 "axis bool", "axis tuple", "axis optional float", "axis str"]),
        "axis": st.sampled_from([0, 1, None]), "ndim": st.sampled_from([1, 2])})


def refuse(case, ctx):
    from numba import extending, types
    module()
    impl = extending.overloads.get(np_all0)
    if impl is None:
        raise Skip("no overload of np.all")
    w = case["what"]
    t = types.Array(types.boolean, case["ndim"], "C")
    ax = types_of(case["axis"])
    if w.startswith("rank"):
        t = types.Array(types.boolean, int(w[-1]), "C")
    elif w == "list":
        t = types.List(types.boolean)
    elif w == "int":
        t = types.int64
    elif w == "axis float":
        ax = types.float64
    elif w == "axis bool":
        ax = types.boolean
    elif w == "axis tuple":
        ax = types.UniTuple(types.int64, 2)
    elif w == "axis optional float":
        ax = types.Optional(types.float64)
    elif w == "axis str":
        ax = types.UnicodeType("unicode")
    ctx.nt()
    ctx.label(w)
    try:
        f = impl(t, ax)
    except Exception:
        return
    if f is not None:
        raise Violation("an implementation of all() is supplied for %s" % w)


def facets():
    return [
        Facet("unique", unique_case, uniq, 3000, rule="duplicates and more than one group"),
        Facet("tall", tall_case, tall, 200, rule="the same for 15 to 3000 rows"),
        Facet("all", all_case, all_, 2400, rule="2D with at least one False"),
        Facet("refusals", refuse_cases, refuse, 200, rule="every case"),
    ]
