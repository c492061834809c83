"""C24: input checks accept exactly valid inputs, unchanged, else ValueError."""
from hypothesis import strategies as st

from vf import lane
from .common import Facet, Violation

DT = ["float64", "float32", "int64", "int8", "bool", "str"]


@st.composite
def array_case(draw):
    func = draw(st.sampled_from(["check_array_1D", "check_array_2D", "check_array_3D",
                                 "check_array_3D"]))
    kind = draw(st.sampled_from(["array", "array", "list", "list", "frame", "series", "tuple",
                                 "object-array", "arrays", "py"]))
    nd = int(func[-2])
    kw = {}
    if kind == "arrays":
        arg = {"kind": kind, "shapes": draw(st.lists(st.lists(
            st.integers(1, 4), min_size=max(nd - 1, 1), max_size=max(nd - 1, 1)),
            min_size=1, max_size=3))}
        if draw(st.booleans()):
            arg["shapes"] = [arg["shapes"][0]] * len(arg["shapes"])
    elif kind == "py":
        arg = {"kind": "py", "value": draw(st.integers(-3, 3)), "as": draw(st.sampled_from(
            ["none", "str", "int", "float", "dict", "set", "range", "odd", "gen", "bool",
             "bytes", "type", "array0", "npfloat"]))}
    else:
        r = draw(st.sampled_from([nd, nd, nd, nd, 0, 1, 2, 3, 4]))
        if kind == "frame":
            r = 2
        arg = {"kind": kind, "shape": [draw(st.sampled_from([1, 1, 2, 3, 4, 5, 7]))
                                       if draw(st.integers(0, 9)) else 0 for _ in range(r)],
               "dtype": draw(st.sampled_from(DT)), "F": draw(st.booleans()),
               "nan": draw(st.booleans()), "names": draw(st.booleans())}
    if func == "check_array_3D":
        if draw(st.booleans()):
            kw["is_univariate"] = draw(st.booleans())
        if draw(st.integers(0, 2)) == 0:
            kw["min_timestamps"] = draw(st.integers(0, 6))
    if func != "check_array_1D" and draw(st.integers(0, 2)) == 0:
        kw["coerce_to_numpy"] = draw(st.booleans())
    return {"func": func, "arg": arg, "kw": kw}


def shape_of(arg):
    """(container, shape) of the argument as numpy sees it; None: not an array"""
    k = arg["kind"]
    if k in ("array", "object-array"):
        return "array", arg["shape"]
    if k == "frame":
        s = arg["shape"]
        return "frame", [s[0], s[1] if 0 not in s else 0]
    if k == "list":
        s = list(arg["shape"])
        if not s:
            return "list", [0]
        for i, n in enumerate(s):       # an empty level hides the ones below it
            if n == 0:
                return "list", s[:i + 1]
        return "list", s
    if k == "arrays":
        ss = arg["shapes"]
        if any(s != ss[0] for s in ss):
            return None, None
        return "list", [len(ss)] + ss[0]
    if k == "py" and arg["as"] == "array0":
        return "array", []
    return None, None


def arrays(case, ctx):
    nd = int(case["func"][-2])
    kw = case["kw"]
    cont, s = shape_of(case["arg"])
    ok = cont is not None and len(s) == nd and 0 not in s
    if cont == "frame" and nd != 2:
        ok = False
    if ok and nd == 3:
        ok = s[2] > kw.get("min_timestamps", 2) and (s[1] == 1 or not kw.get("is_univariate"))
    r = lane.call("checks", case)
    what = "%s(%s, **%s)" % (case["func"], case["arg"], kw)
    _judge(r, ok, what)
    ctx.label(case["func"], case["arg"]["kind"], "valid" if ok else "invalid")
    ctx.nt(cont is not None)


def _judge(r, ok, what):
    if not ok:
        if "error" not in r:
            raise Violation("%s is accepted" % what)
        if not r["value_error"]:
            raise Violation("%s raises %s instead of ValueError: %s"
                            % (what, r["error"], r["msg"]))
    else:
        if "error" in r:
            raise Violation("%s raises %s: %s" % (what, r["error"], r["msg"]))
        if not r["same"]:
            raise Violation("%s returns %s" % (what, str(r["value"])[:300]))
        if not r["unchanged"]:
            raise Violation("%s changes its argument" % what)


SCALARS = ["npfloat", "npint", "npbool", "uint", "float", "int", "bool", "none", "str",
           "complex", "dict", "set", "bytes", "odd", "type", "inf", "nan", "npinf", "array0",
           "list", "nplong", "complex128", "complex64", "datetime"]
NUM = {"npfloat", "npint", "uint", "float", "int", "inf", "nan", "npinf", "nplong"}


@st.composite
def scalar_case(draw):
    func = draw(st.sampled_from(["check_is_numeric", "check_is_boolean", "check_n_jobs",
                                 "check_n_jobs"]))
    c = {"func": func, "arg": {"kind": "py", "as": draw(st.sampled_from(SCALARS)),
                               "value": draw(st.integers(-20, 20))}}
    if func == "check_n_jobs":
        if draw(st.booleans()):
            c["arg"]["as"] = draw(st.sampled_from(["int", "nplong", "npint"]))
        c["cores"] = draw(st.integers(1, 12))
    return c


def scalars(case, ctx):
    a, v = case["arg"]["as"], case["arg"]["value"]
    f = case["func"]
    what = "%s(%s %s)" % (f, a, v)
    if f == "check_is_boolean" and a == "npbool":
        return
    if f == "check_n_jobs":
        n = abs(v) if a == "uint" else v
        ok = a in ("none", "int", "nplong", "npint", "uint")
        if ok and a != "none" and n == 0:
            return
        r = lane.call("checks", case)
        if not ok:
            _judge(r, False, what)
        else:
            k = r.get("cores", case["cores"])
            want = 1 if a == "none" else min(n, k) if n > 0 else max(1, k + 1 + n)
            got = r.get("value", {}).get("repr")
            if got is not None:
                got = got.split("(")[-1].rstrip(")")
            if got != str(want):
                raise Violation("%s with %d cores gives %s, expected %d"
                                % (what, k, got or r, want))
            ctx.nt(a != "none")
        ctx.label(f)
        return
    ok = a in NUM if f == "check_is_numeric" else a == "bool"
    r = lane.call("checks", case)
    _judge(r, ok, what)
    ctx.label(f, a)
    ctx.nt()


def facets():
    return [
        Facet("arrays", array_case, arrays, 3200, rule="arrays, nested and ragged lists, frames, "
              "series, tuples, other objects, with every option; non-trivial: array-like"),
        Facet("scalars", scalar_case, scalars, 1600, rule="numbers, booleans, numpy scalars, "
              "other objects; job counts on machines of 1 to 12 cores"),
    ]
