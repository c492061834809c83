"""C15: the result does not depend on how the same data is represented."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model
from .common import (Facet, Violation, close_features, crafted_shapelets, fit_case, large_case,
                     large_data, large_params, realise, some)

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
DTYPES = ["float64", "float32", "float16", ">f8", ">f4", "int64", "int32", "int16", "int8",
          ">i4", "uint8", "uint16", "longdouble"]
LAYOUTS = ["C", "F", "strided", "reversed", "moved", "readonly", "offset"]
YDTYPES = ["int64", "int32", "int8", "uint8", ">i8"]


def quantise(X, dtype):
    """float64 values every one of which `dtype` holds exactly"""
    q = []
    for x in X:
        x = np.asarray(x, dtype=np.float64)
        k = np.round(x * 64)
        if dtype == "int8":
            x = (k % 201) - 100
        elif dtype == "uint8":
            x = k % 251
        elif dtype == "uint16":
            x = np.abs(k)
        elif np.dtype(dtype).kind == "i":
            x = k
        else:
            x = np.clip(k, -2000, 2000) / 64.0
            if np.dtype(dtype).itemsize >= 8:
                # values that need more than single precision
                x = x + (np.arange(x.size).reshape(x.shape) * 7 + 3) % 61 * 2.0 ** -36
        q.append(x)
    return q


def lay(a, layout):
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.full(tuple(2 * s for s in a.shape), 7, dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if layout == "reversed":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if layout == "moved":
        return np.ascontiguousarray(np.moveaxis(a, -1, 0)).transpose(
            tuple(range(1, a.ndim)) + (0,))
    if layout == "offset":
        b = np.full(a.size + 3, 9, dtype=a.dtype)
        v = b[3:].reshape(a.shape)
        v[...] = a
        return v
    a = np.array(a)
    if layout == "readonly":
        a.setflags(write=False)
    return a


def represent(X, var, dtype, layout, container, mixed):
    if not var:
        return lay(np.array(X).astype(dtype), layout)
    out = []
    for i, x in enumerate(X):
        if mixed and i % 2:
            out.append(lay(x.astype(np.float64), "C"))
        else:
            out.append(lay(x.astype(dtype), layout))
    if container == "object":
        o = np.empty(len(out), dtype=object)
        for i, x in enumerate(out):
            o[i] = x
        return o
    if container == "object3d" and len({x.shape for x in out}) == 1:
        return np.array([x.astype(object) for x in out], dtype=object)
    return out


@st.composite
def rep_case(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    c = draw(fit_case(variable=var, multi=multi, max_n=5, max_t=16, max_c=3, max_shp=8,
                      kinds=("noise", "noise", "ties", "dyadic", "runs", "distinct"),
                      exactish=True)())
    c.update(kind=kind, dtype=draw(st.sampled_from(DTYPES)),
             layout=draw(st.sampled_from(LAYOUTS)),
             container=draw(st.sampled_from(["list", "object", "object", "object3d"])),
             mixed=draw(st.integers(0, 3)) == 0, ydtype=draw(st.sampled_from(YDTYPES)),
             explicit=draw(st.sampled_from(["auto", "auto", "explicit", "upper"])),
             same=var and draw(st.integers(0, 3)) == 0)
    return c


def rep(case, ctx):
    kind = case["kind"]
    var = kind.endswith("variable")
    X = quantise(case["ds"]["X"], case["dtype"])
    if case["mixed"] and var:   # those kept in double precision need not fit the dtype
        for i in range(1, len(X), 2):
            X[i] = quantise([case["ds"]["X"][i]], "float64")[0]
    if case["same"]:                        # a collection of same-length series
        t = min(x.shape[1] for x in X)
        X = [x[:, :t] for x in X]
    y = np.asarray(case["ds"]["y"])
    base = [x for x in X] if var else np.array(X)
    p = case["p"]
    a = model.R_DST(**p).fit(base, y)
    name = {"auto": "auto", "explicit": kind, "upper": kind.upper()}[case["explicit"]]
    V = represent(X, var, case["dtype"], case["layout"], case["container"], case["mixed"])
    b = model.R_DST(transform_type=name, **p).fit(V, y.astype(case["ydtype"]))
    what = "%s data as %s, %s layout%s, labels %s, transform_type=%s" % (
        kind, case["dtype"], case["layout"],
        ", %s" % case["container"] if var else "", case["ydtype"], name)
    if len(a.shapelets_) != (7 if kind.startswith("multi") else 5):
        raise Violation("auto chose another kind than %s" % kind)
    if not model.same_shapelets(a.shapelets_, b.shapelets_):
        raise Violation("%s: other shapelets than for float64" % what)
    F = np.asarray(a.transform(base))
    for est, D, w in ((b, V, "fit and transform"), (a, V, "transform"), (b, base, "fit")):
        G = np.asarray(est.transform(D))
        if not model.equal(F, G):
            raise Violation("%s (%s): other features than for float64" % (what, w))
    ctx.label(kind, case["dtype"], case["layout"], case["container"] if var else "array",
              case["explicit"])
    ctx.nt((case["dtype"] != "float64" or case["layout"] != "C") and
           case["ds"]["kind"] not in ("const",))


@st.composite
def craft_case(draw):
    rel = draw(st.sampled_from(["uni-var", "multi-var", "one-channel", "one-channel-var"]))
    C = draw(st.integers(2, 3)) if rel == "multi-var" else 1
    ds = draw(gen.dataset(max_n=4, min_c=C, max_c=C, max_t=20,
                          kinds=("ties", "dyadic", "runs", "spike", "noise", "periodic"),
                          mixed=False, variable=rel == "one-channel-var"))
    t = min(len(x[0]) for x in ds["X"])
    ph = draw(st.booleans())
    return {"rel": rel, "ds": ds, "phase": ph, "norm_out": draw(st.booleans()),
            "shps": draw(crafted_shapelets(t, C, C > 1, phase=ph)),
            "ka": draw(st.booleans())}


def craft(case, ctx):
    rel, ph = case["rel"], case["phase"]
    X = gen.to_list(case["ds"]["X"])
    shps = realise(case["shps"], X, ph)
    A = X if rel == "one-channel-var" else np.array(X)
    ka, kb, B = {"uni-var": ("univariate", "univariate_variable", X),
                 "multi-var": ("multivariate", "multivariate_variable", X),
                 "one-channel": ("univariate", "multivariate", A),
                 "one-channel-var": ("univariate_variable", "multivariate_variable", A)}[rel]
    C = X[0].shape[0]
    no = case["norm_out"]
    Fa = np.asarray(model.crafted(ka, ph, shps, n_channels=C, normalize_output=no).transform(A))
    Fb = np.asarray(model.crafted(kb, ph, shps, n_channels=C, normalize_output=no).transform(B))
    if Fa.shape != Fb.shape:
        raise Violation("%s and %s give %s and %s" % (ka, kb, Fa.shape, Fb.shape))
    for i, x in enumerate(X):
        for j, s in enumerate(shps):
            fa, fb = Fa[i, 3 * j:3 * j + 3], Fb[i, 3 * j:3 * j + 3]
            if no:
                k = np.array([1.0, x.shape[1], x.shape[1]])
                fa, fb = (np.where(k > 1, np.round(f * k), f) for f in (fa, fb))
            close_features(fa, fb, x, s, ph, case["ds"]["kind"] != "noise",
                           "%s and %s on the same data" % (ka, kb))
    ctx.label(rel, "phase" if ph else "no-phase")
    ctx.nt(len(X) > 1 and len(shps) > 1)


@st.composite
def large_rep(draw):
    c = draw(large_case(max_n=10, max_t=80, max_shp=60))
    c.update(dtype=draw(st.sampled_from(["float64", "float32", ">f8", ">f4", "longdouble"])),
             layout=draw(st.sampled_from(LAYOUTS)),
             container=draw(st.sampled_from(["list", "object"])), mixed=draw(st.booleans()))
    return c


def large(case, ctx):
    """another representation; the other length treatment (same-length data)"""
    kind = case["kind"]
    var = kind.endswith("variable")
    X, y = large_data(case)
    p = large_params(case, X)
    V = represent(X, var, case["dtype"], case["layout"], case["container"], case["mixed"])
    a, b = model.R_DST(**p).fit(X, y), model.R_DST(**p).fit(V, y)
    what = "%s data as %s, %s layout" % (kind, case["dtype"], case["layout"])
    if not model.same_shapelets(a.shapelets_, b.shapelets_):
        raise Violation("%s: other shapelets than for float64" % what)
    F = np.asarray(a.transform(X))
    if not model.equal(F, np.asarray(b.transform(V))):
        raise Violation("%s: other features than for float64" % what)
    shps = model.unpack(a.shapelets_)
    if shps:
        other = kind[:-9] if var else kind + "_variable"
        T = some(X, case, 2)
        ph, C = p["phase_invariance"], X[0].shape[0]
        F = np.asarray(a.transform(T))
        est = model.crafted(other, ph, shps, n_channels=C)
        for i, x in enumerate(T):
            G = np.asarray(est.transform(x[None].copy() if var else [x.copy()]))[0]
            for j, s in enumerate(shps):
                close_features(F[i, 3 * j:3 * j + 3], G[3 * j:3 * j + 3], x, s, ph, True,
                               "%s and %s on the same data" % (kind, other))
    ctx.label(kind, "axis %s" % case["axis"], case["dtype"])
    ctx.nt(len(shps) > 1)


def facets():
    return [
        Facet("large", large_rep, large, 60, rule="larger data in another representation and "
              "through the other length treatment; non-trivial: several shapelets"),
        Facet("representation", rep_case, rep, 900, rule="fit and transform on another dtype, "
              "layout, container, label dtype or explicit kind; non-trivial: dtype or layout "
              "differs from the reference"),
        Facet("same path", craft_case, craft, 900, rule="hand-made shapelets, same data through "
              "two kinds; non-trivial: several series and shapelets"),
    ]
