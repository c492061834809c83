"""C14: normalised shapelets are scale/offset invariant, raw ones equivariant."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from .common import (Facet, Violation, close_features, crafted_shapelets, fit_case, large_case,
                     large_data, large_params, realise, some)

# how far whole series are rescaled: the guard added to a standard deviation of
# 2^-14 * 2^-7 is still below a percent of it
SCALES = st.sampled_from([0, 0, 0, -4, -8, -10, -12, 10, 30, 60])
KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


@st.composite
def base(draw, **k):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    ds = draw(gen.dataset(max_n=4, min_c=2 if multi else 1, max_c=3 if multi else 1, max_t=20,
                          kinds=("noise", "noise", "dyadic", "noise", "ties", "runs", "spike", "periodic"),
                          mixed=False, variable=var))
    return {"kind": kind, "ds": ds}


def affine(X, case):
    """per series and channel, exact in floating point: (x * 2^e + b/4) * 2^s"""
    rng = np.random.RandomState(case["seed"])
    out = []
    k = 2.0 ** case.get("scale", 0)
    for x in X:
        e = rng.randint(case["emin"], 7, size=(x.shape[0], 1))
        b = rng.randint(-400, 400, size=(x.shape[0], 1)) / 4.0
        out.append((x * 2.0 ** e + (b if case["off"] else 0.0)) * k)
    return out if isinstance(X, list) else np.array(out)


@st.composite
def norm_case(draw):
    c = draw(base())
    t = min(len(x[0]) for x in c["ds"]["X"])
    multi = c["kind"].startswith("multi")
    ph = draw(st.booleans())
    c.update(phase=ph, seed=draw(gen.seeds), emin=draw(st.sampled_from([-2, 0])),
             scale=draw(SCALES),
             off=draw(st.booleans()),
             shps=draw(crafted_shapelets(t, len(c["ds"]["X"][0]), multi, norms=(True,),
                                         phase=ph)))
    return c


def _tol(shp, phase, *datasets):
    """per sampled value: what the 1e-8 guard leaves of the smallest deviation of
    any non-constant window of that length and dilation"""
    small = 1.0
    for D in datasets:
        for x in D:
            for c in shp["channels"]:
                sd = oracle.windows(x[c], shp["length"], shp["dilation"], phase).std(axis=-1)
                sd = sd[sd > 0]
                if len(sd):
                    small = min(small, float(sd.min()))
    return 1e-6 + 2 * np.sqrt(shp["length"]) * oracle.GUARD / small


def norm(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    ph = case["phase"]
    shps = realise(case["shps"], list(X), ph)
    est = model.crafted(case["kind"], ph, shps, n_channels=len(X[0]))
    X2 = affine(X, case)
    F, F2 = np.asarray(est.transform(X)), np.asarray(est.transform(X2))
    for i in range(len(X)):
        for j, s in enumerate(shps):
            close_features(F[i, 3 * j:3 * j + 3], F2[i, 3 * j:3 * j + 3], X[i], s, ph, False,
                           "series rescaled, normalised shapelet", tol=_tol(s, ph, X, X2) * s["length"] * len(s["channels"]))
    ctx.label(case["kind"], "phase" if ph else "no-phase")
    ctx.nt(case["ds"]["kind"] in ("noise", "dyadic") and len(shps) > 1)


@st.composite
def fit_norm_case(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    c = draw(fit_case(variable=var, multi=multi, max_n=5, max_t=18, max_c=3, kinds=("noise",),
                      exactish=True, probas=[1.0])())
    c.update(kind=kind, seed=draw(gen.seeds), emin=0, scale=draw(SCALES), off=draw(st.booleans()))
    # windows of two points are +-1 up to the guard; longer ones are generic
    return c


def fit_norm(case, ctx):
    """fitting on rescaled data gives the same normalised shapelets"""
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    X2 = affine(X, case)
    ph = case["p"]["phase_invariance"]
    a = model.unpack(model.R_DST(**case["p"]).fit(X, y).shapelets_)
    b = model.unpack(model.R_DST(**case["p"]).fit(X2, y).shapelets_)
    if len(a) != len(b):
        raise Violation("%d normalised shapelets, %d after rescaling the training series"
                        % (len(a), len(b)))
    for j, (s, t) in enumerate(zip(a, b)):
        if (s["length"], s["dilation"], s["channels"]) != (t["length"], t["dilation"],
                                                           t["channels"]):
            raise Violation("shapelet %d has other parameters after rescaling" % j)
        tol = _tol(s, ph, X, X2)
        if max(np.abs(u - v).max() for u, v in zip(s["values"], t["values"])) > tol:
            raise Violation("normalised shapelet %d (length %d, dilation %d, channels %s) "
                            "changes with the scale of the training series"
                            % (j, s["length"], s["dilation"], s["channels"]))
        if abs(s["threshold"] - t["threshold"]) > 2 * tol * s["length"] * len(s["channels"]):
            raise Violation("threshold of normalised shapelet %d changes with the scale: %r, %r"
                            % (j, s["threshold"], t["threshold"]))
    ctx.label(case["kind"])
    ctx.nt(any(s["length"] > 2 for s in a))


@st.composite
def raw_case(draw):
    c = draw(base())
    t = min(len(x[0]) for x in c["ds"]["X"])
    multi = c["kind"].startswith("multi")
    ph = draw(st.booleans())
    c.update(phase=ph, e=draw(st.one_of(st.integers(-4, 8), st.integers(-60, 60))), c=draw(st.integers(-2000, 2000)),
             shps=draw(crafted_shapelets(t, len(c["ds"]["X"][0]), multi, norms=(False,),
                                         phase=ph)))
    return c


def raw(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    ph = case["phase"]
    shps = realise(case["shps"], list(X), ph)
    F = np.asarray(model.crafted(case["kind"], ph, shps, n_channels=len(X[0])).transform(X))
    c, k = case["c"] / 16.0, 2.0 ** case["e"]
    off = [dict(s, values=[v + c for v in s["values"]]) for s in shps]
    Fo = np.asarray(model.crafted(case["kind"], ph, off, n_channels=len(X[0])).transform(
        [x + c for x in X] if var else X + c))
    if not np.array_equal(F, Fo):
        i, j = np.argwhere(F != Fo)[0]
        raise Violation("offset %r on series and raw shapelet changes feature %d of shapelet %d "
                        "on series %d: %r, %r" % (c, j % 3, j // 3, i, F[i, j], Fo[i, j]))
    sc = [dict(s, values=[v * k for v in s["values"]], threshold=s["threshold"] * k)
          for s in shps]
    Fs = np.asarray(model.crafted(case["kind"], ph, sc, n_channels=len(X[0])).transform(
        [x * k for x in X] if var else X * k))
    want = F.copy()
    want[:, 0::3] *= k
    if not np.array_equal(want, Fs):
        i, j = np.argwhere(want != Fs)[0]
        raise Violation("scaling series, raw shapelet and threshold by %r: feature %d of "
                        "shapelet %d on series %d is %r, expected %r"
                        % (k, j % 3, j // 3, i, Fs[i, j], want[i, j]))
    ctx.label(case["kind"], "phase" if ph else "no-phase")
    ctx.nt(len(shps) > 1 and case["c"] != 0 and case["e"] != 0)


@st.composite
def fit_raw_case(draw):
    c = draw(fit_norm_case())
    c["p"]["proba_norm"] = 0.0
    c.update(e=draw(st.one_of(st.integers(-3, 6), st.integers(-60, 60))), c=draw(st.integers(-900, 900)))
    return c


def fit_raw(case, ctx):
    """fitting on shifted/scaled data shifts/scales the raw shapelets"""
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    c, k = case["c"] / 16.0, 2.0 ** case["e"]
    # odd multiples of 1/128: no value is ever zero
    X = [x + 1 / 128.0 for x in X]
    f = (lambda g: [g(x) for x in X] if var else np.array([g(x) for x in X]))
    a = model.unpack(model.R_DST(**case["p"]).fit(f(lambda x: x), y).shapelets_)
    b = model.unpack(model.R_DST(**case["p"]).fit(f(lambda x: x + c), y).shapelets_)
    s_ = model.unpack(model.R_DST(**case["p"]).fit(f(lambda x: x * k), y).shapelets_)
    if not len(a) == len(b) == len(s_):
        raise Violation("%d raw shapelets, %d after an offset, %d after scaling"
                        % (len(a), len(b), len(s_)))
    for j, (s, t, u) in enumerate(zip(a, b, s_)):
        for v, w, z in zip(s["values"], t["values"], u["values"]):
            if not np.array_equal(v + c, w):
                raise Violation("raw shapelet %d does not follow an offset of the data" % j)
            if not np.array_equal(v * k, z):
                raise Violation("raw shapelet %d does not follow a scaling of the data" % j)
        m = 1e-9 * (1 + abs(s["threshold"]))
        if abs(s["threshold"] - t["threshold"]) > m or \
                abs(s["threshold"] * k - u["threshold"]) > m * k:
            raise Violation("threshold %r of raw shapelet %d becomes %r under an offset, %r "
                            "under scaling by %r" % (s["threshold"], j, t["threshold"],
                                                     u["threshold"], k))
    ctx.label(case["kind"])
    ctx.nt(len(a) > 1)


@st.composite
def large_scale(draw):
    c = draw(large_case(max_n=8, max_t=80, max_shp=60))
    raw = draw(st.booleans())
    c["p"]["proba_norm"] = 0.0 if raw else 1.0
    c.update(e=draw(st.integers(-30, 30)) if raw else draw(st.integers(0, 8)),
             seed=draw(gen.seeds))
    return c


def large(case, ctx):
    """scaling the whole data set by a power of two (and, with normalisation, giving every
    series its own offset): the shapelets follow, so do the features"""
    X, y = large_data(case)
    p = large_params(case, X)
    raw, k = p["proba_norm"] == 0.0, 2.0 ** case["e"]
    rng = np.random.RandomState(case["seed"])
    X2 = [(x + (0.0 if raw else rng.randint(-50, 50) / 4.0)) * k for x in X]
    X2 = X2 if isinstance(X, list) else np.array(X2)
    ea, eb = model.R_DST(**p).fit(X, y), model.R_DST(**p).fit(X2, y)
    a, b = model.unpack(ea.shapelets_), model.unpack(eb.shapelets_)
    if len(a) != len(b):
        raise Violation("%d shapelets, %d after rescaling" % (len(a), len(b)))
    ph = p["phase_invariance"]
    T, T2 = some(X, case, 2), some(X2, case, 2)
    F, G = np.asarray(ea.transform(T)), np.asarray(eb.transform(T2))
    for j, (s, t) in enumerate(zip(a, b)):
        if (s["length"], s["dilation"], s["channels"]) != (t["length"], t["dilation"],
                                                           t["channels"]):
            raise Violation("shapelet %d has other parameters after rescaling" % j)
        f = k if raw else 1.0
        tol = 0.0 if raw else _tol(s, ph, X, X2)
        for u, v in zip(s["values"], t["values"]):
            if np.abs(np.asarray(u) * f - v).max() > tol:
                raise Violation("shapelet %d (length %d, dilation %d, norm %s, channels %s) does "
                                "not follow the rescaling" % (j, s["length"], s["dilation"],
                                                              s["norm"], s["channels"]))
        tol *= 2 * s["length"] * len(s["channels"])
        if abs(s["threshold"] * f - t["threshold"]) > tol + 1e-9 * f * (1 + s["threshold"]):
            raise Violation("threshold %r of shapelet %d becomes %r" % (
                s["threshold"], j, t["threshold"]))
        for i in range(len(T)):
            g = G[i, 3 * j:3 * j + 3] / np.array([f, 1, 1])
            close_features(F[i, 3 * j:3 * j + 3], g, T[i], s, ph, False, "data rescaled by 2^%d"
                           % case["e"], tol=tol + 1e-9 * (1 + s["threshold"]))
    ctx.label(case["kind"], "axis %s" % case["axis"], "raw" if raw else "normalised")
    ctx.nt(len(a) > 1)


def facets():
    return [
        Facet("large", large_scale, large, 60, rule="fit and transform on rescaled data of larger "
              "sizes; non-trivial: several shapelets"),
        Facet("normalised", norm_case, norm, 900, rule="per series and channel affine maps "
              "exact in floating point; non-trivial: several shapelets, generic data"),
        Facet("raw", raw_case, raw, 700, rule="offset and power-of-two scaling of series, "
              "shapelet, threshold, bit-exact; non-trivial: both maps non-trivial"),
        Facet("fit normalised", fit_norm_case, fit_norm, 500, rule="fit on rescaled training "
              "series; non-trivial: a shapelet of length above 2"),
        Facet("fit raw", fit_raw_case, fit_raw, 400, rule="fit on shifted and scaled data"),
    ]
