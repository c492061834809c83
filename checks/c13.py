"""C13: phase invariance - a circular shift changes only the position."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from .common import (Facet, Skip, Violation, crafted_shapelets, fit_case, large_case, large_data,
                     large_params, realise, some)

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def check_shift(x, x2, s, shp, f, f2, exact):
    """features f of x, f2 of x circularly shifted by s"""
    T = x.shape[1]
    name = "shift %d of %d points, length %d, dilation %d, norm %s, channels %s" % (
        s, T, shp["length"], shp["dilation"], shp["norm"], shp["channels"])
    d = oracle.dist_vector(x, shp, True)
    if len(d) != T:
        raise RuntimeError
    tol = oracle.tol_for(shp, exact, float(np.abs(x).max()))
    if not abs(f[0] - f2[0]) <= tol:
        raise Violation("%s: minimum %r becomes %r" % (name, float(f[0]), float(f2[0])))
    lo, hi = int((d <= shp["threshold"] - tol).sum()), int((d <= shp["threshold"] + tol).sum())
    if f[2] != f2[2] and (tol == 0 or not (lo <= f[2] <= hi and lo <= f2[2] <= hi)):
        raise Violation("%s: occurrence %d becomes %d" % (name, f[2], f2[2]))
    near = np.where(d <= d.min() + 2 * tol)[0]
    if tol == 0 or len(near) == 1:
        want = min((m + s) % T for m in near)
        if int(f2[1]) != want:
            raise Violation("%s: position %d becomes %d, expected %d"
                            % (name, f[1], f2[1], want))
    elif (int(f2[1]) - s) % T not in near:
        raise Violation("%s: position %d becomes %d, no match there" % (name, f[1], f2[1]))
    if shp["threshold"] >= 1e11 and f[2] != T:
        raise Violation("%s: %d candidate positions" % (name, f[2]))
    return len(near) == 1


def _roll(X, shifts):
    out = [np.roll(x, s, axis=-1) for x, s in zip(X, shifts)]
    return out if isinstance(X, list) else np.array(out)


@st.composite
def fitted_case(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    c = draw(fit_case(variable=var, multi=multi, max_n=4, max_t=20, max_shp=10, max_c=3,
                      exactish=draw(st.booleans()), phase=True)())
    c["kind"] = kind
    c["shifts"] = draw(st.lists(st.integers(0, 40), min_size=4, max_size=4))
    return c


def fitted(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    est = model.R_DST(**case["p"]).fit(X, y)
    _compare(est, model.unpack(est.shapelets_), X, case["shifts"],
             gen.is_exact(case["ds"]), ctx)
    ctx.label(case["kind"])


def _compare(est, shps, X, shifts, exact, ctx):
    X2 = _roll(X, shifts)
    F, F2 = np.asarray(est.transform(X)), np.asarray(est.transform(X2))
    uniq = False
    for i in range(len(X)):
        for j, shp in enumerate(shps):
            u = check_shift(X[i], X2[i], shifts[i], shp, F[i, 3 * j:3 * j + 3],
                            F2[i, 3 * j:3 * j + 3], exact)
            uniq = uniq or (u and shifts[i] % X[i].shape[1])
    ctx.nt(bool(uniq))


@st.composite
def crafted_case(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    ds = draw(gen.dataset(max_n=3, min_c=2 if multi else 1, max_c=3 if multi else 1, max_t=24,
                          kinds=gen.EXACT, mixed=False, variable=var))
    t = min(len(x[0]) for x in ds["X"])
    C = len(ds["X"][0])
    return {"kind": kind, "ds": ds, "shps": draw(crafted_shapelets(t, C, multi, phase=True)),
            "dil": draw(st.sampled_from([1, 1, 2, 2, 3, 3, 5, 9, 17])),
            "shifts": draw(st.lists(st.integers(0, 40), min_size=3, max_size=3))}


def crafted(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    # under phase invariance a span longer than the series is legal as well
    shps = [dict(s, dilation=s["dilation"] * case["dil"]) for s in case["shps"]]
    shps = realise(shps, list(X), True)
    est = model.crafted(case["kind"], True, shps, n_channels=len(X[0]))
    _compare(est, shps, X, case["shifts"], True, ctx)
    ctx.label(case["kind"])


@st.composite
def off_case(draw):
    c = draw(crafted_case())
    return c


def off(case, ctx):
    """phase invariance off: every window lies inside the series"""
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    t = min(x.shape[1] for x in X)
    shps = [s for s in case["shps"] if (s["length"] - 1) * s["dilation"] < t]
    if not shps:
        raise Skip("no shapelet fits")
    shps = realise(shps, list(X), False)
    big = [dict(s, threshold=1e12) for s in shps]
    F = np.asarray(model.crafted(case["kind"], False, big, n_channels=len(X[0])).transform(X))
    for i in range(len(X)):
        T = X[i].shape[1]
        for j, s in enumerate(shps):
            span = (s["length"] - 1) * s["dilation"]
            if F[i, 3 * j + 2] != T - span:
                raise Violation("%d candidate positions on %d points for a span of %d"
                                % (F[i, 3 * j + 2], T, span + 1))
            if not 0 <= F[i, 3 * j + 1] <= T - 1 - span:
                raise Violation("match at %d crosses the end of %d points (span %d)"
                                % (F[i, 3 * j + 1], T, span + 1))
    # a series is not its own circular shift: cut a shapelet across the end
    for i in range(len(X)):
        T = X[i].shape[1]
        s = shps[i % len(shps)]
        if s["norm"] or s["length"] < 2:
            continue
        vals = [oracle.windows(X[i][c], s["length"], s["dilation"], True)[T - 1]
                for c in s["channels"]]
        q = dict(s, values=vals)
        d = oracle.dist_vector(X[i], q, False)
        f = np.asarray(model.crafted(case["kind"], False, [q], n_channels=len(X[0])).transform(
            [X[i]] if var else X[i:i + 1]))[0]
        if abs(f[0] - d.min()) > 0:
            raise Violation("a window crossing the end is matched without phase invariance")
        ctx.nt(d.min() > 0)


@st.composite
def large_shift(draw):
    c = draw(large_case(max_n=6, max_t=90, max_shp=40, phase=True,
                        axes=[None, "t", "t", "C", "len", "shp"]))
    c["shift"] = draw(gen.seeds)
    return c


def large(case, ctx):
    X, y = large_data(case)
    est = model.R_DST(**large_params(case, X)).fit(X, y)
    T = some(X, case, 2)
    rng = np.random.RandomState(case["shift"])
    shifts = [int(rng.randint(0, 2 * x.shape[1])) for x in T]
    ctx.label(case["kind"], "axis %s" % case["axis"])
    _compare(est, model.unpack(est.shapelets_), T, shifts, True, ctx)


def facets():
    return [
        Facet("large", large_shift, large, 60, rule="larger data, or one dimension far larger "
              "(1300 points, 16 channels, lengths up to 120, 450 shapelets); non-trivial: as "
              "below"),
        Facet("fitted", fitted_case, fitted, 900, rule="fit with phase invariance, every series "
              "shifted by its own amount; non-trivial: a non-zero shift with a unique best "
              "match"),
        Facet("crafted", crafted_case, crafted, 900, rule="hand-made shapelets (spans longer "
              "than the series included) on data with exact arithmetic"),
        Facet("off", off_case, off, 500, rule="phase invariance off: number of candidates, "
              "match inside, content across the end is not matched; non-trivial: such content "
              "differs from every real window"),
    ]
