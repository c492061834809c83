"""C31: windows, subsequences and distances are mutually consistent."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, oracle, prelude     # noqa: F401
from .common import Facet, Skip, Violation


def helper(name):
    import convst.transformers._commons as m
    f = getattr(m, name, None)
    if f is None:
        raise Skip("no " + name)
    return f


@st.composite
def win_case(draw):
    t = draw(st.integers(2, 26))
    phase = draw(st.booleans())
    L = draw(st.integers(1, min(t, 9)))
    d = draw(st.integers(1, max(1, (t - 1) // max(1, L - 1))))
    if phase and draw(st.integers(0, 3)) == 0:
        # spans longer than the series wrap more than once
        L, d = draw(st.integers(2, 12)), draw(st.integers(1, 2 * t))
    c = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(gen.ALL + ("noise",)))
    return {"X": [draw(gen.series(t, kind, salt=i)) for i in range(c)], "kind": kind,
            "L": L, "d": d, "phase": phase, "norm": draw(st.booleans()),
            "i": draw(st.integers(0, 60)), "c": draw(st.integers(0, 9)),
            "values": draw(gen.series(L, draw(st.sampled_from(["dyadic", "ties", "noise"])))),
            "dtype": draw(st.sampled_from(["float64", "float64", "int64"])),
            "cut": draw(st.booleans())}


@st.composite
def large_case(draw):
    """long series, long windows, large dilations or many channels; data from a seed"""
    axis = draw(st.sampled_from(["t", "L", "d", "C"]))
    i = st.integers
    t, L, d, C = i(4, 12), i(2, 4), i(1, 3), i(1, 2)
    phase = draw(st.booleans())
    if axis == "t":
        t = i(100, 70000)
    elif axis == "L":
        t, L, d = i(100, 3000), i(30, 1200), i(1, 2)
    elif axis == "d":
        t, d = i(100, 3000), i(20, 3000)
    else:
        C = i(5, 150)
    t, L, d = draw(t), draw(L), draw(d)
    if not phase:
        L = min(L, t)
        d = max(1, min(d, (t - 1) // max(1, L - 1)))
    return {"t": t, "C": draw(C), "kind": "seeded", "L": L, "d": d, "phase": phase,
            "norm": draw(st.booleans()), "i": draw(i(0, 10 ** 6)), "c": draw(i(0, 999)),
            "seed": draw(gen.seeds), "dtype": draw(st.sampled_from(["float64", "int64"])),
            "cut": draw(st.booleans())}


def large(case, ctx):
    rng = np.random.RandomState(case["seed"])
    # multiples of 1/8: every sum of differences is exact
    X = rng.randint(-200, 201, size=(case["C"], case["t"])) / 8.0
    win(dict(case, X=X, values=rng.randint(-20, 21, size=case["L"]) / 8.0), ctx)


def win(case, ctx):
    X = np.array(case["X"], dtype=np.float64)
    if case["dtype"] == "int64":
        X = np.round(X * 8).astype(np.int64)
    L, d, phase, norm = case["L"], case["d"], case["phase"], case["norm"]
    keep = X.copy()
    x = X[case["c"] % len(X)]
    want = oracle.windows(x, L, d, phase)
    g1 = np.asarray(helper("generate_strides_1D")(x, L, d, phase))
    where = "length %d, dilation %d, phase %s, %d points" % (L, d, phase, len(x))
    if g1.shape != want.shape or not np.array_equal(g1, want):
        raise Violation("windows of %s (%s): %s, expected %s" % (
            x.tolist(), where, g1.tolist(), want.tolist()))
    g2 = np.asarray(helper("generate_strides_2D")(X, L, d, phase))
    if g2.shape != (len(X),) + want.shape:
        raise Violation("2D windows have shape %s (%s)" % (g2.shape, where))
    for ch in range(len(X)):
        if not np.array_equal(g2[ch], oracle.windows(X[ch], L, d, phase)):
            raise Violation("2D windows of channel %d differ from the 1D ones (%s)" % (ch, where))
    i = case["i"] % len(want)
    sub = np.asarray(helper("get_subsequence")(x, i, L, d, norm, phase))
    ws = oracle.znorm(want[i]) if norm else want[i]
    tol = oracle.TOL if norm else 0.0
    if sub.shape != (L,) or not np.abs(sub - ws).max() <= tol:
        raise Violation("subsequence at %d (%s, norm %s) is %s, expected %s" % (
            i, where, norm, sub.tolist(), ws.tolist()))
    values = sub if case["cut"] else np.array(case["values"], dtype=np.float64)
    vk = values.copy()
    dv = np.asarray(helper("compute_shapelet_dist_vector")(x, values, L, d, norm, phase))
    w = oracle.znorm(want) if norm else want
    ref = np.abs(w - vk[None, :]).sum(axis=1)
    scale = max(1.0, float(np.abs(x).max()), float(np.abs(vk).max()))
    tol = oracle.TOL * L if norm else (0.0 if case["kind"] not in ("real", "scaled") or
                                       case["dtype"] == "int64" else 1e-11 * L * scale)
    if dv.shape != ref.shape or not np.abs(dv - ref).max() <= tol:
        raise Violation("distances (%s, norm %s) of %s: %s, expected %s" % (
            where, norm, vk.tolist(), dv.tolist(), ref.tolist()))
    if case["cut"] and abs(dv[i]) > tol:
        raise Violation("the subsequence at %d (%s, norm %s) is at distance %r from its own "
                        "position" % (i, where, norm, float(dv[i])))
    if not np.array_equal(X, keep) or not np.array_equal(values, vk):
        raise Violation("the helpers changed their input")
    ctx.nt(L > 1 and len(want) > 1)
    ctx.label("norm" if norm else "raw", "phase" if phase else "no phase",
              "own subsequence" if case["cut"] else "other values")
    if phase and (L - 1) * d >= len(x):
        ctx.label("wraps more than once" if (L - 1) * d >= 2 * len(x) else "longer than series")


@st.composite
def dist_case(draw):
    n = draw(st.integers(1, 12))
    kind = draw(st.sampled_from(["ties", "dyadic", "noise", "real", "scaled"]))
    v = [draw(gen.series(n, kind, salt=i)) for i in range(3)]
    if draw(st.integers(0, 3)) == 0:
        v[1] = list(v[0])
        if draw(st.booleans()):
            q = draw(st.integers(0, n - 1))
            v[1][q] += 0.125
    return {"v": v, "exact": kind not in ("real", "scaled"),
            "dtype": draw(st.sampled_from(["float64", "int64", "float32"]))}


def dist(case, ctx):
    v = [np.array(a, dtype=np.float64) for a in case["v"]]
    if case["dtype"] == "int64":
        v = [np.round(a * 8) for a in v]
    elif case["dtype"] == "float32":
        v = [np.round(np.clip(a, -500, 500) * 8) / 8 for a in v]
    a = [q.astype(case["dtype"]) for q in v]
    exact = case["exact"] or case["dtype"] != "float64"
    for name, f in (("euclidean", lambda x, y: np.sqrt(((x - y) ** 2).sum())),
                    ("squared_euclidean", lambda x, y: ((x - y) ** 2).sum()),
                    ("manhattan", lambda x, y: np.abs(x - y).sum())):
        g = helper(name)
        D = np.array([[float(g(x, y)) for y in a] for x in a])
        E = np.array([[float(f(x, y)) for y in v] for x in v])
        tol = (1e-6 if case["dtype"] == "float32" else 1e-12) * max(1.0, E.max())
        if exact and name != "euclidean" and case["dtype"] != "float32":
            tol = 0.0
        if not np.abs(D - E).max() <= tol:
            raise Violation("%s distances of %s: %s, expected %s" % (
                name, [q.tolist() for q in v], D.tolist(), E.tolist()))
        if not np.array_equal(D, D.T) or np.any(np.diag(D) != 0):
            raise Violation("%s is not symmetric or not zero on equal vectors" % name)
        for i in range(3):
            for j in range(3):
                if (D[i, j] == 0) != bool(np.array_equal(a[i], a[j])) and not (
                        np.abs(v[i] - v[j]).max() < 1e-100):
                    raise Violation("%s is %r for vectors that are %s" % (
                        name, D[i, j], "equal" if D[i, j] else "different"))
        if name != "squared_euclidean" and D[0, 2] > D[0, 1] + D[1, 2] + tol + 1e-9:
            raise Violation("%s breaks the triangle inequality" % name)
    ctx.nt(len(v[0]) > 1 and not np.array_equal(v[0], v[2]))
    ctx.label(case["dtype"])


def facets():
    return [
        Facet("windows", win_case, win, 3000, rule="length above 1, several windows"),
        Facet("large", large_case, large, 100, rule="series of up to 70000 points, lengths up "
              "to 1200, dilations up to 3000, 150 channels"),
        Facet("distances", dist_case, dist, 1500, rule="vectors of length above 1 that differ"),
    ]
