"""Pieces shared by several checks."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from vf.core import Facet, Skip, Violation    # noqa: F401


@st.composite
def spelt_out(draw, t):
    """now and then, parameters given at values that change nothing"""
    if draw(st.integers(0, 4)) < 4:
        return {}
    return draw(st.fixed_dictionaries({}, optional={
        "n_samples": st.sampled_from([None, 1.0, 1]),
        "n_jobs": st.sampled_from([None, 1, 2, -1, False]),
        "min_len": st.sampled_from([None, t]),
        "normalize_output": st.just(False)}))


def fit_case(variable=False, multi=False, max_n=6, max_t=24, kinds=gen.ALL, exactish=False,
             max_shp=16, n_classes=3, max_c=4, wide=False, **pk):
    """dataset + parameters of a fit"""
    @st.composite
    def s(draw):
        ds = draw(gen.dataset(min_n=1, max_n=max_n, min_c=2 if multi else 1,
                              max_c=max_c if multi else 1, min_t=3, max_t=max_t,
                              kinds=kinds, variable=variable, mixed=not exactish,
                              n_classes=n_classes, wide=wide))
        t = min(len(x[0]) for x in ds["X"])
        p = draw(gen.rdst_params(t, max_shp=max_shp, max_c=len(ds["X"][0]) if multi else 1,
                                 **pk))
        # lengths that exceed the data are clipped by fit; keep them rare
        p["shapelet_lengths"] = sorted({min(l, t) for l in p["shapelet_lengths"]})
        p.update(draw(spelt_out(t)))
        return {"ds": ds, "p": p}
    return s


KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


AXES = [None, None, None, "n", "t", "shp", "C", "classes", "len", "far"]


@st.composite
def large_case(draw, kinds=KINDS, max_n=20, max_t=130, max_shp=150, max_len=25, axes=AXES,
               phase=None):
    """bigger fits: all dimensions at once, or one far beyond the others. The data comes
    from a seed (every value a distinct multiple of 2^-16), so that the case stays small"""
    kind = draw(st.sampled_from(kinds))
    axis = draw(st.sampled_from(axes))
    multi = kind.startswith("multi")
    if axis == "C" and not multi:
        axis = "t"
    i = st.integers
    n, t, C, classes, shp = i(2, max_n), i(30, max_t), i(2, 6), i(1, 7), i(20, max_shp)
    lens = st.sets(i(2, max_len), min_size=1, max_size=4)
    if axis == "n":
        n, t, C, shp = i(24, 90), i(8, 16), i(2, 3), i(2, 25)
    elif axis == "t":
        n, t, C, shp = i(2, 3), i(200, 1300), i(2, 3), i(1, 6)
    elif axis == "shp":
        n, t, C, shp = i(2, 6), i(20, 60), i(2, 3), i(200, 450)
    elif axis == "C":
        n, t, C, shp = i(2, 4), i(8, 24), i(7, 16), i(2, 25)
    elif axis == "classes":
        n, t, C, classes, shp = i(20, 60), i(8, 16), i(2, 3), i(8, 40), i(2, 25)
    elif axis == "len":
        n, t, C, shp = i(2, 5), i(40, 200), i(2, 3), i(1, 10)
        lens = st.sets(i(16, 120), min_size=1, max_size=3)
    elif axis == "far":
        w = draw(i(0, 2))
        n, t, C, shp = i(2, 3), i(8, 12), i(2, 2), i(1, 3)
        if w == 0:
            n, t = i(120, 400), i(6, 8)
        elif w == 1:
            t = i(1500, 6000)
        else:
            shp = i(500, 1500)
    n, t, C = draw(n), draw(t), draw(C)
    p = draw(gen.rdst_params(t, max_shp=4, max_c=C - 1 if multi else 1, phase=phase))
    p["n_shapelets"] = draw(shp)
    p["shapelet_lengths"] = sorted({min(l, t) for l in draw(lens)})
    return {"kind": kind, "n": n, "t": t, "C": C, "p": p, "axis": axis,
            "classes": draw(classes), "data": draw(gen.seeds)}


def large_data(case):
    """-> X (array or list), y"""
    rng = np.random.RandomState(case["data"])
    n, t = case["n"], case["t"]
    C = case["C"] if case["kind"].startswith("multi") else 1
    v = (np.arange(n * C * t) + 1) / 2.0 ** 16
    X = rng.randint(-60, 61, size=(n, C, t)) / 4.0 + rng.permutation(v).reshape(n, C, t)
    y = rng.randint(0, case["classes"], size=n)
    if case["kind"].endswith("variable"):
        X = [x[:, :t - (rng.randint(0, t // 3) if i else 0)] for i, x in enumerate(X)]
    return X, y


@st.composite
def huge_case(draw, kinds=KINDS):
    """transforms with one dimension enormous (past 2^8, 2^15 or 2^16); everything from a seed"""
    kind = draw(st.sampled_from(kinds))
    multi = kind.startswith("multi")
    axis = draw(st.sampled_from(["n", "t", "t", "shp", "L", "C"] if multi else
                                ["n", "t", "t", "shp", "L"]))
    i = st.integers
    n, t, C, k, L = i(1, 2), i(5, 9), i(2, 3), i(1, 2), i(2, 4)
    if axis == "n":
        n, t = st.one_of(i(200, 1200), st.sampled_from([255, 256, 257, 512, 513, 1000, 1024, 1025])), i(4, 6)
    elif axis == "t":
        n, t = st.just(1), st.one_of(i(2000, 70000), st.sampled_from([4096, 4097, 32767, 32768, 32770, 65536, 65540]))
    elif axis == "shp":
        k = st.one_of(i(600, 12000), st.just(10923))
    elif axis == "C":
        C = i(17, 300)
    else:
        L, t = i(120, 3000), i(1, 40)
    out = {"kind": kind, "axis": axis, "n": draw(n), "t": draw(t), "C": draw(C) if multi else 1,
           "k": draw(k), "L": draw(L), "phase": draw(st.booleans()), "seed": draw(gen.seeds),
           "norm_out": draw(st.booleans())}
    if axis == "L":
        out["t"] += out["L"]
    return out


def huge_data(case):
    """-> series, concrete shapelets; every best match planted where an index is largest"""
    rng = np.random.RandomState(case["seed"])
    n, t, C, k, ph = case["n"], case["t"], case["C"], case["k"], case["phase"]
    var = case["kind"].endswith("variable")
    X = rng.randint(-400, 401, size=(n, C, t)) / 16.0
    X = [x[:, :t - (rng.randint(0, max(1, t // 8)) if i else 0)] for i, x in enumerate(X)] \
        if var else X
    tmin = min(x.shape[1] for x in X)
    pool = [(min(case["L"] - j, tmin) if case["L"] > 8 else int(rng.randint(2, case["L"] + 1)),
             int(rng.randint(0, 1000))) for j in range(3)]
    pool = [(max(2, L), 1 + d % max(1, (tmin - 1) // (max(2, L) - 1))) for L, d in pool]
    shps = []
    for j in range(k):
        L, d = pool[j % len(pool)]
        ch = np.sort(rng.permutation(C)[:1 + rng.randint(C)])[::-1].tolist() if C > 1 else [0]
        x = X[len(X) - 1 - j % len(X)]
        w = x.shape[1] if ph else x.shape[1] - (L - 1) * d
        at = [w - 1, rng.randint(w), max(0, w - 1 - rng.randint(0, 40))][j % 3]
        norm = bool(rng.randint(2))
        vals = [oracle.windows(x[c], L, d, ph)[at] for c in ch] if case["axis"] in ("t", "n", "C") \
            else [x[c][(at + np.arange(L) * d) % x.shape[1]] for c in ch]
        vals = [oracle.znorm(v) if norm else v for v in vals]
        thr = [0.001, L * len(ch) * 0.7, 1e12][rng.randint(3)]
        shps.append({"length": L, "dilation": d, "norm": norm, "channels": [int(c) for c in ch],
                     "values": vals, "threshold": thr})
    return X, shps


def huge(case, ctx):
    """the transform of hand-made shapelets against the definition"""
    X, shps = huge_data(case)
    est = model.crafted(case["kind"], case["phase"], shps, n_channels=case["C"])
    F = np.asarray(est.transform(X))
    if F.shape != (len(X), 3 * len(shps)):
        raise Violation("output shape %s, expected %s" % (F.shape, (len(X), 3 * len(shps))))
    rng = np.random.RandomState(case["seed"])
    for i, x in enumerate(X):
        js = range(len(shps)) if len(shps) < 40 else sorted(set(
            [0, len(shps) - 1] + rng.randint(len(shps), size=400).tolist()))
        for j in js:
            m = oracle.check_features(x, shps[j], case["phase"], F[i, 3 * j:3 * j + 3], True)
            if m:
                raise Violation("%s, series %d of %d (%d channels, %d points), shapelet %d of %d "
                                "(length %d, dilation %d, norm %s): %s" % (
                                    case["kind"], i, len(X), case["C"], x.shape[1], j, len(shps),
                                    shps[j]["length"], shps[j]["dilation"], shps[j]["norm"], m))
    ctx.label(case["kind"], "axis %s" % case["axis"])
    ctx.nt()


HUGE_RULE = ("up to 1200 series, 70000 points, 12000 shapelets, lengths of 3000 or 300 channels, "
             "the best match planted at the far end; features against the definition")


def large_params(case, X):
    """the parameters, lengths limited to the shortest series"""
    t = min(x.shape[1] for x in X)
    return dict(case["p"], shapelet_lengths=sorted({min(l, t) for l in
                                                    case["p"]["shapelet_lengths"]}))


def some(X, case, k):
    """the series to look at: all, when it is their number that is large"""
    if case["axis"] in ("n", "classes"):
        return X
    i = np.sort(np.random.RandomState(case["data"]).permutation(len(X))[:k])
    return [X[j] for j in i] if isinstance(X, list) else X[i]


def fit(case, variable=False, transform_type="auto"):
    X, y = model.data(case["ds"], variable)
    est = model.R_DST(transform_type=transform_type, **case["p"])
    est.fit(X, y)
    return est, X, y


def check_matrix(F, Xl, shps, phase, exact, where=""):
    n, k = len(Xl), len(shps)
    F = np.asarray(F)
    if F.shape != (n, 3 * k):
        raise Violation("output shape %s, expected %s" % (F.shape, (n, 3 * k)))
    for i in range(n):
        for j, shp in enumerate(shps):
            m = oracle.check_features(Xl[i], shp, phase, F[i, 3 * j:3 * j + 3], exact)
            if m:
                raise Violation("%sseries %d, shapelet %d (length %d, dilation %d, norm %s, "
                                "channels %s, phase %s): %s" % (
                                    where, i, j, shp["length"], shp["dilation"], shp["norm"],
                                    shp["channels"], phase, m))


@st.composite
def other_length(draw, t, phase):
    """a length new data may have: longer than what was fitted, or, with phase
    invariance, shorter"""
    w = draw(st.integers(0, 5))
    if w == 0:
        return t + draw(st.integers(1, t))
    return draw(st.integers(3, t)) if phase and w < 3 else t


@st.composite
def crafted_shapelets(draw, tmin, C=1, multi=False, kinds=("dyadic", "ties", "spike"),
                      max_k=8, norms=(True, False), max_len=9, phase=False, tmax=None):
    """hand-made shapelets whose span fits in tmin; values dyadic, or cut from a
    series later (src)"""
    k = draw(st.integers(1, max_k))
    pool = []
    for _ in range(draw(st.integers(1, 3))):
        L = draw(st.integers(2, max(2, min(max_len, tmin))))
        d = draw(st.integers(1, max(1, (tmin - 1) // (L - 1))))
        if phase and draw(st.integers(0, 9)) == 0:  # longer than the series: windows wrap
            L, d = draw(st.integers(2, max(2, min(max_len, 2 * tmin)))), \
                draw(st.integers(1, 2 * tmin))
        pool.append((L, d))
    out = []
    for i in range(k):
        L, d = draw(st.sampled_from(pool))
        norm = draw(st.sampled_from(norms))
        ch = [0]
        if multi:
            m = draw(st.integers(1, C))
            ch = draw(st.permutations(list(range(C))))[:m]
        kind = draw(st.sampled_from(kinds))
        out.append({"length": L, "dilation": d, "norm": norm, "channels": list(ch),
                    "values": [draw(gen.series(L, kind, salt=i)) for _ in ch],
                    "cut": draw(st.integers(-1, 40)),
                    "thr": draw(st.sampled_from(["tie", "tie", "min", "mid", "neg", "big"])),
                    "thr_i": draw(st.integers(0, 60))})
    return out


def realise(shps, Xl, phase):
    """turn the drawn description into concrete shapelets: optionally cut from a
    series, thresholds placed relative to real distances"""
    out = []
    for q, s in enumerate(shps):
        s = dict(s)
        x = Xl[q % len(Xl)]
        if s["cut"] >= 0:
            vals = []
            for c in s["channels"]:
                w = oracle.windows(x[c], s["length"], s["dilation"], phase)
                vals.append(w[s["cut"] % len(w)])
        else:
            vals = [np.array(v, dtype=np.float64) for v in s["values"]]
        if s["norm"]:
            vals = [oracle.znorm(v) for v in vals]
        s["values"] = vals
        s["threshold"] = 0.0
        x = Xl[(q + 1) % len(Xl)]
        d = oracle.dist_vector(x, s, phase)
        v = d[s["thr_i"] % len(d)]
        s["threshold"] = float({"tie": v, "min": d.min(), "mid": v + 0.3, "neg": -1.0,
                                "big": 1e12}[s["thr"]])
        out.append(s)
    return out


def close_features(f1, f2, x, shp, phase, exact, what, tol=None):
    """Two feature triples of the same shapelet on the same series must agree, up
    to what rounding leaves open."""
    f1, f2 = np.asarray(f1, dtype=float), np.asarray(f2, dtype=float)
    if np.array_equal(f1, f2):
        return
    d = oracle.dist_vector(x, shp, phase)
    scale = oracle.scale_of(x, shp)
    tol = oracle.tol_for(shp, exact, scale) if tol is None else tol
    name = "%s: length %d, dilation %d, norm %s, channels %s, phase %s" % (
        what, shp["length"], shp["dilation"], shp["norm"], shp["channels"], phase)
    if not np.all(np.isfinite(f2)) or not np.all(np.isfinite(f1)):
        raise Violation("%s: non-finite features %s / %s" % (name, f1, f2))
    if not abs(f1[0] - f2[0]) <= tol:
        raise Violation("%s: minimum %r and %r" % (name, float(f1[0]), float(f2[0])))
    if f1[1] != f2[1]:
        a, b = int(f1[1]), int(f2[1])
        if tol == 0 or not (0 <= a < len(d) and 0 <= b < len(d)) or \
                abs(d[a] - d[b]) > 2 * tol:
            raise Violation("%s: position %d and %d" % (name, a, b))
    if f1[2] != f2[2]:
        lo = int((d <= shp["threshold"] - tol).sum())
        hi = int((d <= shp["threshold"] + tol).sum())
        if tol == 0 or not (lo <= f1[2] <= hi and lo <= f2[2] <= hi):
            raise Violation("%s: occurrence %d and %d" % (name, f1[2], f2[2]))
