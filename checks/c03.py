"""C03: variable-length series are each treated at their own length."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from .common import (HUGE_RULE, Facet, Violation, check_matrix, crafted_shapelets, fit_case,
                     huge, huge_case, large_case, large_data, large_params, realise, some)
from .c07 import check_thresholds


@st.composite
def fitted_case(draw):
    multi = draw(st.booleans())
    ex = draw(st.booleans())
    c = draw(fit_case(variable=True, multi=multi, exactish=ex, max_n=5, max_shp=10, max_c=3,
                      wide=True)())
    c["objarr"] = draw(st.booleans())
    tmin = min(len(x[0]) for x in c["ds"]["X"])
    if draw(st.integers(0, 3)) == 0:
        c["p"]["min_len"] = draw(st.integers(3, tmin))
        c["p"]["shapelet_lengths"] = sorted({min(l, c["p"]["min_len"])
                                             for l in c["p"]["shapelet_lengths"]})
    return c


def obj(Xl):
    a = np.empty(len(Xl), dtype=object)
    for i, x in enumerate(Xl):
        a[i] = x
    return a


def fitted(case, ctx):
    ds, p = case["ds"], case["p"]
    Xl, y = model.data(ds, True)
    arg = obj(Xl) if case["objarr"] else [x.copy() for x in Xl]
    est = model.R_DST(**p).fit(arg, y)
    shps = model.unpack(est.shapelets_)
    ph, exact = p["phase_invariance"], gen.is_exact(ds)
    F = np.asarray(est.transform(arg))
    check_matrix(F, Xl, shps, ph, exact)
    for j, s in enumerate(shps):
        if not oracle.sources(Xl, s, ph):
            raise Violation("shapelet %d is not made of real timestamps of one series "
                            "(length %d, dilation %d, norm %s, channels %s)" % (
                                j, s["length"], s["dilation"], s["norm"], s["channels"]))
    check_thresholds(Xl, y, shps, p)
    lens = {x.shape[1] for x in Xl}
    ctx.label("multi" if Xl[0].shape[0] > 1 else "uni", "phase" if ph else "no-phase")
    ctx.label("lengths differ" if len(lens) > 1 else "lengths equal")
    if any(np.sum(y == c) > 1 for c in y):
        ctx.label("class of several series")
    ctx.nt(len(lens) > 1 and len(shps) > 1)


@st.composite
def alone_case(draw):
    multi = draw(st.booleans())
    ds = draw(gen.dataset(min_n=2, max_n=4, min_c=2 if multi else 1, max_c=3 if multi else 1,
                          kinds=gen.EXACT, mixed=False, variable=True, wide=True))
    tmin = min(len(x[0]) for x in ds["X"])
    C, ph = len(ds["X"][0]), draw(st.booleans())
    kind = draw(st.sampled_from(gen.EXACT))
    return {"ds": ds, "phase": ph,
            "shps": draw(crafted_shapelets(tmin, C=C, multi=multi, phase=ph, max_k=5)),
            "extra": [draw(gen.series(tmin + draw(st.integers(0, 30)), kind))
                      for _ in range(1)] * C}


def alone(case, ctx):
    Xl, _ = model.data(case["ds"], True)
    ph, C = case["phase"], Xl[0].shape[0]
    shps = realise(case["shps"], Xl, ph)
    kind = model.kind_of(C, True)
    est = model.crafted(kind, ph, shps, n_channels=C)
    F = np.asarray(est.transform([x.copy() for x in Xl]))
    check_matrix(F, Xl, shps, ph, True)
    extra = np.array(case["extra"], dtype=np.float64)
    G = np.asarray(est.transform([x.copy() for x in Xl] + [extra]))
    if not np.array_equal(G[:len(Xl)], F):
        raise Violation("adding a series of length %d changed the features of the others"
                        % extra.shape[1])
    same = model.crafted(model.kind_of(C, False), ph, shps, n_channels=C)
    for i, x in enumerate(Xl):
        a = np.asarray(est.transform([x.copy()]))[0]
        b = np.asarray(same.transform(x[None].copy()))[0]
        if not np.array_equal(a, F[i]):
            raise Violation("series %d alone gives other features than in the collection" % i)
        if not np.array_equal(b, F[i]):
            raise Violation("series %d as fixed-length data gives other features" % i)
    ctx.label("phase" if ph else "no-phase", kind)
    ctx.nt(len({x.shape[1] for x in Xl}) > 1)


@st.composite
def length_case(draw):
    i = st.integers
    return {"from": draw(st.one_of(i(3, 120), i(3, 1100))), "C": draw(i(1, 2)), "n": draw(i(6, 20)),
            "seed": draw(gen.seeds), "phase": draw(st.booleans()), "norm": draw(st.booleans()),
            "obj": draw(st.booleans())}


def lengths(case, ctx):
    """n consecutive lengths in one collection, in any order; no value is near
    zero but the shapelet is, so that a padded point would be the best match,
    and one more or one less changes the number of matches"""
    rng = np.random.RandomState(case["seed"])
    C, t0, ph = case["C"], case["from"], case["phase"]
    Xl = [rng.randint(64, 257, size=(C, t)) / 16.0
          for t in rng.permutation(np.arange(t0, t0 + case["n"]))]
    L = min(3, t0)
    shps = [{"length": L, "dilation": d, "norm": False, "channels": list(range(C)),
             "values": [np.zeros(L)] * C, "threshold": thr}
            for d in (1, 1 + rng.randint((t0 - 1) // (L - 1))) for thr in (1e9, 11.9 * C)]
    F = np.asarray(model.crafted(model.kind_of(C, True), ph, shps, n_channels=C,
                                 normalize_output=case["norm"]).transform(
        obj(Xl) if case["obj"] else [x.copy() for x in Xl]))
    if case["norm"]:
        F = F.copy()
        T = np.array([x.shape[1] for x in Xl])[:, None]
        for k in (1, 2):
            r = F[:, k::3] * T
            if np.abs(r - np.round(r)).max() > 1e-6:
                raise Violation("lengths %s: %s, normalised, is not a multiple of 1/length" % (
                    [x.shape[1] for x in Xl], ["position", "occurrence"][k - 1]))
            F[:, k::3] = np.round(r)
    check_matrix(F, Xl, shps, ph, True)
    ctx.label("phase" if ph else "no-phase", "up to %d" % (-(-t0 // 128) * 128))
    ctx.nt()


def large(case, ctx):
    X, y = large_data(case)
    p = large_params(case, X)
    est = model.R_DST(**p).fit(X, y)
    shps = model.unpack(est.shapelets_)
    T = some(X, case, 2)
    ctx.label("axis %s" % case["axis"])
    check_matrix(est.transform(T), T, shps, p["phase_invariance"], True)
    ctx.label(case["kind"], "phase" if p["phase_invariance"] else "no-phase")
    ctx.nt(len({x.shape[1] for x in T}) > 1 and len(shps) > 1)


def facets():
    return [
        Facet("huge", lambda: huge_case(kinds=["univariate_variable", "multivariate_variable"]), huge, 16,
              rule=HUGE_RULE),
        Facet("large", lambda: large_case(kinds=["univariate_variable", "multivariate_variable"],
                                          max_n=8), large, 60,
              rule="series of 20-130 points, 20-150 shapelets, or one dimension far larger; as above"),
        Facet("fitted", fitted_case, fitted, 1100, rule="fit on generated variable-length "
              "collections (lists and object arrays, 1-3 channels), features, provenance and "
              "thresholds against the definitions on each series' own timestamps; non-trivial: "
              "at least two lengths and several shapelets"),
        Facet("lengths", length_case, lengths, 300, rule="6-20 consecutive lengths in one "
              "collection (3 to 1100 points), shapelets that would match a padded point best"),
        Facet("alone", alone_case, alone, 500, rule="same features alone, in the collection, "
              "with a longer companion, and as fixed-length data; non-trivial: lengths differ"),
    ]
