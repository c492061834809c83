"""C02: multivariate features use the sum of distances over exactly its channels."""
from hypothesis import strategies as st

from vf import gen, model
from .common import (HUGE_RULE, Facet, check_matrix, crafted_shapelets, fit, fit_case, huge,
                     huge_case, large_case, large_data, large_params, other_length, realise,
                     some)


def _classify(ctx, X, shps, ph):
    ctx.label("phase" if ph else "no-phase")
    perm = any(len(s["channels"]) > 1 and s["channels"] != sorted(s["channels"]) for s in shps)
    part = any(len(s["channels"]) < len(X[0]) for s in shps)
    varied = len({len(s["channels"]) for s in shps}) > 1
    for n, b in (("unsorted channels", perm), ("channel subset", part),
                 ("mixed channel counts", varied)):
        if b:
            ctx.label(n)
    ctx.nt(len(shps) > 1 and (perm or part) and any(len(s["channels"]) > 1 for s in shps))


@st.composite
def fitted_case(draw):
    ex = draw(st.booleans())
    c = draw(fit_case(multi=True, exactish=ex, max_n=4, max_shp=12, wide=True)())
    t, C = len(c["ds"]["X"][0][0]), len(c["ds"]["X"][0])
    c["k2"] = draw(st.sampled_from(gen.ALL))
    k = 2.0 ** c["ds"].get("scale", 0)
    t = draw(other_length(t, c["p"]["phase_invariance"]))
    c["X2"] = [[[k * v for v in draw(gen.series(t, c["k2"], salt=50 + i * C + j))]
                for j in range(C)]
               for i in range(draw(st.integers(1, 2)))]
    return c


def fitted(case, ctx):
    est, X, y = fit(case)
    shps = model.unpack(est.shapelets_)
    ph, exact = case["p"]["phase_invariance"], gen.is_exact(case["ds"])
    check_matrix(est.transform(X), X, shps, ph, exact)
    X2 = gen.to_array(case["X2"])
    check_matrix(est.transform(X2), X2, shps, ph, exact and case["k2"] in gen.EXACT, "new data, ")
    _classify(ctx, X, shps, ph)


@st.composite
def crafted_case(draw):
    ds = draw(gen.dataset(max_n=3, min_c=2, max_c=5, max_t=20, kinds=gen.EXACT, mixed=False,
                          wide=True))
    t, C = len(ds["X"][0][0]), len(ds["X"][0])
    ph = draw(st.booleans())
    return {"ds": ds, "phase": ph,
            "shps": draw(crafted_shapelets(t, C=C, multi=True, phase=ph))}


def crafted(case, ctx):
    X = gen.to_array(case["ds"]["X"])
    shps = realise(case["shps"], X, case["phase"])
    est = model.crafted("multivariate", case["phase"], shps, n_channels=X.shape[1])
    check_matrix(est.transform(X), X, shps, case["phase"], True)
    _classify(ctx, X, shps, case["phase"])


def large(case, ctx):
    X, y = large_data(case)
    est = model.R_DST(**large_params(case, X)).fit(X, y)
    shps = model.unpack(est.shapelets_)
    ph = case["p"]["phase_invariance"]
    T = some(X, case, 2)
    ctx.label("axis %s" % case["axis"])
    check_matrix(est.transform(T), T, shps, ph, True)
    _classify(ctx, T, shps, ph)


def facets():
    return [
        Facet("huge", lambda: huge_case(kinds=["multivariate"]), huge, 16,
              rule=HUGE_RULE),
        Facet("large", lambda: large_case(kinds=["multivariate"], max_n=6), large, 60,
              rule="2-6 channels, 30-130 points, 20-150 shapelets, or one dimension far larger (16 channels and those of C01); as above"),
        Facet("fitted", fitted_case, fitted, 800, rule="fit on generated data with 2-4 channels, "
              "transform it and new data, every feature against the definition; non-trivial: "
              "several shapelets, one on several channels, one on a subset or unsorted channels"),
        Facet("crafted", crafted_case, crafted, 900, rule="hand-made multivariate shapelets with "
              "arbitrary channel lists and thresholds equal to real distances; as above"),
    ]
