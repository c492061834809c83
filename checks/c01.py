"""C01: the three univariate features are exactly min, first argmin, count."""
from hypothesis import strategies as st

from vf import gen, model, oracle
from .common import (HUGE_RULE, Facet, check_matrix, crafted_shapelets, fit, fit_case, huge,
                     huge_case, large_case, large_data, large_params, other_length, realise,
                     some)


def _classify(ctx, Xl, shps, phase, exact):
    lens = {(s["length"], s["dilation"]) for s in shps}
    ties = any((lambda d: (d == d.min()).sum() > 1)(oracle.dist_vector(x, s, phase))
               for x in Xl for s in shps[:4])
    ctx.label("phase" if phase else "no-phase", "exact" if exact else "toleranced")
    if len(lens) > 1:
        ctx.label("several (length,dilation)")
    if ties:
        ctx.label("tied minimum")
    if any(s["dilation"] > 1 for s in shps):
        ctx.label("dilated")
    ctx.nt(len(shps) > 1 and len(Xl) > 0 and
           any(s["dilation"] > 1 for s in shps) or ties)


def fitted(case, ctx):
    est, X, y = fit(case)
    shps = model.unpack(est.shapelets_)
    if not shps:
        ctx.label("no shapelet left")
    exact = gen.is_exact(case["ds"])
    ph = case["p"]["phase_invariance"]
    F = est.transform(X)
    check_matrix(F, X, shps, ph, exact)
    X2 = gen.to_array(case["X2"])
    check_matrix(est.transform(X2), X2, shps, ph, exact and case["k2"] in gen.EXACT, "new data, ")
    _classify(ctx, X, shps, ph, exact)


@st.composite
def fitted_case(draw):
    ds = draw(fit_case(exactish=draw(st.booleans()), wide=True)())
    t = len(ds["ds"]["X"][0][0])
    ds["k2"] = draw(st.sampled_from(gen.ALL))
    k = 2.0 ** ds["ds"].get("scale", 0)
    t = draw(other_length(t, ds["p"]["phase_invariance"]))
    ds["X2"] = [[[k * v for v in draw(gen.series(t, ds["k2"], salt=50 + i))]]
                for i in range(draw(st.integers(1, 3)))]
    return ds


@st.composite
def crafted_case(draw):
    ds = draw(gen.dataset(max_n=4, max_t=30, kinds=gen.EXACT, mixed=False, wide=True))
    t = len(ds["X"][0][0])
    ph = draw(st.booleans())
    return {"ds": ds, "phase": ph, "shps": draw(crafted_shapelets(t, phase=ph))}


def crafted(case, ctx):
    X = gen.to_array(case["ds"]["X"])
    ph = case["phase"]
    shps = realise(case["shps"], X, ph)
    est = model.crafted("univariate", ph, shps)
    check_matrix(est.transform(X), X, shps, ph, True)
    _classify(ctx, X, shps, ph, True)


def long_case():
    """longer series, larger dilations"""
    @st.composite
    def s(draw):
        kind = draw(st.sampled_from(gen.ALL))
        t = draw(st.one_of(st.integers(60, 220), st.integers(60, 900)))
        X = [[draw(gen.series(t, kind, salt=i))] for i in range(draw(st.integers(1, 2)))]
        ph = draw(st.booleans())
        shps = draw(crafted_shapelets(t, phase=ph, max_k=4, max_len=draw(st.sampled_from([3, 14, 60]))))
        return {"X": X, "phase": ph, "shps": shps, "kind": kind}
    return s()


def long(case, ctx):
    X = gen.to_array(case["X"])
    shps = realise(case["shps"], X, case["phase"])
    est = model.crafted("univariate", case["phase"], shps)
    exact = case["kind"] in gen.EXACT
    check_matrix(est.transform(X), X, shps, case["phase"], exact)
    _classify(ctx, X, shps, case["phase"], exact)


def large(case, ctx):
    X, y = large_data(case)
    est = model.R_DST(**large_params(case, X)).fit(X, y)
    shps = model.unpack(est.shapelets_)
    T = some(X, case, 3)
    ctx.label("axis %s" % case["axis"])
    check_matrix(est.transform(T), T, shps, case["p"]["phase_invariance"], True)
    _classify(ctx, T, shps, case["p"]["phase_invariance"], True)


def facets():
    return [
        Facet("huge", lambda: huge_case(kinds=["univariate"]), huge, 16,
              rule=HUGE_RULE),
        Facet("large", lambda: large_case(kinds=["univariate"], max_n=6), large, 60,
              rule="fit on 30-130 points, 20-150 shapelets, or one dimension far larger (90 series, 1300 points, 450 shapelets, 120 points per shapelet, 40 classes); as above"),
        Facet("fitted", fitted_case, fitted, 1200, rule="fit on generated univariate data, "
              "transform it and new data, every feature compared with the definition; "
              "non-trivial: several shapelets with a dilation above 1, or a tied minimum"),
        Facet("crafted", crafted_case, crafted, 1200, rule="hand-made shapelets (values cut "
              "from series or arbitrary, thresholds equal to real distances) on exact data; "
              "non-trivial as above"),
        Facet("long", long_case, long, 160, rule="series of 60-900 points, up to 60 per shapelet; as above"),
    ]
