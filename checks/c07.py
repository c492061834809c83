"""C07: thresholds come from same-class distances between the percentiles."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from .common import Facet, Skip, Violation, fit, fit_case, large_case, large_data, large_params


def check_thresholds(Xl, y, shps, p, ctx=None):
    lo, hi = p.get("percentiles", [5, 10])
    ph = p["phase_invariance"]
    y = np.asarray(y)
    for j, s in enumerate(shps):
        srcs = sorted({i for i, _ in oracle.sources(Xl, s, ph)})
        ok, seen = False, []
        for i in srcs:
            others = [k for k in np.where(y == y[i])[0] if k != i] or [i]
            for k in others:
                d = oracle.dist_vector(Xl[k], s, ph)
                tol = oracle.tol_for(s, False, oracle.scale_of(Xl[k], s))
                a, b = np.percentile(d, [lo, hi])
                seen.append((i, int(k), float(a), float(b)))
                if a - tol <= s["threshold"] <= b + tol:
                    ok = True
                    break
            if ok:
                break
        if ctx is not None:
            if len(srcs) == 1:
                ctx.label("unique source")
                if (y == y[srcs[0]]).sum() > 1 and not s["norm"]:
                    ctx.nt()
        if srcs and not ok:
            raise Violation(
                "shapelet %d (norm %s, channels %s): threshold %r is outside the [%s,%s] "
                "percentiles of its distances to every same-class series: %s" % (
                    j, s["norm"], s["channels"], s["threshold"], lo, hi,
                    [(i, k, round(a, 6), round(b, 6)) for i, k, a, b in seen[:6]]))


KINDS = ("distinct", "distinct", "distinct", "real", "dyadic", "scaled")


def case_strategy(kind):
    var, multi = kind.endswith("variable"), kind.startswith("multi")

    @st.composite
    def s(draw):
        c = draw(fit_case(variable=var, multi=multi, max_n=7, max_t=18, kinds=KINDS,
                          exactish=True, max_shp=10, max_c=3, wide=True)())
        if draw(st.booleans()):
            a = draw(st.integers(0, 100))
            c["p"]["percentiles"] = [a, draw(st.integers(a, 100))]
        lab = draw(st.sampled_from(["int", "int", "big", "str", "neg"]))
        c["labels"] = lab
        return c
    return s


def relabel(y, how):
    y = np.asarray(y)
    if how == "big":
        return y * 1000 + 7
    if how == "str":
        return np.array(["c%d" % v for v in y])
    if how == "neg":
        return y - 1
    return y


def checker(kind):
    var = kind.endswith("variable")

    def check(case, ctx):
        X, y = model.data(case["ds"], var)
        y = relabel(y, case["labels"])
        est = model.R_DST(**case["p"]).fit(X, y)
        shps = model.unpack(est.shapelets_)
        check_thresholds(X, y, shps, case["p"], ctx)
    return check


def large(case, ctx):
    X, y = large_data(case)
    p = large_params(case, X)
    p["n_shapelets"] = min(30, p["n_shapelets"])
    est = model.R_DST(**p).fit(X, y)
    check_thresholds(X, y, model.unpack(est.shapelets_), p, ctx)
    ctx.label(case["kind"], "axis %s" % case["axis"])


def spread_strategy():
    """threshold draws over a percentile range are not stuck at one end"""
    return st.fixed_dictionaries({"seed": gen.seeds, "kind": st.sampled_from(
        ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]),
        "phase": st.booleans(), "norm": st.booleans(),
        "pct": st.sampled_from([[0, 100], [10, 60], [5, 10], [2.5, 97.5]])})


def spread(case, ctx):
    """two classes of two series: the series a threshold comes from is known"""
    kind = case["kind"]
    C = 2 if kind.startswith("multi") else 1
    rng = np.random.RandomState(case["seed"])
    X = rng.randn(4, C, 30)
    X = list(X) if kind.endswith("variable") else X
    y = np.array([0, 1, 0, 1])
    n = 110
    p = {"n_shapelets": n, "shapelet_lengths": [4], "alpha": 0.0, "random_state": case["seed"],
         "proba_norm": 1.0 if case["norm"] else 0.0, "percentiles": case["pct"],
         "phase_invariance": case["phase"]}
    est = model.R_DST(**p).fit(X, y)
    rel = []
    for s in model.unpack(est.shapelets_):
        src = sorted({i for i, _ in oracle.sources(X, s, case["phase"])})
        if len(src) == 1:
            d = oracle.dist_vector(X[(src[0] + 2) % 4], s, case["phase"])
            a, b = np.percentile(d, case["pct"])
            if b > a:
                rel.append((s["threshold"] - a) / (b - a))
    if len(rel) < 90:
        return
    # each draw is uniform between the two: 7 standard deviations of the mean of 90
    m, r = np.mean(rel), np.ptp(rel)
    if abs(m - 0.5) > 7 * np.sqrt(1 / 12.0 / len(rel)) or r < 0.6:
        raise Violation("%d thresholds lie at %.2f of the way between percentiles %s on "
                        "average, spread %.2f" % (len(rel), m, case["pct"], r))
    ctx.nt()


def facets():
    out = []
    for kind, n in (("univariate", 800), ("univariate_variable", 500), ("multivariate", 450),
                    ("multivariate_variable", 450)):
        out.append(Facet(kind, case_strategy(kind), checker(kind), n,
                         rule="fit; each threshold against the percentile interval of the "
                         "distances to every other same-class series of each possible source; "
                         "non-trivial: a raw shapelet with one possible source in a class of "
                         "several series"))
    out.append(Facet("large", large_case, large, 60, rule="up to 20 series of 30-130 points, "
                     "1-7 classes; non-trivial as above"))
    out.append(Facet("spread", spread_strategy, spread, 24,
                     rule="the thresholds of 110 shapelets are spread over the whole interval, their mean in its middle; non-trivial: source known for 90"))
    return out
