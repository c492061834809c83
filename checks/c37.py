"""C37: fit, transform and predict succeed on every valid input, however degenerate."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model
from .common import Facet, Skip, Violation

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


@st.composite
def length_spec(draw, t):
    """-> parameters describing lengths, all of them valid for series of t points"""
    how = draw(st.sampled_from(["int", "int", "long", "float", "bounds", "fbounds", "default",
                                "full"]))
    if how == "default":
        return {}
    if how == "full":
        return {"shapelet_lengths": [t]}
    if how == "long":
        return {"shapelet_lengths": sorted(draw(st.sets(st.integers(2, 3 * t), min_size=1,
                                                        max_size=3)))}
    if how == "float":
        lo = int(np.ceil(200.0 / t)) + 1
        return {"shapelet_lengths": [v / 100.0 for v in draw(
            st.lists(st.integers(min(lo, 100), 100), min_size=1, max_size=3, unique=True))]}
    if how == "bounds":
        a = draw(st.integers(2, t))
        return {"shapelet_lengths_bounds": [a, draw(st.integers(a, t + 3))],
                "lengths_bounds_reduction": draw(st.sampled_from([0.0, 0.3, 0.5, 0.99]))}
    if how == "fbounds":
        a = draw(st.integers(1, 100))
        return {"shapelet_lengths_bounds": [a / 100.0, draw(st.integers(a, 100)) / 100.0]}
    return {"shapelet_lengths": draw(gen.lengths_for(t))}


@st.composite
def dataset(draw, kind, min_n=1, min_t=3):
    """any finite data: degenerate series, duplicates, any magnitude, any classes"""
    multi, var = kind.startswith("multi"), kind.endswith("variable")
    ds = draw(gen.dataset(min_n=min_n, max_n=8, min_c=2 if multi else 1,
                          max_c=5 if multi else 1, min_t=min_t,
                          max_t=max(min_t, draw(st.sampled_from([min_t, min_t + 1, 12, 24]))),
                          variable=var, wide=True, n_classes=4))
    n = len(ds["X"])
    if n > 1 and draw(st.integers(0, 2)) == 0:      # duplicates
        for _ in range(draw(st.integers(1, n))):
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if len(ds["X"][i][0]) == len(ds["X"][j][0]) or var:
                ds["X"][i] = [list(c) for c in ds["X"][j]]
    if draw(st.integers(0, 3)) == 0:        # constant channels that are no round numbers
        for _ in range(draw(st.integers(1, n))):
            x = ds["X"][draw(st.integers(0, n - 1))]
            v = draw(st.sampled_from([0.1, -0.3, 1 / 3.0, 7.7, -1234.567, 1e-7, 1e-3]))
            for c in draw(st.sets(st.integers(0, len(x) - 1), min_size=1)):
                x[c] = [v] * len(x[c])
    how = draw(st.sampled_from(["drawn", "drawn", "one class", "all distinct", "huge labels"]))
    if how == "one class":
        ds["y"] = [3] * n
    elif how == "all distinct":
        ds["y"] = draw(st.permutations([5 * i - 7 for i in range(n)]))
    elif how == "huge labels":
        ds["y"] = [[-2 ** 40, 2 ** 40, 0, -1][v] for v in ds["y"]]
    ds["labels"] = how
    return ds


@st.composite
def case_(draw):
    kind = draw(st.sampled_from(KINDS))
    ds = draw(dataset(kind))
    t = min(len(x[0]) for x in ds["X"])
    p = draw(length_spec(t))
    p.update({
        "n_shapelets": draw(st.sampled_from([1, 2, 5, 16, 40, 120])),
        "alpha": draw(st.sampled_from([0.0, 0.01, 0.25, 0.5, 0.75, 0.99, 1.0])),
        "proba_norm": draw(st.sampled_from([0.0, 0.01, 0.5, 0.8, 1.0])),
        "percentiles": draw(st.sampled_from(gen.PCTS + [[0, 0.5], [99.5, 100]])),
        "phase_invariance": draw(st.booleans()),
        "prime_dilations": draw(st.booleans()),
        "normalize_output": draw(st.booleans()),
        "random_state": draw(gen.seeds)})
    if kind.startswith("multi") and draw(st.booleans()):
        p["max_channels"] = draw(st.integers(1, 7))
    if kind.endswith("variable") and draw(st.integers(0, 2)) == 0:
        p["min_len"] = draw(st.integers(3, t))
        p.pop("shapelet_lengths_bounds", None)
        p["shapelet_lengths"] = [2]
    return {"kind": kind, "ds": ds, "p": p, "explicit": draw(st.booleans()),
            "new": draw(dataset(kind, min_t=t)), "object": draw(st.booleans())}


def put(ds, kind, obj=False):
    X, y = model.data(ds, kind.endswith("variable"))
    if kind.endswith("variable") and obj:
        o = np.empty(len(X), dtype=object)
        for i, x in enumerate(X):
            o[i] = x
        X = o
    return X, y


def describe(case):
    d = case["ds"]
    return "%s, %d series of %s points, %s, %s" % (
        case["kind"], len(d["X"]), sorted({len(x[0]) for x in d["X"]}), d["labels"],
        {k: v for k, v in sorted(case["p"].items()) if k != "random_state"})


def features(F, n, k, what):
    F = np.asarray(F)
    if F.shape != (n, 3 * k):
        raise Violation("%s: features of shape %s for %d series and %d shapelets"
                        % (what, F.shape, n, k))
    if not np.all(np.isfinite(F)):
        i, j = np.argwhere(~np.isfinite(F))[0]
        raise Violation("%s: feature %d of series %d is %r" % (what, j, i, float(F[i, j])))


def transformer(case, ctx):
    kind = case["kind"]
    X, y = put(case["ds"], kind, case["object"])
    p = dict(case["p"])
    if case["explicit"]:
        p["transform_type"] = kind
    what = describe(case)
    est = model.R_DST(**p)
    if est.fit(X, y) is not est:
        raise Violation("%s: fit does not return the estimator" % what)
    k = len(np.asarray(est.shapelets_[1]))
    # flat windows leave all-zero shapelets, which fit drops
    flat = any(v == 0.0 for x in case["ds"]["X"] for c in x for v in c) or any(
        a == b for x in case["ds"]["X"] for c in x for a, b in zip(sorted(c), sorted(c)[1:]))
    if not (0 if flat else 1) <= k <= p["n_shapelets"]:
        raise Violation("%s: %d shapelets, %d requested" % (what, k, p["n_shapelets"]))
    features(est.transform(X), len(X), k, what)
    new = case["new"]["X"]
    C = len(case["ds"]["X"][0])
    new = [(x * C)[:C] for x in new]
    T, _ = put({"X": new, "y": case["new"]["y"]}, kind, not case["object"])
    features(est.transform(T), len(T), k, what + ", other data")
    traits = [case["ds"]["labels"] != "drawn", len(X) == 1,
              min(len(x[0]) for x in case["ds"]["X"]) <= 4, "scale" in case["ds"],
              any(len(set(c)) == 1 for x in case["ds"]["X"] for c in x),
              len({str(x) for x in case["ds"]["X"]}) < len(X), k < p["n_shapelets"],
              p["alpha"] in (0.0, 1.0), p["percentiles"][0] == p["percentiles"][1]]
    names = ["labels", "one series", "short", "scaled", "constant", "duplicates", "exhausted",
             "extreme alpha", "equal percentiles"]
    ctx.label(kind, *[n for n, v in zip(names, traits) if v])
    ctx.nt(sum(traits) >= 2)


@st.composite
def clf_case(draw):
    c = draw(case_())
    kind = c["kind"]
    which = draw(st.sampled_from(["ridge", "ridge", "ensemble"]))
    raw = kind.endswith("variable") or draw(st.booleans())
    c["raw"] = raw
    c["ds"] = draw(dataset(kind, min_n=3, min_t=8))
    n = len(c["ds"]["X"])
    if len(set(c["ds"]["y"])) < 2:
        c["ds"]["y"] = [[4, 9, 2][i % (2 + draw(st.integers(0, 1)))] for i in range(n)]
    t = min(len(x[0]) for x in c["ds"]["X"])
    p = c["p"]
    for k in ("min_len", "shapelet_lengths", "shapelet_lengths_bounds",
              "lengths_bounds_reduction"):
        p.pop(k, None)
    if raw:
        p.update(draw(length_spec(t)))
    else:
        p["shapelet_lengths"] = [3]
    if which == "ridge":
        p.pop("max_channels", None)
    else:
        p["n_shapelets_per_estimator"] = min(p.pop("n_shapelets"), 16)
        p["shp_alpha"] = p.pop("alpha")
        m = draw(st.integers(1, 3)) if raw else 3
        p["proba_norm"] = [p["proba_norm"]] * m
        p["a_w"] = draw(st.sampled_from([0, 1, 4]))
    if draw(st.booleans()):
        p["class_weight"] = "balanced"
    c["which"] = which
    c["new"] = draw(dataset(kind, min_t=t))
    return c


def classifier(case, ctx):
    kind, p = case["kind"], dict(case["p"])
    X, y = put(case["ds"], kind, case["object"])
    what = "%s: %s" % (case["which"], describe(case))
    if case["which"] == "ridge":
        clf = model.Ridge(**p)
    else:
        from convst.transformers._input_transformers import Raw
        if case["raw"]:
            p["input_transformers"] = [Raw() for _ in p["proba_norm"]]
        clf = model.Ensemble(**p)
    try:
        clf.fit(X, y)
    except ValueError as e:
        # no feature varies over the training series: the ridge has nothing to learn from
        if "0 feature" in str(e):
            ctx.label("no varying feature")
            return
        raise
    C = len(case["ds"]["X"][0])
    new = [(x * C)[:C] for x in case["new"]["X"]]
    for D, where in ((X, "training data"),
                     (put({"X": new, "y": case["new"]["y"]}, kind)[0], "other data")):
        r = np.asarray(clf.predict(D))
        if r.shape != (len(D),):
            raise Violation("%s: predictions of shape %s for %d series (%s)"
                            % (what, r.shape, len(D), where))
        if not set(r.tolist()) <= set(y.tolist()):
            raise Violation("%s: predicts %s, trained on %s (%s)" % (
                what, sorted(set(r.tolist())), sorted(set(y.tolist())), where))
    s = clf.score(X, y)
    if not 0 <= s <= 1:
        raise Violation("%s: score %r" % (what, s))
    ctx.label(case["which"], kind, case["ds"]["labels"], "raw" if case["raw"] else "default")
    ctx.nt()


def facets():
    return [
        Facet("transformer", case_, transformer, 700, rule="any finite data (constants, "
              "duplicates, one series, 3 points, any scale, any labels), any valid parameters: "
              "fit and two transforms give finite features of the right shape; non-trivial: at "
              "least two degenerate traits"),
        Facet("classifiers", clf_case, classifier, 160, rule="ridge and ensemble (default or "
              "raw members) on such data with at least two classes: one training label per "
              "series; non-trivial: features that vary"),
    ]
