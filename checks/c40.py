"""C40: class labels are only names."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model
from .common import Facet, Skip, Violation, fit_case
from .c16 import blends

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
DTYPES = ["int64", "int64", "int32", "int16", "float64", "uint8", "bool", ">i8"]


@st.composite
def names(draw, k, increasing=False, whole=False):
    """k different labels and a dtype that holds them"""
    dt = draw(st.sampled_from(DTYPES))
    if dt == "bool" and k > 2:
        dt = "int64"
    lo, hi = {"int16": (-300, 300), "int32": (-10 ** 6, 10 ** 6), "uint8": (0, 255),
              "bool": (0, 1), "float64": (-1000, 1000)}.get(dt, (-2 ** 52, 2 ** 52))
    if not increasing and dt != "bool" and draw(st.integers(0, 3)) == 0:
        # the usual names, given to other classes
        return {"values": list(draw(st.permutations(range(k)))), "dtype": dt}
    small = st.integers(max(lo, -5), min(hi, 12))
    if dt in ("int64", ">i8") and draw(st.integers(0, 3)) == 0:
        # long identifiers, next to each other
        b = draw(st.sampled_from([2 ** 53, 2 ** 60, -2 ** 62, 10 ** 18]))
        small = st.integers(b, b + 20)
    v = draw(st.lists(st.one_of(small, st.integers(lo, hi)), min_size=k, max_size=k,
                      unique=True))
    if dt == "float64" and not whole:      # classifiers refuse fractions as labels
        v = [q / 2 for q in v]
    return {"values": sorted(v) if increasing else v, "dtype": dt}


def put(y, nm):
    return np.array([nm["values"][v] for v in y]).astype(nm["dtype"])


# -------------------------------------------------------------- transformer
@st.composite
def tr_case(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    c = draw(fit_case(variable=var, multi=multi, max_n=9, max_t=18, max_shp=16, max_c=3,
                      n_classes=5)())
    n = len(c["ds"]["y"])
    sub = draw(st.integers(0, 3)) == 0 and n >= 4
    if sub:
        # stratification visits the classes in the order of their labels
        c["ds"]["y"] = [i % 2 for i in range(n)]
        c["p"]["n_samples"] = draw(st.sampled_from([0.5, 0.75, 1.5]))
    k = max(c["ds"]["y"]) + 1
    c.update(kind=kind, a=draw(names(k, sub)), b=draw(names(k, sub)))
    return c


def transformer(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    res = []
    for nm in (None, case["a"], case["b"]):
        yy = y if nm is None else put(y, nm)
        est = model.R_DST(**case["p"]).fit(X, yy)
        res.append((model.copy_shapelets(est.shapelets_), np.asarray(est.transform(X))))
    for nm, r in zip((case["a"], case["b"]), res[1:]):
        if not model.same_shapelets(res[0][0], r[0]) or not model.equal(res[0][1], r[1]):
            raise Violation("%s: with the classes named %s (%s) instead of 0..%d, shapelets or "
                            "features differ" % (case["kind"], nm["values"], nm["dtype"],
                                                 max(y)))
    ctx.label(case["kind"], case["a"]["dtype"], "subsampled" if "n_samples" in case["p"]
              else "all series")
    ctx.nt(len(set(y.tolist())) > 1 and case["a"]["values"] != sorted(case["a"]["values"])
           or "n_samples" in case["p"])


# -------------------------------------------------------------- classifiers
@st.composite
def clf_case(draw):
    which = draw(st.sampled_from(["ridge", "ridge", "ensemble"]))
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    ds = draw(gen.clf_dataset(variable=var, min_c=2 if multi else 1, max_c=2 if multi else 1,
                              min_t=10, max_n=9))
    p = draw(gen.clf_params(min(len(x[0]) for x in ds["X"])))
    up = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        p["n_samples"], up = 0.75, True
    k = max(ds["y"]) + 1
    cw = draw(st.sampled_from([None, None, "balanced", "dict"]))
    return {"which": which, "kind": kind, "ds": ds, "p": p, "up": up, "cw": cw,
            "a": draw(names(k, up, True)), "members": draw(st.integers(1, 3)),
            "seed": draw(gen.seeds)}


def build(case, labels):
    p = dict(case["p"])
    if case["cw"] == "dict":
        p["class_weight"] = {v: w for v, w in zip(labels, [3.0, 0.5, 1.0, 2.0])}
    elif case["cw"]:
        p["class_weight"] = case["cw"]
    if case["which"] == "ridge":
        return model.Ridge(**p)
    from convst.transformers._input_transformers import Derivate, Raw
    m = case["members"]
    p["n_shapelets_per_estimator"] = p.pop("n_shapelets")
    p["shp_alpha"] = p.pop("alpha")
    p["proba_norm"] = [p["proba_norm"]] * m
    p["shapelet_lengths"] = [3]
    trs = [Raw(), Raw(), Raw()] if case["kind"].endswith("variable") else \
        [Derivate(), Raw(), Derivate(order=2)]
    return model.Ensemble(input_transformers=trs[:m], **p)


def decision(est, which, T):
    """-> margins between the best and the second class, or None"""
    try:
        if which == "ridge":
            d = np.asarray(est.classifier.decision_function(est.transformer.transform(T)))
            if d.ndim == 1:
                return 2 * np.abs(d) / (1 + np.abs(d).max())
            scale = 1 + np.abs(d).max()
        else:
            d = sum(np.asarray(m.predict_proba(T)) * w
                    for m, w in zip(est.models, est.model_weights))
            scale = 1
    except (AttributeError, KeyError, TypeError):
        return None
    s = np.sort(d, axis=1)
    return (s[:, -1] - s[:, -2]) / scale


def strengths(est, which):
    try:
        if which == "ridge":
            return [float(est.classifier[-1].alpha_)]
        return [float(m[-1].alpha_) for m in est.models] + [
            float(w) for w in est.model_weights]
    except (AttributeError, KeyError, TypeError):
        return None


def classifiers(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    T = list(X) + [b for b in blends(X, y, case["seed"], 12)
                   if b.shape[1] >= min(x.shape[1] for x in X)]
    if not var:
        T = np.array(T)
    k = int(max(y)) + 1
    nm = case["a"]
    ya = put(y, nm)
    lab = put(range(k), nm)
    ref = build(case, list(range(k))).fit(X, y)
    est = build(case, [v.item() for v in lab]).fit(X, ya)
    want, got = np.asarray(ref.predict(T)), np.asarray(est.predict(T))
    what = "%s, %s, labels %s (%s)" % (case["which"], case["kind"], lab.tolist(), nm["dtype"])
    if got.shape != want.shape:
        raise Violation("%s: predictions of shape %s" % (what, got.shape))
    if not set(got.tolist()) <= set(ya.tolist()):
        raise Violation("%s: predicts %s" % (what, sorted(set(got.tolist()))))
    margin = decision(ref, case["which"], T)
    if margin is None:
        raise Skip("no decision values to tell near-ties")
    s, s2 = strengths(ref, case["which"]), strengths(est, case["which"])
    if not case["up"] and s is not None and s != s2:
        # equal scores up to the order of summation: another penalty is as good
        ctx.label("another penalty")
        return
    sure = margin > 1e-6
    back = {v: i for i, v in enumerate(lab.tolist())}
    g = np.array([back[v] for v in got.tolist()])
    bad = np.where((g != want) & sure)[0]
    if len(bad):
        raise Violation("%s: series %d is predicted %r, that is class %d, with labels 0..%d it "
                        "is class %d (margin %.3g)" % (
                            what, bad[0], got[bad[0]], g[bad[0]], k - 1, want[bad[0]],
                            margin[bad[0]]))
    if sure.all():
        a, b = ref.score(T[:len(X)], y), est.score(T[:len(X)], ya)
        if a != b:
            raise Violation("%s: score %r, with labels 0..%d it is %r" % (what, b, k - 1, a))
    ctx.label(case["which"], case["kind"], nm["dtype"], "order kept" if case["up"] else
              "order changed", str(case["cw"]))
    ctx.nt(len(set(want.tolist())) > 1)


def facets():
    return [
        Facet("transformer", tr_case, transformer, 320, rule="three namings of the same classes "
              "(any order, any integer, float or boolean type): bit-identical shapelets and "
              "features; non-trivial: several classes, another order (or a subsample)"),
        Facet("classifiers", clf_case, classifiers, 130, rule="ridge and ensemble: predictions "
              "and scores follow the renaming; non-trivial: several classes predicted"),
    ]
