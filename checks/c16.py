"""C16: the ridge classifier is transform, standardise, ridge, on its labels."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model
from .common import Facet, Violation

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
LABELS = [[0, 1, 2, 3], [1, 2, 3, 4], [-1, 1, 2, 9], [3, 7, 10, 11], [-5, -2, 0, 100000],
          [7, 4, 2, 1], [1, -1, 0, 5]]
# up to twelve classes, increasing where the first four are
LABELS = [v + [max(v) + 1 + q * (1 + 3 * i) if i < 5 else 60 - 7 * q for q in range(8)]
          for i, v in enumerate(LABELS)]
UNITS = [1.0, 1.0, 1.0, 2.0 ** -30, 2.0 ** -20, 2.0 ** 20]      # of the measured values


@st.composite
def case_(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    ds = draw(gen.clf_dataset(variable=var, min_c=2 if multi else 1, max_c=3 if multi else 1))
    labs = draw(st.sampled_from(LABELS))
    ds["y"] = [labs[v] for v in ds["y"]]
    t = min(len(x[0]) for x in ds["X"])
    p = draw(gen.clf_params(t))
    opts = {"normalize_output": st.booleans(), "n_samples": st.sampled_from([0.6, 0.75, 1.0]),
            "shapelet_lengths_bounds": st.sampled_from([[3, 5], [0.3, 0.5]]),
            "lengths_bounds_reduction": st.sampled_from([0.0, 0.5, 0.9]),
            "class_weight": st.sampled_from(["balanced", "dict"]),
            "fit_intercept": st.just(False),
            "alphas_ridge": st.sampled_from([[1.0], [0.1, 10.0], [1000.0, 1e-3, 1.0]]),
            "min_len": st.just(t)}
    if multi:
        opts["max_channels"] = st.integers(1, 3)
    for n in sorted(opts):
        if draw(st.integers(0, 3)) == 0:
            p[n] = draw(opts[n])
    if p.get("class_weight") == "dict":
        p["cw"] = {str(v): w for v, w in zip(sorted(set(ds["y"])), [3.0, 0.5, 1.0, 2.0])}
    return {"kind": kind, "ds": ds, "p": p, "seed": draw(gen.seeds),
            "explicit": draw(st.booleans()), "as_multi": draw(st.integers(0, 3)) == 0,
            "unit": draw(st.sampled_from(UNITS))}


def blends(X, y, seed, n=14, unit=1.0):
    """training-like series between the classes"""
    rng = np.random.RandomState(seed)
    out = []
    for _ in range(n):
        i, j = rng.randint(len(X)), rng.randint(len(X))
        a, b = np.asarray(X[i]), np.asarray(X[j])
        t = min(a.shape[1], b.shape[1])
        w = rng.randint(0, 17) / 16.0
        out.append((1 - w) * a[:, :t] + w * b[:, :t] +
                   rng.randint(-8, 9, (a.shape[0], t)) / 32.0 * unit)
    return out


def manual(p, ridge_p, X, y):
    """the pipeline, from its parts"""
    from sklearn.linear_model import RidgeClassifierCV
    tr = model.R_DST(**p).fit(X, y)
    F = np.asarray(tr.transform(X))
    keep = [j for j in range(F.shape[1]) if len(set(F[:, j].tolist())) > 1]
    m, s = F[:, keep].mean(axis=0), F[:, keep].std(axis=0)
    clf = RidgeClassifierCV(**ridge_p).fit((F[:, keep] - m) / s, y)

    def decide(D):
        return clf.decision_function((np.asarray(tr.transform(D))[:, keep] - m) / s)
    return tr, decide, clf.classes_


def check(case, ctx):
    kind = case["kind"]
    var = kind.endswith("variable")
    X, y = model.data(case["ds"], var)
    X = [x * case["unit"] for x in X] if var else X * case["unit"]
    p = dict(case["p"])
    cw = p.pop("cw", None)
    if cw:
        p["class_weight"] = {int(k): v for k, v in cw.items()}
    if case["explicit"]:
        # one channel may be treated as a multivariate series
        p["transform_type"] = kind.replace("uni", "multi") if case["as_multi"] else kind
    rp = {"alphas": p.get("alphas_ridge", list(np.logspace(-4, 4, 20))),
          "class_weight": p.get("class_weight"), "fit_intercept": p.get("fit_intercept", True)}
    tp = {k: v for k, v in p.items()
          if k not in ("alphas_ridge", "class_weight", "fit_intercept")}
    tr, decide, classes = manual(tp, rp, X, y)
    est = model.Ridge(**p)
    if est.fit(X, y) is not est:
        raise Violation("fit does not return the classifier")
    opts = sorted(set(p) - {"n_shapelets", "shapelet_lengths", "alpha", "proba_norm",
                            "percentiles", "random_state", "phase_invariance",
                            "prime_dilations"})
    what = "%s, options %s" % (kind, {k: p[k] for k in opts})
    if not model.same_shapelets(est.transformer.shapelets_, tr.shapelets_):
        raise Violation("%s: shapelets differ from those of R_DST with the same parameters"
                        % what)
    need = max(int(((s["length"] - 1) * s["dilation"])) + 1
               for s in model.unpack(tr.shapelets_))
    new = blends(X, y, case["seed"], unit=case["unit"])
    if var:
        T = list(X) + [x for x in new if x.shape[1] >= need]
    else:
        T = np.array(list(X) + new)
    d = np.asarray(decide(T))
    pred = np.asarray(est.predict(T))
    if pred.shape != (len(T),):
        raise Violation("%s: %s predictions for %d series" % (what, pred.shape, len(T)))
    if not set(pred.tolist()) <= set(y.tolist()):
        raise Violation("%s: predicts %s, trained on %s" % (
            what, sorted(set(pred.tolist())), sorted(set(y.tolist()))))
    if d.ndim == 1:
        want, margin = classes[(d > 0).astype(int)], np.abs(d)
    else:
        want = classes[d.argmax(axis=1)]
        s = np.sort(d, axis=1)
        margin = s[:, -1] - s[:, -2]
    sure = margin > 1e-7 * (1 + np.abs(d).max())
    bad = np.where((pred != want) & sure)[0]
    if len(bad):
        raise Violation("%s: series %d is predicted %s, the pipeline predicts %s (margin %.3g)"
                        % (what, bad[0], pred[bad[0]], want[bad[0]], margin[bad[0]]))
    try:
        e = np.asarray(est.classifier.decision_function(est.transformer.transform(T)))
    except (AttributeError, TypeError, KeyError):
        e = None
    if e is not None and (e.shape != d.shape or
                          np.abs(e - d).max() > 1e-6 * (1 + np.abs(d).max())):
        raise Violation("%s: decision values differ from the pipeline's" % what)
    # one series at a time, another order
    rng = np.random.RandomState(case["seed"] + 1)
    o = rng.permutation(len(T))[:max(2, len(T) // 2)]
    sub = [T[i] for i in o] if var else T[o]
    got = np.asarray(est.predict(sub))
    bad = np.where((got != pred[o]) & sure[o])[0]
    if len(bad):
        raise Violation("%s: series %d is predicted %s alone among %d, %s among all" % (
            what, o[bad[0]], got[bad[0]], len(o), pred[o[bad[0]]]))
    i = int(o[0])
    one = np.asarray(est.predict([T[i]] if var else T[i:i + 1]))
    if sure[i] and one.tolist() != [pred[i]]:
        raise Violation("%s: series %d is predicted %s when given alone, not %s"
                        % (what, i, one.tolist(), pred[i]))
    # the same array, refilled
    same = sorted(o.tolist())
    if var:
        box = [T[k] for k in same]
        est.predict(box)
        box[:] = [T[k] for k in o]
    else:
        box = T[same]
        est.predict(box)
        box[:] = T[o]
    got = np.asarray(est.predict(box))
    bad = np.where((got != pred[o]) & sure[o])[0]
    if len(bad):
        raise Violation("%s: an array given again with other content: series %d is predicted "
                        "%s, not %s" % (what, o[bad[0]], got[bad[0]], pred[o[bad[0]]]))
    ty = np.array([y[rng.randint(len(y))] for _ in range(len(T))])
    sc = est.score(T, ty)
    if not abs(sc - np.mean(np.asarray(est.predict(T)) == ty)) < 1e-12:
        raise Violation("%s: score %r, fraction of correct predictions %r"
                        % (what, sc, float(np.mean(pred == ty))))
    ctx.label(kind, "%d classes" % len(classes), "unit %g" % case["unit"], *opts)
    ctx.nt(len(set(pred.tolist())) > 1 and sure.mean() > 0.8)


@st.composite
def many_case(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    ds = draw(gen.clf_dataset(variable=var, min_c=2 if multi else 1, max_c=2 if multi else 1,
                              max_t=14))
    t = min(len(x[0]) for x in ds["X"])
    p = draw(gen.clf_params(t))
    p["n_shapelets"] = min(p["n_shapelets"], 10)
    return {"kind": kind, "ds": ds, "p": p, "seed": draw(gen.seeds), "fit_many": draw(st.booleans()),
            "n": draw(st.one_of(st.integers(20, 140), st.integers(140, 400),
                                st.sampled_from([63, 64, 65, 127, 128, 129, 255, 256, 257])))}


def many(case, ctx):
    """hundreds of series: to predict, or also to learn from"""
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    rng = np.random.RandomState(case["seed"])
    base = [np.asarray(x) for x in X]
    t = min(x.shape[1] for x in base)
    T, ty = [], []
    for _ in range(case["n"]):
        i, j = rng.randint(len(base)), rng.randint(len(base))
        m = min(base[i].shape[1], base[j].shape[1])
        T.append(0.75 * base[i][:, :m] + 0.25 * base[j][:, :m] +
                 rng.randint(-40, 41, (base[i].shape[0], m)) / 32.0)
        ty.append(y[i])
    ty = np.array(ty)
    T = T if var else np.array(T)
    k = len(T)
    fitX, fity = (T, ty) if case["fit_many"] and min(np.bincount(ty)[np.unique(ty)]) > 1 and \
        len(set(ty.tolist())) > 1 else (X, y)
    rp = {"alphas": list(np.logspace(-4, 4, 20)), "class_weight": None, "fit_intercept": True}
    est = model.Ridge(**case["p"]).fit(fitX, fity)
    tr, decide, classes = manual(case["p"], rp, fitX, fity)
    if not model.same_shapelets(est.transformer.shapelets_, tr.shapelets_):
        raise Violation("%s, %d series: shapelets differ from those of R_DST" % (case["kind"],
                                                                               len(fitX)))
    if fitX is X and var:
        need = max((s["length"] - 1) * s["dilation"] + 1 for s in model.unpack(tr.shapelets_))
        if need > t:
            raise RuntimeError
    d = np.asarray(decide(T))
    pred = np.asarray(est.predict(T))
    if pred.shape != (k,):
        raise Violation("%s predictions for %d series" % (pred.shape, k))
    if d.ndim == 1:
        want, margin = classes[(d > 0).astype(int)], np.abs(d)
    else:
        want = classes[d.argmax(axis=1)]
        s = np.sort(d, axis=1)
        margin = s[:, -1] - s[:, -2]
    sure = margin > 1e-7 * (1 + np.abs(d).max())
    bad = np.where((pred != want) & sure)[0]
    if len(bad):
        raise Violation("%s: series %d of %d is predicted %s, the pipeline predicts %s"
                        % (case["kind"], bad[0], k, pred[bad[0]], want[bad[0]]))
    cut = int(rng.randint(1, k))
    for a, b in ((0, cut), (cut, k)):
        got = np.asarray(est.predict(T[a:b]))
        if got.shape != (b - a,) or np.any((got != pred[a:b]) & sure[a:b]):
            raise Violation("%s: series %d to %d of %d are predicted otherwise on their own"
                            % (case["kind"], a, b, k))
    if not abs(est.score(T, ty) - np.mean(pred == ty)) < 1e-12 and sure.all():
        raise Violation("score %r, fraction of correct predictions %r"
                        % (est.score(T, ty), float(np.mean(pred == ty))))
    ctx.label(case["kind"], "fitted on many" if fitX is T else "predicting many")
    ctx.nt(k > 64 and len(set(pred.tolist())) > 1)


@st.composite
def crowd_case(draw):
    return {"n": draw(st.one_of(st.integers(1000, 2600), st.sampled_from([1023, 1024, 1025, 2048,
                                                                          2049]))),
            "var": draw(st.booleans()), "phase": draw(st.booleans()),
            "k": draw(st.integers(2, 4)), "seed": draw(gen.seeds)}


def crowd(case, ctx):
    """more than a thousand series to predict and to score"""
    rng = np.random.RandomState(case["seed"])
    X = rng.randn(4 * case["k"], 1, 8)
    y = np.arange(len(X)) % case["k"]
    box = list if case["var"] else np.array
    est = model.Ridge(n_shapelets=6, shapelet_lengths=[3], random_state=case["seed"] % 1000,
                      phase_invariance=case["phase"]).fit(box(list(X)), y)
    w = rng.randint(0, 9, (case["n"], 1, 1)) / 8.0
    a, b = rng.randint(len(X), size=(2, case["n"]))
    T = X[a] * w + X[b] * (1 - w)
    pred = np.asarray(est.predict(box(list(T))))
    if pred.shape != (len(T),):
        raise Violation("%s predictions for %d series" % (pred.shape, len(T)))
    ty = y[a].copy()
    cut = int(rng.randint(len(T)))
    ty[cut:] = rng.permutation(ty[cut:])
    sc = est.score(box(list(T)), ty)
    if not abs(sc - np.mean(pred == ty)) < 1e-12:
        raise Violation("score of %d series %r, fraction of correct predictions %r"
                        % (len(T), sc, float(np.mean(pred == ty))))
    edges = np.unique(np.concatenate([rng.randint(0, len(T), 6), [0, len(T)]]))
    for i, j in zip(edges[:-1], edges[1:]):
        got = np.asarray(est.predict(box(list(T[i:j]))))
        d = np.asarray(est.classifier.decision_function(est.transformer.transform(
            box(list(T[i:j])))))
        if d.ndim == 1:
            sure = np.abs(d) > 1e-7
        else:
            s = np.sort(d, axis=1)
            sure = s[:, -1] - s[:, -2] > 1e-7
        if got.shape != (j - i,) or np.any((got != pred[i:j]) & sure):
            raise Violation("series %d to %d of %d are predicted otherwise on their own"
                            % (i, j, len(T)))
    ctx.nt(len(set(pred.tolist())) > 1)


def facets():
    return [
        Facet("crowd", crowd_case, crowd, 10, rule="1000 to 2600 series: predictions as in parts, "
              "score the fraction of correct predictions; non-trivial: several labels predicted"),
        Facet("many", many_case, many, 50, rule="the same for 20 to 400 series to predict, and "
              "to learn from; non-trivial: more than 64, several labels predicted"),
        Facet("pipeline", case_, check, 360, rule="shapelets, decision values, predictions, "
              "score against a pipeline built from its parts, on training series and blends of "
              "them; non-trivial: several labels predicted with clear margins"),
    ]
