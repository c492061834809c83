"""C11: fit replaces everything learned before: a refit equals a fresh fit."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model
from vf.prelude import numba
from .common import Facet, Violation
from .c16 import blends

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


@st.composite
def lengths_spec(draw, tmin):
    """length parameters valid for every dataset of the history (shortest tmin)"""
    w = draw(st.sampled_from(["int", "float", "bounds", "longer"]))
    if w == "int":
        return {"shapelet_lengths": sorted(set(draw(st.lists(st.integers(2, max(2, tmin)),
                                                             min_size=1, max_size=3))))}
    if w == "longer":       # clipped on some of the datasets only
        return {"shapelet_lengths": [draw(st.integers(tmin, tmin + 9))]}
    if w == "float":
        return {"shapelet_lengths": draw(st.lists(st.sampled_from([0.34, 0.5, 0.75, 1.0]),
                                                  min_size=1, max_size=2))}
    return {"shapelet_lengths_bounds": draw(st.sampled_from(
        [[3, 6], [0.3, 0.8], [0.5, 5], [2, 3], [0.1, 1.0]]))}


@st.composite
def history(draw, kinds, min_t=6, max_len=4, kindfix=False, clf=False):
    kind0 = draw(st.sampled_from(kinds))
    steps = []
    for i in range(draw(st.integers(1, max_len)) + 1):
        kind = kind0 if kindfix else draw(st.sampled_from(kinds))
        var, multi = kind.endswith("variable"), kind.startswith("multi")
        if clf:
            ds = draw(gen.clf_dataset(min_c=2 if multi else 1, max_c=3 if multi else 1,
                                      variable=var, min_t=8, max_t=16, max_n=8))
        else:
            ds = draw(gen.dataset(min_n=1, max_n=5, min_c=2 if multi else 1,
                                  max_c=4 if multi else 1, min_t=min_t, max_t=16,
                                  variable=var, n_classes=3))
        steps.append({"kind": kind, "ds": ds,
                      "then": draw(st.lists(st.sampled_from(["use", "use_other", "refit"]),
                                            max_size=2))})
    return steps


@st.composite
def tcase(draw):
    auto = draw(st.booleans())
    steps = draw(history(KINDS, kindfix=auto))
    p = {"n_shapelets": draw(st.integers(1, 12)),
         "alpha": draw(st.sampled_from([0.0, 0.5, 0.9])),
         "proba_norm": draw(st.sampled_from(gen.PROBAS)),
         "percentiles": draw(st.sampled_from(gen.PCTS)),
         "phase_invariance": draw(st.booleans()), "prime_dilations": draw(st.booleans()),
         "normalize_output": draw(st.booleans()),
         "random_state": draw(gen.seeds),
         "transform_type": "auto" if auto else steps[0]["kind"]}
    p.update(draw(lengths_spec(min(len(x[0]) for s in steps for x in s["ds"]["X"]))))
    kind = p["transform_type"]
    for s in steps:             # parameters changed before that fit
        s["set"] = {}
        if not auto and s["kind"] != kind:
            kind = s["set"]["transform_type"] = s["kind"]
        for n, v in (("phase_invariance", st.booleans()), ("normalize_output", st.booleans()),
                     ("prime_dilations", st.booleans()), ("n_shapelets", st.integers(1, 12)),
                     ("alpha", st.sampled_from([0.0, 0.5, 0.9])), ("random_state", gen.seeds),
                     ("n_samples", st.sampled_from([None, 1.0, 1.5])),
                     ("max_channels", st.sampled_from([None, 1, 2])),
                     ("percentiles", st.sampled_from(gen.PCTS)),
                     ("proba_norm", st.sampled_from(gen.PROBAS))):
            if draw(st.integers(0, 11)) == 0:
                s["set"][n] = draw(v)
    return {"p": p, "steps": steps}


def _data(s):
    return model.data(s["ds"], s["kind"].endswith("variable"))


def transformer(case, ctx):
    est = model.R_DST(**case["p"])
    changed = set()
    params = dict(case["p"])
    for i, s in enumerate(case["steps"]):
        X, y = _data(s)
        if s["set"]:
            est.set_params(**s["set"])
            params.update(s["set"])
            ctx.label("parameters changed")
        est.fit(X, y)
        for a in s["then"]:
            if a == "use":
                est.transform(X)
            elif a == "refit":
                est.fit(X, y)
            else:
                try:
                    est.transform(_data(case["steps"][i - 1])[0])
                except ValueError:
                    pass    # other channels or too short for a shapelet
        changed.add((len(X), len(X[0]), min(len(x[0]) for x in X), len(set(y))))
    X, y = _data(case["steps"][-1])
    numba._scramble(5)
    fresh = model.R_DST(**params).fit(X, y)
    if not model.same_shapelets(est.shapelets_, fresh.shapelets_):
        raise Violation("after %d earlier fits the shapelets differ from a fresh fit (%d and %d "
                        "shapelets, lengths %s and %s)" % (
                            len(case["steps"]) - 1, len(est.shapelets_[1]),
                            len(fresh.shapelets_[1]), sorted(set(est.shapelets_[1].tolist())),
                            sorted(set(fresh.shapelets_[1].tolist()))))
    if not model.equal(est.transform(X), fresh.transform(X)):
        raise Violation("after earlier fits the transform differs from a fresh fit")
    ctx.label(case["steps"][0]["kind"])
    ctx.nt(len(changed) > 1)


@st.composite
def ccase(draw):
    ens = draw(st.booleans())
    steps = draw(history(["univariate", "multivariate"] if ens else KINDS, clf=True, max_len=2))
    t = min(len(x[0]) for s in steps for x in s["ds"]["X"])
    p = draw(gen.clf_params(t))
    for s in steps:             # parameters changed before that fit
        s["set"] = {}
        for n, v in CLF_SET.items():
            if draw(st.integers(0, 9)) == 0:
                s["set"][n] = draw(v)
    return {"ens": ens, "p": p, "steps": steps, "jobs": draw(st.sampled_from([1, 2, 4, -1])),
            "seed": draw(gen.seeds)}


CLF_SET = {"alphas_ridge": st.sampled_from([[1.0], [50.0], [1000.0, 0.001, 1.0]]),
           "class_weight": st.sampled_from(["balanced", None]),
           "fit_intercept": st.booleans(), "random_state": gen.seeds,
           "phase_invariance": st.booleans(), "prime_dilations": st.booleans(),
           "normalize_output": st.booleans(), "n_shapelets": st.integers(6, 20),
           "alpha": st.sampled_from([0.25, 0.5, 0.75]),
           "percentiles": st.sampled_from([[5, 10], [20, 60], [10, 10]]),
           "proba_norm": st.sampled_from([0.0, 0.5, 0.8]),
           "a_w": st.sampled_from([0, 1, 4])}
ENS = {"n_shapelets": "n_shapelets_per_estimator", "alpha": "shp_alpha"}


def _settings(case, s):
    """the changed parameters, under the estimator's names"""
    q = dict(s["set"])
    if not case["ens"]:
        q.pop("a_w", None)
        return q
    if "proba_norm" in q:
        q["proba_norm"] = [q["proba_norm"], 0.3, 0.5]
    return {ENS.get(k, k): v for k, v in q.items()}


def _clf(case):
    p = dict(case["p"])
    if not case["ens"]:
        return model.Ridge(**p)
    from convst.transformers._input_transformers import Raw, Derivate, Periodigram
    return model.Ensemble(
        n_shapelets_per_estimator=p["n_shapelets"], shapelet_lengths=[3], n_jobs=case["jobs"],
        shp_alpha=p["alpha"], random_state=p["random_state"],
        phase_invariance=p["phase_invariance"], percentiles=p["percentiles"],
        proba_norm=[p["proba_norm"], 0.3, 0.5],
        input_transformers=[Raw(), Derivate(), Periodigram()])


def classifiers(case, ctx):
    clf, fresh = _clf(case), _clf(case)
    for i, s in enumerate(case["steps"]):
        X, y = _data(s)
        q = _settings(case, s)
        if q:
            clf.set_params(**q)
            fresh.set_params(**q)
            ctx.label("parameters changed")
        clf.fit(X, y)
        if "use" in s["then"]:
            clf.predict(X)
    var = case["steps"][-1]["kind"].endswith("variable")
    X, y = _data(case["steps"][-1])
    numba._scramble(5)
    fresh.fit(X, y)
    T = list(X) if var else np.concatenate([X, np.array(blends(X, y, case["seed"]))])
    if not model.equal(clf.predict(T), fresh.predict(T)):
        raise Violation("after earlier fits the %s predicts %s, a fresh one %s" % (
            "ensemble" if case["ens"] else "ridge", clf.predict(T), fresh.predict(T)))
    if case["ens"]:
        try:
            a, b = list(clf.model_weights), list(fresh.model_weights)
        except AttributeError:
            a = b = None
        if a != b:
            raise Violation("after earlier fits the member weights are %s, fresh %s" % (a, b))
    else:
        a, b = clf.transformer.shapelets_, fresh.transformer.shapelets_
        if not model.same_shapelets(a, b):
            raise Violation("after earlier fits the ridge classifier's shapelets differ")
        try:
            a, b = (c.classifier.decision_function(c.transformer.transform(T))
                    for c in (clf, fresh))
        except (AttributeError, TypeError, KeyError):
            a = b = None
        if a is not None and (a.shape != b.shape or np.abs(a - b).max() > 1e-9):
            raise Violation("after earlier fits the ridge classifier's decision values differ")
    ctx.label("ensemble" if case["ens"] else "ridge")
    ctx.nt(len(case["steps"]) > 1)


def _probe():
    """known finding: the kind resolved by 'auto' sticks to the transformer"""
    est = model.R_DST(n_shapelets=3, shapelet_lengths=[3], random_state=0)
    est.fit(np.arange(24.0).reshape(2, 1, 12) % 5, np.array([0, 1]))
    X2 = (np.arange(48.0) ** 2 % 7).reshape(2, 2, 12)
    try:
        est.fit(X2, np.array([0, 1]))
        bad = len(est.shapelets_) != 7
    except Exception:
        bad = True
    return ("auto-type-sticky: R_DST(transform_type='auto') fitted on univariate data and then "
            "on multivariate data keeps treating the data as univariate" if bad else None)


PROBES = [_probe]


def facets():
    return [
        Facet("transformer", tcase, transformer, 1200, rule="history of 1-4 fits with uses in "
              "between, then a fit compared bit by bit with a fresh estimator; non-trivial: "
              "the datasets differ in size, channels, length or classes"),
        Facet("classifiers", ccase, classifiers, 200, rule="the same for the ridge classifier "
              "(any change of input kind) and the ensemble; non-trivial: at least two fits"),
    ]
