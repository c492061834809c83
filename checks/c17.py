"""C17: the ensemble is the weighted soft vote of its members, in the caller's labels."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model
from .common import Facet, Skip, Violation
from .c16 import LABELS, blends

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
TR = [["raw"], ["diff", 1], ["diff", 2], ["per", "boxcar"], ["per", "hann"], ["znorm"],
      ["hankel"]]


def transformer(t):
    from convst.transformers import _input_transformers as m
    return {"raw": m.Raw, "diff": lambda: m.Derivate(order=t[1]),
            "per": lambda: m.Periodigram(window_type=t[1]), "znorm": m.Z_normalizer,
            "hankel": lambda: m.FastHankelTransform(dln=0.1, mu=0.5)}[t[0]]()


@st.composite
def case_(draw, vote=True):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    ds = draw(gen.clf_dataset(variable=var, min_t=12, max_t=18, min_c=2 if multi else 1,
                              max_c=2 if multi else 1, max_n=9))
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5]))
    trs = [["raw"] if var else draw(st.sampled_from(TR)) for _ in range(k)]
    p = {
        "n_shapelets_per_estimator": draw(st.integers(5, 10)),
        "shapelet_lengths": draw(st.sampled_from([[3], [4], [3, 4]])),
        "shp_alpha": draw(st.sampled_from([0.25, 0.5, 0.75])),
        "a_w": draw(st.sampled_from([0, 1, 2, 4, 4, 0.5])),
        "proba_norm": [draw(st.sampled_from([0.0, 0.5, 0.8])) for _ in trs],
        "percentiles": draw(st.sampled_from([[5, 10], [20, 60], [10, 10]])),
        "phase_invariance": draw(st.booleans()),
        "prime_dilations": draw(st.booleans()),
        "random_state": draw(gen.seeds),
    }
    opts = {"normalize_output": st.booleans(), "n_samples": st.sampled_from([0.6, 0.75]),
            "shapelet_lengths_bounds": st.just([3, 4]),
            "lengths_bounds_reduction": st.sampled_from([0.0, 0.5]),
            "class_weight": st.sampled_from(["balanced", "dict"]), "fit_intercept": st.just(False),
            "alphas_ridge": st.sampled_from([[1.0], [0.1, 10.0], [1000.0, 1e-3, 1.0]]),
            "max_channels": st.just(1), "n_jobs": st.sampled_from([2, -1, 5]),
            "prefer": st.just("threads")}
    if var:
        t = min(len(x[0]) for x in ds["X"])
        opts["min_len"] = st.sampled_from([t, t - 1, t - 3])
    # one channel may be treated as a multivariate series
    opts["transform_type"] = st.sampled_from([kind, kind.replace("uni", "multi")])
    for n in sorted(opts):
        if draw(st.integers(0, 4)) == 0:
            p[n] = draw(opts[n])
    return {"kind": kind, "ds": ds, "trs": trs, "p": p, "seed": draw(gen.seeds),
            "labels": draw(st.sampled_from(LABELS[:5])),
            "labels2": draw(st.sampled_from(LABELS[:5])),
            "order": draw(st.integers(0, 20)),
            "many": draw(st.sampled_from([8] * 9 + [60, 130, 260]))}


def setup(case, labels):
    var = case["kind"].endswith("variable")
    X, y0 = model.data(case["ds"], var)
    y = np.array([labels[v] for v in y0])
    if var:
        T = list(X) + [b for b in blends(X, y, case["seed"], case["many"])
                       if b.shape[1] >= min(x.shape[1] for x in X)]
    else:
        T = np.array(list(X) + blends(X, y, case["seed"], case["many"]))
    return X, y, T


def ensemble(case, X, y):
    p = dict(case["p"], class_weight=weights(case, y))
    return model.Ensemble(input_transformers=[transformer(t) for t in case["trs"]],
                          **p).fit(X, y)


def weights(case, y):
    w = case["p"].get("class_weight")
    if w == "dict":
        return dict(zip(sorted(set(y.tolist())), [3.0, 0.5, 1.0, 2.0] * 3))
    return w


def member(case, i, seed, X, y):
    """member i rebuilt from its parts: (shapelets, loo accuracy, proba function)"""
    from sklearn.linear_model import RidgeClassifierCV
    from sklearn.metrics import accuracy_score, make_scorer
    p = case["p"]
    tp = {k: p[k] for k in ("n_samples", "shapelet_lengths", "phase_invariance",
                            "normalize_output", "prime_dilations", "shapelet_lengths_bounds",
                            "lengths_bounds_reduction", "percentiles", "max_channels", "min_len",
                            "transform_type") if k in p}
    tf = transformer(case["trs"][i])
    tr = model.R_DST(n_shapelets=p["n_shapelets_per_estimator"], alpha=p["shp_alpha"],
                     proba_norm=p["proba_norm"][i], random_state=seed, **tp)
    D = tf.fit_transform(X, y)
    F = np.asarray(tr.fit(D, y).transform(D))
    m = F.mean(axis=0)
    s = F.std(axis=0)
    const = np.array([len(set(c.tolist())) == 1 for c in F.T])
    s = np.where(const, 1.0, s)
    Z = np.where(const, 0.0, (F - m) / s)
    alphas = p.get("alphas_ridge", list(np.logspace(-4, 4, 20)))
    clf = RidgeClassifierCV(alphas=alphas, fit_intercept=p.get("fit_intercept", True),
                            class_weight=weights(case, y), store_cv_values=True,
                            scoring=make_scorer(accuracy_score)).fit(Z, y)
    cv = clf.cv_values_[:, :, list(alphas).index(clf.alpha_)]
    classes = np.array(sorted(set(y.tolist())))
    loo = classes[(cv[:, 0] > 0).astype(int)] if len(classes) == 2 else classes[cv.argmax(1)]
    near = np.abs(cv).min() < 1e-9 if len(classes) == 2 else \
        (np.diff(np.sort(cv, axis=1)[:, -2:], axis=1) < 1e-9).any()

    def proba(T):
        G = np.asarray(tr.transform(tf.transform(T)))
        H = np.where(const, (G - m), (G - m) / s)
        d = clf.decision_function(H)
        if d.ndim == 1:
            d = np.stack([-d, d], axis=1)
        e = np.exp(d - d.max(axis=1, keepdims=True))
        return e / e.sum(axis=1, keepdims=True)
    return tr, float(np.mean(loo == y)), near, proba, classes


def line(ens, T, pred, case, var, tmin):
    """more series: the segment between two series of different predicted labels
    (the votes are close to each other somewhere on it)"""
    rng = np.random.RandomState(case["seed"] + 7)
    a = rng.randint(len(T))
    other = [i for i in range(len(T)) if pred[i] != pred[a]] if pred.shape == (len(T),) else []
    if not other:
        return T, pred
    b = other[rng.randint(len(other))]
    u, v = np.asarray(T[a]), np.asarray(T[b])
    t = min(u.shape[1], v.shape[1])
    more = [u[:, :t] + (v[:, :t] - u[:, :t]) * k / 24.0 for k in range(1, 24)]
    more_p = np.asarray(ens.predict(more if var else np.array(more)))
    return (list(T) + more if var else np.concatenate([T, more])), \
        np.concatenate([pred, more_p])


def vote(case, ctx):
    var = case["kind"].endswith("variable")
    X, y, T = setup(case, case["labels"])
    ens = ensemble(case, X, y)
    pred = np.asarray(ens.predict(T))
    T, pred = line(ens, T, pred, case, var, min(x.shape[1] for x in X))
    what = "%s, members %s" % (case["kind"], case["trs"])
    if pred.shape != (len(T),):
        raise Violation("%s: predictions %s for %d series" % (what, pred.shape, len(T)))
    if not set(pred.tolist()) <= set(y.tolist()):
        raise Violation("%s: predicts %s, trained on %s" % (
            what, sorted(set(pred.tolist())), sorted(set(y.tolist()))))
    try:
        stages = [[s for _, s in m.steps] for m in ens.models]
        seeds = [[s for s in ss if hasattr(s, "shapelets_")][0].random_state for ss in stages]
        own = [[s for s in ss if hasattr(s, "shapelets_")][0].shapelets_ for ss in stages]
    except (AttributeError, IndexError, TypeError):
        raise Skip("members are not reachable")
    if len(own) != len(case["trs"]):
        raise Violation("%s: %d members fitted" % (what, len(own)))
    total = 0.0
    clear = True
    for i, s in enumerate(seeds):
        tr, acc, near, proba, classes = member(case, i, s, X, y)
        if not model.same_shapelets(tr.shapelets_, own[i]):
            raise Violation("%s: member %d has other shapelets than a transformer with the "
                            "ensemble's parameters and its seed" % (what, i))
        w = acc ** case["p"]["a_w"]
        if hasattr(ens, "model_weights") and not near and \
                not abs(float(ens.model_weights[i]) - w) < 1e-9:
            raise Violation("%s: weight of member %d is %r, leave-one-out accuracy %r ** %r"
                            % (what, i, float(ens.model_weights[i]), acc, case["p"]["a_w"]))
        clear = clear and not near
        P = proba(T)
        if hasattr(ens.models[i], "predict_proba"):
            Q = np.asarray(ens.models[i].predict_proba(T))
            if Q.shape != P.shape or not np.abs(P - Q).max() < 1e-6:
                raise Violation("%s: class probabilities of member %d are not the softmax of "
                                "its ridge decision values: %s, %s" % (
                                    what, i, Q[0].tolist(), P[0].tolist()))
        total = total + w * P
    if not clear:
        raise Skip("a leave-one-out prediction on the boundary")
    s = np.sort(total, axis=1)
    sure = s[:, -1] - s[:, -2] > 1e-7
    want = classes[total.argmax(axis=1)]
    bad = np.where((want != pred) & sure)[0]
    if len(bad):
        raise Violation("%s: series %d is predicted %s, the weighted vote %s gives %s" % (
            what, bad[0], pred[bad[0]], total[bad[0]].tolist(), want[bad[0]]))
    o = np.random.RandomState(case["seed"]).permutation(len(T))[:3]
    sub = np.asarray(ens.predict([T[i] for i in o] if var else T[o]))
    if np.any((sub != pred[o]) & sure[o]):
        raise Violation("%s: predictions depend on the other series" % what)
    box = [T[i] for i in np.sort(o)] if var else T[np.sort(o)]
    ens.predict(box)
    box[:] = [T[i] for i in o] if var else T[o]
    sub = np.asarray(ens.predict(box))
    if np.any((sub != pred[o]) & sure[o]):
        raise Violation("%s: predictions of an array given again with other content" % what)
    ctx.label(case["kind"], "%d members" % len(seeds), "%d classes" % len(classes))
    ctx.nt(len(seeds) > 1 and len(set(pred.tolist())) > 1 and case["p"]["a_w"] != 0)


def rename(case, ctx):
    import joblib
    X, y, T = setup(case, case["labels"])
    X2, y2, _ = setup(case, case["labels2"])
    a = ensemble(case, X, y)
    pa = np.asarray(a.predict(T))
    m = dict(zip(y.tolist(), y2.tolist()))
    if len(m) != len(set(m.values())):
        raise RuntimeError
    b = ensemble(case, X2, y2)
    pb = np.asarray(b.predict(T))
    want = [m.get(v) for v in pa.tolist()]
    if pb.tolist() != want:
        i = [u == v for u, v in zip(pb.tolist(), want)].index(False)
        raise Violation("renaming labels %s changes the prediction of series %d from %s to %s"
                        % (m, i, pa[i], pb[i]))
    joblib.exec_order = case["order"]
    c = ensemble(case, X, y)
    pc = np.asarray(c.predict(T))
    joblib.exec_order = 0
    if pc.tolist() != pa.tolist():
        raise Violation("executing the members in another order (%d) changes predictions"
                        % case["order"])
    for o, w in ((b, "renaming labels %s" % m), (c, "another execution order")):
        if hasattr(a, "model_weights") and not np.allclose(
                np.asarray(a.model_weights, dtype=float),
                np.asarray(o.model_weights, dtype=float), rtol=0, atol=1e-12):
            raise Violation("%s changes the weights: %s, %s"
                            % (w, a.model_weights, o.model_weights))
    ctx.label(case["kind"], "order%d" % min(case["order"], 2))
    ctx.nt(len(set(pa.tolist())) > 1 and case["labels"] != case["labels2"])


def _probe():
    """known finding: the default input representations on variable-length data"""
    from convst.classifiers import R_DST_Ensemble
    rng = np.random.RandomState(0)
    X = [rng.randn(1, 20 + i) for i in range(6)]
    try:
        R_DST_Ensemble(n_shapelets_per_estimator=5, shapelet_lengths=[3],
                       random_state=0).fit(X, np.array([0, 1] * 3)).predict(X)
    except (TypeError, ValueError) as e:
        return ("default-transformers-variable-length: R_DST_Ensemble with its default input "
                "representations on a list of variable-length series raises %s"
                % type(e).__name__)
    return None


PROBES = [_probe]


def facets():
    return [
        Facet("vote", case_, vote, 250, rule="weights and predictions against a vote computed "
              "from rebuilt members; non-trivial: several members, several labels predicted, "
              "non-zero power"),
        Facet("rename", case_, rename, 200, rule="order-preserving renaming, execution order; "
              "non-trivial: different label sets, several labels predicted"),
    ]
