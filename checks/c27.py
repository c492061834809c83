"""C27: ridge interpretation gives every coefficient to its own shapelet."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from .common import Facet, Skip, Violation


def interp():
    from convst.interpreters import RDST_Ridge_interpreter
    return RDST_Ridge_interpreter


@st.composite
def case_(draw, want_show=False):
    ds = draw(gen.clf_dataset(min_n=6, max_n=10, min_t=8, max_t=16, max_classes=4,
                              variable=False))
    t = len(ds["X"][0][0])
    p = draw(gen.clf_params(t))
    if p["n_shapelets"] < 40:
        p["n_shapelets"] = draw(st.integers(3, 12))
    if draw(st.booleans()):
        # many identical series leave constant features behind
        p["percentiles"] = draw(st.sampled_from([[0, 0], [100, 100], [95, 100]]))
    return {"ds": ds, "p": p, "cls": draw(st.integers(0, 3)),
            "n_shp": draw(st.one_of(st.integers(1, 14), st.integers(1, 14), st.just(40))), "seed": draw(gen.seeds),
            "intercept": draw(st.booleans()),
            "weight": draw(st.sampled_from([None, "balanced"])),
            "reads": draw(st.lists(st.integers(0, 3), max_size=3)),
            "Xseed": draw(gen.seeds), "test_set": draw(st.booleans()),
            "before": draw(st.integers(0, 3)) == 0, "early": draw(st.booleans())}


def fitted(case):
    X, y = model.data(case["ds"])
    est = model.Ridge(fit_intercept=case["intercept"], class_weight=case["weight"],
                      n_jobs=1, **case["p"])
    I = None
    if case["before"]:
        # fitted before, on other series of other classes; perhaps interpreted as well
        rng = np.random.RandomState(case["Xseed"])
        est.fit(rng.randint(-300, 300, size=(8,) + X.shape[1:]) / 32.0,
                np.arange(8) % (2 + case["seed"] % 2))
        if case["early"]:
            I = interp()(est)
            if hasattr(I, "_get_shp_importance"):
                I._get_shp_importance(case["seed"] % 2)
    est.fit(X, y)
    return est, X, y, I or interp()(est)


def expected(est, X, y, k):
    F = np.asarray(est.transformer.transform(X))
    useful = np.array([len(np.unique(F[:, j])) > 1 for j in range(F.shape[1])])
    ridge = est.classifier[-1]
    coef = np.asarray(ridge.coef_)
    if coef.shape[0] == 1:
        row = coef[0] if k == 1 else -coef[0]
    else:
        row = coef[k]
    if useful.sum() != len(row):
        raise Violation("%d features are not constant, the ridge has %d coefficients"
                        % (useful.sum(), len(row)))
    out = np.zeros(F.shape[1])
    out[useful] = row
    return F, useful, out


def importance(case, ctx):
    est, X, y, I = fitted(case)
    n_classes = len(set(y.tolist()))
    if not hasattr(I, "_get_shp_importance"):
        raise Skip("no _get_shp_importance")
    for k in case["reads"]:
        I._get_shp_importance(k % n_classes)
    for k in range(n_classes):
        F, useful, want = expected(est, X, y, k)
        got = np.asarray(I._get_shp_importance(k))
        if got.shape != want.shape:
            raise Violation("importance has shape %s, there are %d features"
                            % (got.shape, len(want)))
        if not np.array_equal(got, want):
            j = int(np.where(got != want)[0][0])
            raise Violation("importance of feature %d (%s of shapelet %d) for class %d of %d "
                            "is %r, its ridge coefficient is %r" % (
                                j, ["min", "argmin", "occurrence"][j % 3], j // 3, k,
                                n_classes, got[j], want[j]))
        # the importance explains the decision
        mu, sd = F.mean(axis=0), F.std(axis=0)
        Z = np.where(useful, (F - mu) / np.where(useful, sd, 1), 0)
        dec = est.classifier.decision_function(F)
        dec = dec[:, k] if dec.ndim == 2 else (dec if k == 1 else -dec)
        ridge = est.classifier[-1]
        b = np.atleast_1d(ridge.intercept_)
        b = b[k] if len(b) > 1 else (b[0] if k == 1 else -b[0])
        err = np.abs(Z @ got + b - dec).max()
        if err > 1e-5 * (1 + np.abs(dec).max()):
            raise Violation("importance of class %d does not add up to the decision (off by %g)"
                            % (k, err))
        ctx.label("dropped features" if not useful.all() else "none dropped")
    ctx.nt(len(useful) > 3)
    ctx.label("%d classes" % n_classes)


def show(case, ctx):
    from matplotlib import pyplot as plt
    est, X, y, I = fitted(case)
    n_classes = len(set(y.tolist()))
    k = case["cls"] % n_classes
    _, _, imp = expected(est, X, y, k)
    Xs, ys = X, y
    if case["test_set"]:
        rng = np.random.RandomState(case["Xseed"])
        Xs = rng.randint(-300, 300, size=(7,) + X.shape[1:]) / 32.0
        ys = np.array([k, (k + 1) % n_classes] + list(rng.randint(0, n_classes, 5)))
    Fs = np.asarray(est.transformer.transform(Xs))
    shps = model.unpack(est.transformer.shapelets_)
    kx, ky = Xs.copy(), ys.copy()
    np.random.seed(case["seed"])
    plt.reset()
    I.visualize_best_shapelets_one_class(Xs, ys, k, n_shp=case["n_shp"])
    log = list(plt.log)
    figs = [kw["_fig"] for r, m, a, kw in log if m == "subplots"]
    best = np.sort(imp.reshape(-1, 3).max(axis=1))[::-1]
    n = min(case["n_shp"], len(shps))
    per = {f: [] for f in figs}
    for r, m, a, kw in log:
        name = kw["ax"]._name if m == "boxplot" and kw.get("ax") is not None else r
        if name.startswith("fig") and "[" in name:
            per[int(name[3:name.index("[")])].append((name, m, a, kw))
    figs = [f for f in figs if per[f]]
    if len(figs) != n:
        raise Violation("%d shapelets drawn, %d asked among %d" % (len(figs), case["n_shp"],
                                                                  len(shps)))
    m_of = imp.reshape(-1, 3).max(axis=1)
    used = set()
    member = (ys == k)
    for q, f in enumerate(figs):
        rec = per[f]
        titles = {nm: str(a[0]).lower() for nm, m, a, kw in rec if m == "set_title" and a}
        feats = {}
        for nm, m, a, kw in rec:
            if m != "boxplot":
                continue
            t = titles.get(nm, "")
            which = 1 if "argmin" in t else 0 if "min" in t else 2 if "occur" in t else None
            if "x" not in kw or "y" not in kw:
                if a or "data" in kw:
                    raise Skip("unknown boxplot")
                raise Violation("a boxplot is given no %s" % ("values" if "x" in kw else
                                                              "groups"))
            if which is None:
                raise Violation("a boxplot is titled %r: which feature it shows is not said" % t)
            if which in feats:
                raise Violation("two boxplots of one feature")
            feats[which] = np.asarray(kw["y"], dtype=float)
            gx = np.asarray(kw["x"])
            if not np.array_equal(gx.astype(int), member.astype(int)):
                raise Violation("boxplot groups %s, members of class %d are %s"
                                % (gx.tolist(), k, member.astype(int).tolist()))
            ticks = [a_[0] for n_, m_, a_, kw_ in rec if n_ == nm and m_ == "set_xticklabels" and a_]
            if not ticks or len(ticks[-1]) != 2 or "other" not in str(ticks[-1][0]).lower() \
                    or "other" in str(ticks[-1][1]).lower() or str(k) not in str(ticks[-1][1]):
                raise Violation("the groups (others, class %d) of the boxplot titled %r are "
                                "labelled %s" % (k, t, ticks))
        if sorted(feats) != [0, 1, 2]:
            raise Violation("features drawn: %s" % sorted(feats))
        drawn = [np.asarray(a[-1], dtype=float) for nm, m, a, kw in rec
                 if m == "plot" and "label" not in kw]
        ok = []
        for j, s in enumerate(shps):
            if j in used or not all(np.array_equal(feats[b], Fs[:, 3 * j + b])
                                    for b in range(3)):
                continue
            if drawn and not any(np.array_equal(v, s["values"][0]) for v in drawn):
                continue
            ok.append(j)
        if not ok:
            raise Violation("figure %d shows features or values that are of no (unused) "
                            "shapelet, or of two different ones" % q)
        hit = [j for j in ok if m_of[j] == best[q]]
        if not hit:
            raise Violation("figure %d shows shapelet %s (largest coefficient %r), rank %d of "
                            "class %d is owned by another (%r)" % (
                                q, ok, m_of[ok[0]], q, k, best[q]))
        j = hit[0]
        used.add(j)
        s = shps[j]
        if not drawn:
            raise Violation("figure %d does not draw the values of its shapelet" % q)
        # examples: one of the class, one of the others, each with its series and its distances
        seen, axes = {}, {}
        for nm, m, a, kw in rec:
            if m != "plot" or kw.get("label") is None:
                continue
            v = np.asarray(a[-1], dtype=float)
            want_member = "other" not in str(kw["label"]).lower()
            if want_member and str(k) not in str(kw["label"]):
                raise Violation("example of class %d labelled %r" % (k, kw["label"]))
            idx = np.where(member == want_member)[0]
            what, same = "series", [i for i in idx if np.array_equal(v, Xs[i, 0])]
            if not same:
                dv = [oracle.dist_vector(Xs[i], s, case["p"]["phase_invariance"])
                      for i in idx]
                tol = 1e-6 * max(1, s["length"]) * max(1.0, np.abs(Xs).max() * 1e-3)
                what, same = "distances", [i for i, d in zip(idx, dv) if d.shape == v.shape
                                           and np.abs(d - v).max() <= tol]
            if not same:
                raise Violation("the example labelled %r is of no such series" % kw["label"])
            seen.setdefault((want_member, what), set()).update(same)
            axes.setdefault(what, set()).add(nm)
        for g in (True, False):
            if not seen.get((g, "series")) or not seen.get((g, "distances")):
                raise Violation("figure %d lacks the series or the distance vector of an example "
                                "%s class %d" % (q, "of" if g else "outside", k))
            if not seen[g, "series"] & seen[g, "distances"]:
                raise Violation("the series and the distance vector labelled alike in figure %d "
                                "are of different examples" % q)
        val = {nm for nm, m, a, kw in rec if m == "plot" and "label" not in kw}
        box = {kw["ax"]._name for nm, m, a, kw in rec if m == "boxplot"}
        if len(axes["series"]) != 1 or len(axes["distances"]) != 1 or \
                len(val | axes["series"] | axes["distances"] | box) != 6:
            raise Violation("figure %d draws on top of another panel: %s" % (
                q, [sorted(x) for x in (val, axes["series"], axes["distances"], box)]))
        for what, word in (("series", "match"), ("distances", "distance")):
            t = titles.get(list(axes[what])[0], "")
            if word not in t:
                raise Violation("the panel of the examples' %s is titled %r" % (what, t))
    if not (np.array_equal(kx, Xs) and np.array_equal(ky, ys)):
        raise Violation("the plot changed its input")
    ctx.nt(n > 1 and len(shps) > 2)
    if case["before"]:
        ctx.label("interpreted before the fit" if case["early"] else "fitted before")
    ctx.label("%d classes" % n_classes, "all shown" if n == len(shps) else "some shown",
              "class %d" % k)


@st.composite
def refuse_case(draw):
    return {"what": draw(st.sampled_from(["unfitted", "rdst", "fake", "multivariate"])),
            "seed": draw(gen.seeds)}


def refuse(case, ctx):
    rng = np.random.RandomState(case["seed"])
    X = rng.randn(8, 2 if case["what"] == "multivariate" else 1, 14)
    y = np.arange(8) % 2
    ctx.nt()
    ctx.label(case["what"])
    kw = dict(n_shapelets=4, shapelet_lengths=[3], random_state=1)
    if case["what"] == "unfitted":
        o = model.Ridge(**kw)
    elif case["what"] == "rdst":
        o = model.R_DST(**kw).fit(X, y)
    elif case["what"] == "fake":
        class Fake:
            def fit(self, X, y):
                return self
        o = Fake()
        r = model.Ridge(**kw).fit(X, y)
        o.classifier, o.transformer = r.classifier, r.transformer
    else:
        o = model.Ridge(**kw).fit(X, y)
    try:
        I = interp()(o)
        if case["what"] == "multivariate":
            I.visualize_best_shapelets_one_class(X, y, 0)
    except Exception:
        return
    raise Violation("accepted: %s" % case["what"])


def facets():
    return [
        Facet("importance", case_, importance, 320, rule="more than one shapelet"),
        Facet("best", case_, show, 320, rule="several of several shapelets drawn"),
        Facet("refusals", refuse_case, refuse, 60, rule="every case"),
    ]
