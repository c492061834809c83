"""C34: output normalisation divides position and occurrence by the series length."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model
from .c17 import transformer
from .common import Facet, Skip, Violation, large_case, large_data, large_params, some, spelt_out

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


@st.composite
def case_(draw):
    kind = draw(st.sampled_from(KINDS))
    multi, var = kind.startswith("multi"), kind.endswith("variable")
    ds = draw(gen.dataset(min_n=1, max_n=6, min_c=2 if multi else 1, max_c=3 if multi else 1,
                          min_t=4, max_t=20, variable=var, mixed=False))
    t = min(len(x[0]) for x in ds["X"])
    p = draw(gen.rdst_params(t, max_shp=14, max_c=len(ds["X"][0])))
    p["shapelet_lengths"] = sorted({min(v, t) for v in p["shapelet_lengths"]})
    p.update(draw(spelt_out(t)))
    p.pop("normalize_output", None)
    new = draw(gen.dataset(min_n=1, max_n=4, min_c=len(ds["X"][0]), max_c=len(ds["X"][0]),
                           min_t=max(3, t - 9), max_t=t + 9, variable=var, mixed=False))
    return {"kind": kind, "ds": ds, "p": p, "new": new["X"], "auto": draw(st.booleans()),
            "set_params": draw(st.booleans()), "copies": draw(st.integers(0, 2))}


def scaled(F, G, lens, what):
    """G is F with positions and occurrences divided by the lengths"""
    F, G, lens = np.asarray(F), np.asarray(G), np.asarray(lens, dtype=float)
    if F.shape != G.shape:
        raise Violation("%s: output shapes %s and %s" % (what, F.shape, G.shape))
    if not np.array_equal(F[:, 0::3], G[:, 0::3]):
        i, j = [int(v[0]) for v in np.where(F[:, 0::3] != G[:, 0::3])]
        raise Violation("%s: the minimum of series %d to shapelet %d is %r, without "
                        "normalisation %r" % (what, i, j, G[i, 3 * j], F[i, 3 * j]))
    for k, name in ((1, "position"), (2, "occurrence")):
        want = F[:, k::3] / lens[:, None]
        bad = np.abs(G[:, k::3] - want) > 1e-12
        if bad.any():
            i, j = [int(v[0]) for v in np.where(bad)]
            raise Violation("%s: %s of series %d (%d points) for shapelet %d is %r, without "
                            "normalisation %r" % (what, name, i, lens[i], j, G[i, 3 * j + k],
                                                  F[i, 3 * j + k]))
        if G.size and (G[:, k::3].min() < 0 or G[:, k::3].max() > 1):
            raise Violation("%s: %s outside [0,1]" % (what, name))


def transform(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    new = gen.to_list(case["new"]) if var else gen.to_array(case["new"])
    tt = "auto" if case["auto"] else case["kind"]
    off = model.R_DST(transform_type=tt, **case["p"])
    if case["set_params"]:
        on = model.R_DST(transform_type=tt, **case["p"])
        on.set_params(normalize_output=True)
    else:
        on = model.R_DST(transform_type=tt, normalize_output=True, **case["p"])
    off.fit(X, y)
    on.fit(X, y)
    if not model.same_shapelets(off.shapelets_, on.shapelets_):
        raise Violation("the option changes the shapelets")
    need = 3
    if not case["p"]["phase_invariance"]:
        need = max([3] + [int((s["length"] - 1) * s["dilation"]) + 1
                          for s in model.unpack(off.shapelets_)])
    long = [x if x.shape[1] >= need else np.tile(x, (1, need))[:, :need] for x in new]
    new = long if var else np.array(long)
    if new[0].shape[1] < X[0].shape[1]:
        ctx.label("shorter than trained")
    for name, D in (("training data", X), ("other data", new)):
        lens = [x.shape[1] for x in D]
        keep = [x.copy() for x in D]
        F, G = off.transform(D), on.transform(D)
        scaled(F, G, lens, name)
        for _ in range(case["copies"]):
            if not np.array_equal(G, on.transform(D)):
                raise Violation("%s: a second transform differs" % name)
        if not all(np.array_equal(a, b) for a, b in zip(keep, D)):
            raise Violation("the data was changed")
    k = len(model.unpack(off.shapelets_))
    ctx.nt(k > 0 and (np.asarray(off.transform(X))[:, 1::3] > 0).any())
    ctx.label(case["kind"], "phase" if case["p"]["phase_invariance"] else "no phase")
    if var and len({x.shape[1] for x in new}) > 1:
        ctx.label("lengths differ")


@st.composite
def clf_case(draw):
    which = draw(st.sampled_from(["ridge", "ridge", "ensemble"]))
    kind = draw(st.sampled_from(KINDS))
    multi, var = kind.startswith("multi"), kind.endswith("variable")
    ds = draw(gen.clf_dataset(variable=var, min_t=10, max_t=16, min_c=2 if multi else 1,
                              max_c=2 if multi else 1))
    trs = [["raw"]] if var else draw(st.lists(st.sampled_from(
        [["raw"], ["diff", 1], ["diff", 2], ["per", "boxcar"]]), min_size=1, max_size=2))
    return {"which": which, "kind": kind, "ds": ds, "trs": trs,
            "phase": draw(st.booleans()), "seed": draw(gen.seeds),
            "len": draw(st.sampled_from([3, 4])),
            "more": draw(st.fixed_dictionaries({}, optional={
                "n_samples": st.sampled_from([None, 1.0, 0.8, 0.5]),
                "n_jobs": st.sampled_from([None, 1, 2, 3, -1]),
                "prime_dilations": st.booleans(),
                "shapelet_lengths_bounds": st.sampled_from([None, [3, 4], [3, 5]]),
                "lengths_bounds_reduction": st.sampled_from([0.0, 0.5]),
                "percentiles": st.sampled_from([[5, 10], [20, 60], [0, 100]]),
                "class_weight": st.sampled_from([None, "balanced"])}))}


def rdst_of(pipe):
    from convst.transformers import R_DST
    steps = [s for _, s in getattr(pipe, "steps", [])]
    for i, s in enumerate(steps):
        if isinstance(s, R_DST):
            return i, s
    raise Skip("unknown layout of the ensemble's members")


def clf(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    kw = dict(shapelet_lengths=[case["len"]], phase_invariance=case["phase"],
              random_state=case["seed"], **case.get("more", {}))
    members = {}
    for norm in (False, True):
        if case["which"] == "ridge":
            e = model.Ridge(n_shapelets=8, normalize_output=norm, **kw).fit(X, y)
            members[norm] = [(e.transformer, X)]
            F = e.transformer.transform(X)
            if not np.array_equal(e.predict(X), e.classifier.predict(F)):
                raise Violation("predictions do not use the transformed features")
        else:
            tr = [transformer(t) for t in case["trs"]]
            e = model.Ensemble(input_transformers=tr, proba_norm=[0.5] * len(tr),
                               n_shapelets_per_estimator=8, normalize_output=norm,
                               **kw).fit(X, y)
            members[norm] = []
            for m in getattr(e, "models", None) or []:
                i, s = rdst_of(m)
                D = X
                for _, q in m.steps[:i]:
                    D = q.transform(D)
                members[norm].append((s, D))
            if not members[norm]:
                raise Skip("unknown layout of the ensemble")
    for i, ((a, D), (b, E)) in enumerate(zip(members[False], members[True])):
        if not model.same_shapelets(a.shapelets_, b.shapelets_):
            raise Violation("the option changes the shapelets of member %d" % i)
        scaled(a.transform(D), b.transform(E), [x.shape[1] for x in D],
               "%s, member %d" % (case["which"], i))
        if D[0].shape[1] != X[0].shape[1]:
            ctx.label("derived series of another length")
    ctx.nt()
    ctx.label(case["which"], case["kind"], *["with " + q for q in case.get("more", {})])


def large(case, ctx):
    X, y = large_data(case)
    p = large_params(case, X)
    off = model.R_DST(**p).fit(X, y)
    on = model.R_DST(**dict(p, normalize_output=True)).fit(X, y)
    if not model.same_shapelets(off.shapelets_, on.shapelets_):
        raise Violation("the option changes the shapelets")
    T = some(X, case, 3)
    F = np.asarray(off.transform(T))
    scaled(F, on.transform(T), [x.shape[1] for x in T], "%s, %d series" % (case["kind"], len(T)))
    ctx.label(case["kind"], "axis %s" % case["axis"])
    ctx.nt(F.shape[1] > 3 and (F[:, 1::3] > 0).any())


@st.composite
def length_case(draw):
    i = st.integers
    return {"from": draw(st.one_of(i(4, 60), i(4, 1000))), "C": draw(i(1, 2)),
            "n": draw(st.one_of(i(2, 12), i(12, 120))), "seed": draw(gen.seeds),
            "phase": draw(st.booleans()), "obj": draw(st.booleans())}


def lengths(case, ctx):
    """many consecutive lengths in one collection, in any order, some repeated"""
    rng = np.random.RandomState(case["seed"])
    C, t0 = case["C"], case["from"]
    T = rng.permutation(np.r_[np.arange(t0, t0 + case["n"]), t0 + rng.randint(case["n"], size=3)])
    Xl = [rng.randint(-64, 65, size=(C, t)) / 16.0 for t in T]
    shps = [{"length": L, "dilation": 1, "norm": L == 3, "channels": list(range(C)),
             "values": [rng.randint(-64, 65, size=L) / 16.0 for _ in range(C)],
             "threshold": [1e9, 4.0 * C][L % 2]} for L in (2, 3)]
    data = Xl
    if case["obj"]:
        data = np.empty(len(Xl), dtype=object)
        data[:] = Xl
    F, G = [np.asarray(model.crafted(model.kind_of(C, True), case["phase"], shps, n_channels=C,
                                     normalize_output=q).transform(data)) for q in (False, True)]
    scaled(F, G, T, "%d lengths from %d" % (case["n"], t0))
    ctx.label("%d+ lengths" % (case["n"] // 40 * 40))
    ctx.nt()


def facets():
    return [
        Facet("lengths", length_case, lengths, 120, rule="up to 120 different lengths at once"),
        Facet("large", lambda: large_case(max_n=10, max_t=90, max_shp=60), large, 60,
              rule="larger data; non-trivial: as below"),
        Facet("transform", case_, transform, 700, rule="a best match not at 0"),
        Facet("classifiers", clf_case, clf, 80, rule="every case"),
    ]
