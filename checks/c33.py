"""C33: subsampling keeps series, lengths and classes aligned."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from .common import Facet, Skip, Violation, check_matrix

MODS = {"univariate": ("_univariate_same_length", "U_SL_generate_shapelet"),
        "multivariate": ("_multivariate_same_length", "M_SL_generate_shapelet"),
        "univariate_variable": ("_univariate_variable_length", "U_VL_generate_shapelet"),
        "multivariate_variable": ("_multivariate_variable_length", "M_VL_generate_shapelet")}


@st.composite
def case_(draw, raw=False):
    kind = draw(st.sampled_from(sorted(MODS)))
    multi, var = kind.startswith("multi"), kind.endswith("variable")
    ds = draw(gen.dataset(min_n=3, max_n=12, min_c=2 if multi else 1, max_c=3 if multi else 1,
                          min_t=6, max_t=18, kinds=("distinct",) if raw else ("distinct", "noise"),
                          variable=var, mixed=False, n_classes=4))
    if draw(st.booleans()):
        ds["y"] = sorted(ds["y"])
    t = min(len(x[0]) for x in ds["X"])
    p = draw(gen.rdst_params(t, max_shp=12, max_c=len(ds["X"][0]),
                             probas=[0.0] if raw else gen.PROBAS, alphas=[0.25, 0.5, 0.75]))
    if raw:
        p["n_shapelets"] = 24
    n = len(ds["X"])
    lo = 1.0 / n + 1e-9
    p["n_samples"] = draw(st.sampled_from([max(lo, v) for v in (
        0.1, 0.25, 0.3, 0.5, 0.5, 0.6, 0.75, 0.9, 0.99)] + [1.0, 1, 1.2, 1.5, 2.0, 2.6]))
    return {"kind": kind, "ds": ds, "p": p, "auto": draw(st.booleans()),
            "ydtype": draw(st.sampled_from(["int64", "int32"])),
            "object": draw(st.booleans())}


def prep(case):
    var = case["kind"].endswith("variable")
    X = gen.to_list(case["ds"]["X"]) if var else gen.to_array(case["ds"]["X"])
    if var and case["object"]:
        o = np.empty(len(X), dtype=object)
        for i, x in enumerate(X):
            o[i] = x
        X = o
    return X, np.array(case["ds"]["y"], dtype=case["ydtype"]), var


def build(case, **over):
    return model.R_DST(transform_type="auto" if case["auto"] else case["kind"],
                       **dict(case["p"], **over))


def spy(case):
    """record the data the sampler is given"""
    import importlib
    mod, fn = MODS[case["kind"]]
    try:
        m = importlib.import_module("convst.transformers." + mod)
        f = getattr(m, fn)
    except (ImportError, AttributeError):
        raise Skip("no " + fn)
    seen = []

    def g(X, y, *a, **k):
        rest = list(a) + list(k.values())
        seen.append((np.array(X), np.array(y), [np.array(v) for v in rest
                                                if isinstance(v, np.ndarray) and v.ndim == 1
                                                and len(v) == len(y)]))
        return f(X, y, *a, **k)
    return m, fn, f, g, seen


def expected_size(n, p):
    return n if p == 1 else int(n * p)


def subset(case, ctx):
    X, y, var = prep(case)
    n, p = len(X), case["p"]["n_samples"]
    m, fn, f, g, seen = spy(case)
    est = build(case)
    setattr(m, fn, g)
    try:
        est.fit(X, y)
    finally:
        setattr(m, fn, f)
    if len(seen) != 1:
        raise Skip("the sampler is called otherwise")
    Xf, yf, rest = seen[0]
    if Xf.ndim != 3 or len(Xf) != len(yf):
        raise Violation("%d series are sampled with %d classes" % (len(Xf), len(yf)))
    size = expected_size(n, p)
    if len(Xf) != size:
        raise Violation("%d series are used of %d, proportion %s" % (len(Xf), n, p))
    ids = []
    lens = np.array([x.shape[1] for x in X])
    for i in range(size):
        hit = [q for q in range(n) if Xf.shape[1] == X[q].shape[0] and
               Xf.shape[2] >= lens[q] and np.array_equal(Xf[i][:, :lens[q]], X[q]) and
               not Xf[i][:, lens[q]:].any()]
        if not hit:
            raise Violation("series %d given to the sampler is no training series" % i)
        ok = [q for q in hit if y[q] == yf[i]]
        if not ok:
            raise Violation("series %d (training series %d, class %d) is given class %d"
                            % (i, hit[0], y[hit[0]], yf[i]))
        free = [q for q in ok if q not in ids]
        ids.append((free or ok)[0])
        if not free and p <= 1 and len(hit) == 1:
            raise Violation("training series %d is used twice (proportion %s)" % (ids[-1], p))
    if var:
        want = lens[ids]
        if rest and not any(np.array_equal(r, want) for r in rest):
            raise Violation("series of lengths %s are given lengths %s"
                            % (want.tolist(), [r.tolist() for r in rest]))
    for c in np.unique(y):
        q = size * (y == c).sum() / n
        k = int((yf == c).sum())
        if abs(k - q) >= 1:
            raise Violation("class %d has %d of %d series, its share is %.2f" % (c, k, size, q))
    # everything else is as if the subset were the training set
    Xs = [X[q] for q in ids] if var else X[ids]
    over = {"n_samples": None}
    if var:
        over["min_len"] = int(lens.min())
    ref = build(case, **over).fit(Xs, y[ids])
    if not model.same_shapelets(ref.shapelets_, est.shapelets_):
        raise Violation("the shapelets differ from those of a fit on the same %d series" % size)
    # a transform of the whole training set
    shps = model.unpack(est.shapelets_)
    F = est.transform(X)
    check_matrix(F, [np.asarray(x) for x in X], shps, case["p"]["phase_invariance"], False)
    est2 = build(case).fit(X, y)
    if not model.same_shapelets(est2.shapelets_, est.shapelets_):
        raise Violation("two fits with the same random state use different shapelets")
    ctx.nt(size != n and len(set(y.tolist())) > 1 and len(shps) > 0)
    ctx.label(case["kind"], "below one" if p < 1 else "one" if p == 1 else "above one")


def sources(case, ctx):
    X, y, var = prep(case)
    n, p = len(X), case["p"]["n_samples"]
    est = build(case).fit(X, y)
    size = expected_size(n, p)
    shps = model.unpack(est.shapelets_)
    used = set()
    for j, s in enumerate(shps):
        src = {i for i, _ in oracle.sources([np.asarray(x) for x in X], s,
                                            case["p"]["phase_invariance"])}
        if not src:
            raise Violation("shapelet %d (length %d, dilation %d) is of no training series"
                            % (j, s["length"], s["dilation"]))
        used |= src if len(src) == 1 else set()
    if len(used) > size:
        raise Violation("shapelets come from %d series, %d were to be used" % (len(used), size))
    for c in np.unique(y):
        k = sum(int(y[i] == c) for i in used)
        q = size * (y == c).sum() / n
        if k >= q + 1:
            raise Violation("shapelets come from %d series of class %d, its share of %d is %.2f"
                            % (k, c, size, q))
    ctx.nt(len(used) > 1 and size != n)
    ctx.label(case["kind"], "below one" if p < 1 else "one" if p == 1 else "above one",
              "all of the subset used" if len(used) == size else "some used")


@st.composite
def many_case(draw):
    i = st.integers
    k = draw(i(2, 6))
    return {"kind": draw(st.sampled_from(sorted(MODS))), "n": draw(i(20, 300)), "k": k,
            "w": draw(st.lists(i(1, 8), min_size=k, max_size=k)), "seed": draw(gen.seeds),
            "p": draw(st.sampled_from([0.1, 0.2, 0.25, 0.5, 0.7, 0.9, 1.0, 1.5])),
            "rs": draw(gen.seeds), "sorted": draw(st.booleans())}


def many(case, ctx):
    """as subset, for up to 300 series of unequally frequent classes"""
    rng = np.random.RandomState(case["seed"])
    multi, var = case["kind"].startswith("multi"), case["kind"].endswith("variable")
    n, w = case["n"], np.array(case["w"], dtype=float)
    y = np.r_[np.arange(case["k"]), rng.choice(case["k"], n - case["k"], p=w / w.sum())]
    # every class with two series at least: stratification needs them
    y = np.r_[y, np.arange(case["k"])]
    y = np.sort(y) if case["sorted"] else rng.permutation(y)
    X = [(rng.randint(-30, 31, size=(2 if multi else 1, 7 + rng.randint(4) * var)) / 4.0).tolist()
         for _ in y]
    for q, x in enumerate(X):
        x[0][0] = 100.0 + q
    if int(len(y) * case["p"]) < case["k"] + 1:
        raise Skip("too few for the classes")
    subset({"kind": case["kind"], "ds": {"X": X, "y": y.tolist()}, "auto": False, "object": False,
            "ydtype": "int64", "p": {"n_shapelets": 4, "shapelet_lengths": [3, 4], "alpha": 0.5,
                                     "phase_invariance": bool(rng.randint(2)),
                                     "random_state": case["rs"], "n_samples": case["p"]}}, ctx)
    ctx.label("%d hundreds" % (len(y) // 100))


@st.composite
def seed_case(draw):
    return {"kind": draw(st.sampled_from(sorted(MODS))), "n": draw(st.integers(10, 16)),
            "p": draw(st.sampled_from([0.3, 0.5, 0.6])), "seed": draw(gen.seeds),
            "rs": draw(st.lists(gen.seeds, min_size=8, max_size=8, unique=True)),
            "instance": draw(st.booleans()), "which": draw(st.sampled_from(
                ["rdst", "rdst", "ridge"]))}


def seeds(case, ctx):
    """the subset follows the estimator's random state, nothing else"""
    rng = np.random.RandomState(case["seed"])
    multi, var = case["kind"].startswith("multi"), case["kind"].endswith("variable")
    n = case["n"]
    X = [rng.randint(-500, 500, size=(2 if multi else 1, 12 + (rng.randint(4) if var else 0)))
         / 16.0 for _ in range(n)]
    y = np.arange(n) % 2
    Xd = X if var else np.array(X)
    kw = dict(n_samples=case["p"], n_shapelets=20, shapelet_lengths=[4], proba_norm=0.0,
              transform_type=case["kind"])
    subs = []
    for r in case["rs"]:
        got = []
        for rep in range(2):
            rs = np.random.RandomState(r) if case["instance"] else r
            if case["which"] == "ridge":
                est = model.Ridge(random_state=rs, **kw).fit(Xd, y).transformer
            else:
                est = model.R_DST(random_state=rs, **kw).fit(Xd, y)
            got.append(model.copy_shapelets(est.shapelets_))
            np.random.rand(3)
            np.random.seed(rng.randint(9999))
        if not model.same_shapelets(*got):
            raise Violation("the same random state gives two subsets or two samplings")
        subs.append(frozenset(i for s in model.unpack(got[0])
                              for i, _ in oracle.sources(X, s, False)))
    if len(set(subs)) == 1:
        raise Violation("8 random states all take their shapelets from the same series %s"
                        % sorted(subs[0]))
    ctx.nt()
    ctx.label(case["which"], "RandomState" if case["instance"] else "int")


def facets():
    return [
        Facet("subset", case_, subset, 500, rule="a real subset (or superset), several classes"),
        Facet("sources", lambda: case_(raw=True), sources, 300,
              rule="several series used, of a real subset"),
        Facet("many", many_case, many, 40, rule="the first for 20 to 300 series"),
        Facet("seeds", seed_case, seeds, 48, rule="every case"),
    ]
