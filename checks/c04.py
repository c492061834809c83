"""C04: transform is a pure per-series function under any parallel schedule."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model
from vf.prelude import numba
from .common import Facet, Violation, fit_case, large_case, large_data, large_params

sched = numba._sched
KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


@st.composite
def base_case(draw, max_n=5, max_t=18, max_shp=10):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    c = draw(fit_case(variable=var, multi=multi, max_n=max_n, max_t=max_t, max_shp=max_shp,
                      max_c=3, wide=True)())
    c["kind"] = kind
    return c


def _fit(case):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    est = model.R_DST(**case["p"])
    est.fit(X, y)
    return est, X, y


def _copy(X):
    return [x.copy() for x in X] if isinstance(X, list) else X.copy()


def _same(X, Y):
    return all(np.array_equal(a, b) for a, b in zip(X, Y)) and len(X) == len(Y)


def _sub(X, idx):
    return [X[i] for i in idx] if isinstance(X, list) else X[np.asarray(idx, dtype=int)]


@st.composite
def batch_case(draw):
    c = draw(base_case())
    n = len(c["ds"]["X"])
    c["batches"] = draw(st.lists(st.lists(st.integers(0, n - 1), min_size=1, max_size=2 * n),
                                 min_size=1, max_size=4))
    c["dtype"] = draw(st.sampled_from(["float64", "float64", "int64"]))
    return c


def batch(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    if case["dtype"] == "int64" and abs(case["ds"].get("scale", 0)) <= 40:
        X = [np.rint(x).astype(np.int64) for x in X] if var else np.rint(X).astype(np.int64)
    X0, y0 = _copy(X), y.copy()
    est = model.R_DST(**case["p"])
    est.fit(X, y)
    if not _same(X, X0) or not np.array_equal(y, y0):
        raise Violation("fit modified the caller's arrays")
    s0 = model.copy_shapelets(est.shapelets_)
    F = np.array(est.transform(X))
    keep = F.copy()
    out = est.transform(X)
    if not np.array_equal(np.asarray(out), F):
        raise Violation("a second transform of the same data differs")
    for b in case["batches"]:
        Xb = _sub(X, b)
        G = np.asarray(est.transform(Xb))
        if G.shape != (len(b), F.shape[1]) or not np.array_equal(G, F[b]):
            raise Violation("features of batch %s differ from those of the full data" % (b,))
        r = b[::-1]             # the same object with other content
        Xb[:] = _sub(X, r)
        G = np.asarray(est.transform(Xb))
        if not np.array_equal(G, F[r]):
            raise Violation("features of an array given again with other content are not those "
                            "of the content")
    if not np.array_equal(np.asarray(out), keep):
        raise Violation("a result already returned was changed by a later transform")
    if not _same(X, X0):
        raise Violation("transform modified the caller's arrays")
    if not model.same_shapelets(s0, est.shapelets_):
        raise Violation("transform modified the fitted shapelets")
    ctx.label(case["kind"])
    ctx.nt(F.shape[1] >= 6 and any(len(b) > 1 for b in case["batches"]))


@st.composite
def sched_case(draw):
    c = draw(base_case(max_n=5, max_t=12, max_shp=6))
    c["orders"] = draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=3))
    c["inter"] = draw(st.lists(st.integers(2, 10 ** 6), min_size=1, max_size=2))
    return c


def schedules(case, ctx):
    est, X, y = _fit(case)
    F = np.array(est.transform(X))
    for k in case["orders"]:
        with sched.schedule(("perm", k)):
            G = np.asarray(est.transform(X))
        if not np.array_equal(F, G):
            raise Violation("iteration order %d of the parallel loop changes the features" % k)
    before = dict(sched.stats)
    for k in case["inter"]:
        with sched.schedule(("inter", k)):
            try:
                G = np.asarray(est.transform(X))
            except UnboundLocalError:
                ctx.label("not interleavable")
                break
        if not np.array_equal(F, G):
            bad = np.argwhere(F != G)
            raise Violation("interleaving %d of the parallel iterations changes feature %s"
                            % (k, bad[0].tolist()))
    sw = sched.stats["switches"] - before["switches"]
    ctx.label(case["kind"], "switches" if sw else "no switch")
    ctx.nt(len(X) > 1 and sw > 3 and F.shape[1] > 0)


@st.composite
def large_batches(draw):
    c = draw(large_case(max_n=24, max_t=90, max_shp=90))
    c["batches"] = draw(st.lists(gen.seeds, min_size=1, max_size=3))
    c["order"] = draw(st.integers(0, 10 ** 6))
    return c


def large(case, ctx):
    X, y = large_data(case)
    est = model.R_DST(**large_params(case, X)).fit(X, y)
    s0 = model.copy_shapelets(est.shapelets_)
    X0, n = _copy(X), len(X)
    F = np.array(est.transform(X))
    for k in case["batches"]:
        rng = np.random.RandomState(k)
        b = [rng.permutation(n), rng.randint(0, n, size=rng.randint(1, 2 * n)),
             rng.permutation(n)[:max(1, n // 2)]][k % 3]
        G = np.asarray(est.transform(_sub(X, b)))
        if G.shape != (len(b), F.shape[1]) or not np.array_equal(G, F[b]):
            raise Violation("features of a batch of %d series differ from those of the full data "
                            "(%d series)" % (len(b), n))
    with sched.schedule(("perm", case["order"])):
        G = np.asarray(est.transform(X))
    if not np.array_equal(F, G):
        raise Violation("iteration order %d of the parallel loop changes the features"
                        % case["order"])
    if not _same(X, X0) or not model.same_shapelets(s0, est.shapelets_):
        raise Violation("transform modified its arguments or the fitted shapelets")
    ctx.label(case["kind"], "axis %s" % case["axis"])
    ctx.nt(F.shape[1] >= 6)


SIZES = [2 ** k + d for k in range(4, 10) for d in (-1, 0, 1)] + [30, 50, 100, 200, 300, 500]


@st.composite
def size_case(draw):
    return {"kind": draw(st.sampled_from(KINDS)), "seed": draw(gen.seeds),
            "n": draw(st.one_of(st.sampled_from(SIZES), st.integers(20, 600))),
            "t": draw(st.sampled_from([6, 8, 9])), "norm": draw(st.sampled_from([0.0, 0.5, 1.0])),
            "phase": draw(st.booleans()), "m": draw(st.integers(1, 4))}


def sizes(case, ctx):
    """a collection of any size, against parts of it"""
    var, multi = case["kind"].endswith("variable"), case["kind"].startswith("multi")
    rng = np.random.RandomState(case["seed"])
    n, t = case["n"], case["t"]
    X = rng.randn(n, 2 if multi else 1, t)
    if var:
        X = [np.concatenate((x, rng.randn(len(x), k)), axis=1)
             for x, k in zip(X, rng.randint(0, 3, size=n))]
    est = model.R_DST(n_shapelets=case["m"], shapelet_lengths=[3], proba_norm=case["norm"],
                      random_state=case["seed"] % 1000, phase_invariance=case["phase"],
                      transform_type=case["kind"]).fit(X[:4], np.arange(4) % 2)
    F = np.asarray(est.transform(X))
    if F.shape[0] != n:
        raise Violation("%d rows for %d series" % (F.shape[0], n))
    cuts = [0] + sorted(rng.choice(np.arange(1, n), size=min(n - 1, 4), replace=False)) + [n]
    for a, b in zip(cuts[:-1], cuts[1:]):
        if not np.array_equal(np.asarray(est.transform(X[a:b])), F[a:b]):
            raise Violation("series %d to %d have other features alone than among %d"
                            % (a, b, n))
    ctx.label(case["kind"], "power of two or one off" if n in SIZES[:18] else "other size")
    ctx.nt(F.shape[1] > 0 and len({r.tobytes() for r in F}) > 1)


def facets():
    return [
        Facet("sizes", size_case, sizes, 60, rule="15 to 600 series (powers of two and one off, "
              "in half of the cases): the same features as in parts; non-trivial: they differ"),
        Facet("large", large_batches, large, 28, rule="the same at larger sizes (up to 24 series "
              "of 90 points, 90 shapelets, or one dimension far larger), batches of up to twice "
              "the data, a permuted loop; non-trivial: two or more shapelets"),
        Facet("batch", batch_case, batch, 1000, rule="fit, then transform the data and generated "
              "batches (repetitions, reorderings, subsets), all four kinds, caller arrays and "
              "shapelets compared before/after; non-trivial: two or more shapelets and a batch "
              "of several series"),
        Facet("schedules", sched_case, schedules, 450, rule="the parallel loop of transform run "
              "in permuted orders and as interleaved iterations (one thread at a time, switching "
              "at line events); non-trivial: several series and more than 3 switches"),
    ]
