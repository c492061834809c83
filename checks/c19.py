"""C19: feature scalers drop constant features, never emit NaN or infinity."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from .common import Facet, Violation

CONST = [0.0, 1.0, 0.1, 1.0 / 3, 1e8 + 0.1, -0.7, 1e-12, 123456.789, 7.0, 1e15]


@st.composite
def matrix(draw, n_cols=None, min_n=2):
    n = draw(st.integers(min_n, 9))
    k = n_cols or draw(st.integers(1, 8))
    cols = []
    for j in range(k):
        what = draw(st.sampled_from(["vary", "vary", "vary", "const", "one-off", "int",
                                     "two-valued"]))
        c = draw(st.sampled_from(CONST))
        v = draw(gen.series(n, draw(st.sampled_from(["noise", "dyadic", "real"])), salt=j))
        if what == "const":
            v = [c] * n
        elif what == "one-off":
            v = [c] * n
            v[draw(st.integers(0, n - 1))] = c + draw(st.sampled_from([1.0, -2.5])) * max(
                1.0, abs(c) / 16)
        elif what == "int":
            v = [float(int(abs(a) * 4)) for a in v]
        elif what == "two-valued":
            v = [c if i % 2 else c + max(1.0, abs(c) / 8) for i in range(n)]
        if what in ("vary", "int", "two-valued"):
            m = draw(st.sampled_from([0, 0, 0, -36, -24, -12, 12, 30]))
            v = [a * 2.0 ** m for a in v]
            if what == "vary" and draw(st.integers(0, 3)) == 0:
                # varies little around a large value
                v = [c + a * 2.0 ** (-20 - m) * max(1.0, abs(c)) for a in v]
        cols.append(v)
    return np.array(cols).T.tolist()


@st.composite
def case_(draw):
    which = draw(st.sampled_from(["standard", "minmax"]))
    A = draw(matrix())
    return {"which": which, "A": A, "B": draw(matrix(len(A[0]), 1)),
            "pre": draw(st.one_of(st.none(), matrix())),
            "opt": draw(st.sampled_from([{}, {"with_mean": True}])) if which == "standard"
            else {}}


@st.composite
def large_case(draw):
    """many rows or many columns; the data comes from a seed"""
    n, k = draw(st.sampled_from([(st.integers(20, 1500), st.integers(1, 12)),
                                 (st.integers(2, 40), st.integers(20, 600)),
                                 (st.integers(30, 120), st.integers(30, 120))]))
    return {"which": draw(st.sampled_from(["standard", "minmax"])), "n": draw(n), "k": draw(k),
            "m": draw(st.integers(1, 60)), "seed": draw(gen.seeds), "opt": {}, "pre": None,
            "const": draw(st.sampled_from([0.0, 0.02, 0.3, 0.9])),
            "refit": draw(st.booleans())}


def large_matrix(rng, n, k, const):
    A = rng.randn(n, k) * 2.0 ** rng.randint(-20, 20, size=k)
    A += rng.choice([0.0, 0.0, 1.0, -100.0], size=k)
    for j in range(k):
        q = rng.rand()
        if q < const:
            A[:, j] = rng.choice(CONST)
        elif q < const + 0.1:       # varies in one row only
            A[:, j] = 3.0
            A[rng.choice([0, n - 1, rng.randint(n)]), j] = 5.0
        elif q < const + 0.2:       # counts
            A[:, j] = rng.randint(0, 4, size=n)
    return A


def large(case, ctx):
    rng = np.random.RandomState(case["seed"])
    full = dict(case, A=large_matrix(rng, case["n"], case["k"], case["const"]),
                B=large_matrix(rng, case["m"], case["k"], 0.2))
    if case["refit"]:
        full["pre"] = large_matrix(rng, 1 + case["n"] // 2, case["k"] + rng.randint(3), 0.3)
    check(full, ctx)
    pipeline(full, ctx)


def keepers(A):
    return [j for j in range(A.shape[1]) if A[:, j].max() != A[:, j].min()]


def check(case, ctx):
    from convst.transformers import _input_transformers as m
    A, B = np.array(case["A"]), np.array(case["B"])
    w = case["which"]
    s = (m.c_StandardScaler if w == "standard" else m.c_MinMaxScaler)(**case["opt"])
    keep = keepers(A)
    if not keep:
        return              # scikit-learn refuses data without any feature
    if case["pre"] is not None and keepers(np.array(case["pre"])):
        s.fit(np.array(case["pre"]))
        ctx.label("refitted")
    A0, B0 = A.copy(), B.copy()
    s.fit(A)
    Z, W = np.asarray(s.transform(A)), np.asarray(s.transform(B))
    if not (np.array_equal(A, A0) and np.array_equal(B, B0)):
        raise Violation("%s scaler changes its input" % w)
    if Z.shape != (len(A), len(keep)) or W.shape != (len(B), len(keep)):
        raise Violation("%s scaler keeps %d features of %d, %d of them vary (new data: %d)"
                        % (w, Z.shape[1], A.shape[1], len(keep), W.shape[1]))
    if not (np.all(np.isfinite(Z)) and np.all(np.isfinite(W))):
        raise Violation("%s scaler emits non-finite values" % w)
    for q, j in enumerate(keep):
        a = A[:, j]
        # what cancellation leaves: relative to the spread of the column
        rel = 1e-10 + 1e-13 * np.abs(a).max() / (a.max() - a.min())
        if w == "standard":
            off, div = a.mean(), a.std()
            if abs(Z[:, q].mean()) > rel * 50 or abs(Z[:, q].std() - 1) > rel * 50:
                raise Violation("standard scaler: feature %d has mean %r and deviation %r"
                                % (j, Z[:, q].mean(), Z[:, q].std()))
        else:
            off, div = a.min(), a.max() - a.min()
            if abs(Z[:, q].min()) > rel * 50 or abs(Z[:, q].max() - 1) > rel * 50:
                raise Violation("min-max scaler: feature %d spans [%r, %r]"
                                % (j, Z[:, q].min(), Z[:, q].max()))
        for D, R, what in ((A, Z, "the fitted data"), (B, W, "new data")):
            want = (D[:, j] - off) / div
            if np.abs(R[:, q] - want).max() > 100 * rel * (1 + np.abs(want).max()):
                raise Violation("%s scaler: feature %d of %s is not mapped with the fitted "
                                "statistics: %r, expected %r" % (w, j, what, R[0, q], want[0]))
    ctx.label(w)
    ctx.nt(len(keep) < A.shape[1])


def pipeline(case, ctx):
    """inside a pipeline: fit_transform equals fit then transform"""
    from convst.transformers import _input_transformers as m
    A = np.array(case["A"])
    if not keepers(A):
        return
    C = m.c_StandardScaler if case["which"] == "standard" else m.c_MinMaxScaler
    a = np.asarray(C(**case["opt"]).fit_transform(A))
    b = np.asarray(C(**case["opt"]).fit(A).transform(A))
    if a.shape != b.shape or not np.array_equal(a, b):
        raise Violation("fit_transform differs from fit then transform")
    B = np.array(case["B"])
    s = C(**case["opt"]).fit(A)
    W = np.asarray(s.transform(B))
    for i in range(len(B)):
        one = np.asarray(s.transform(B[i:i + 1]))
        if not np.array_equal(one[0], W[i]):
            raise Violation("a row of new data is mapped differently when given alone")
    ctx.nt(len(keepers(A)) < A.shape[1])


def facets():
    return [
        Facet("scaling", case_, check, 2400, rule="matrices with any pattern of constant "
              "columns, new data of the same width, refits; non-trivial: a column is constant"),
        Facet("consistency", case_, pipeline, 600, rule="fit_transform, row by row; "
              "non-trivial: a column is constant"),
        Facet("large", large_case, large, 120, rule="both for up to 1500 rows or 600 columns"),
    ]
