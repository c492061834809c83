"""C21: dataset loading keeps series and labels aligned."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model    # noqa: F401
from .common import Facet, Violation

LABELS = [["1", "2", "10"], ["-1", "1", "0"], ["a", "B", "c"], ["x y", "z", "_"],
          ["abnormality", "abnormality-2", "abnormality-10", "Abnormality"],
          ["walking down the stairs", "walking down the street", "walking", "walking up"],
          ["1.0", "1.00", "1", "01", "10.0"], ["é", "e", "E", "z", ""],
          [10 ** 12, 10 ** 12 + 1, 1], [1.5, 1.25, 1.0, 1.75], list("zyxwvutsrqpo"),
          [2 ** 31, -2 ** 31, 0], [1, 2, 3], [-1, 1, 7], [5, 3, 4], [0.5, 1.0, 2.0], ["10", "9", "8"]]


@st.composite
def archive(draw, variable=None, max_n=6, kinds=gen.ALL, min_t=3, lacking=False):
    var = draw(st.booleans()) if variable is None else variable
    C = draw(st.integers(1, 3))
    t = draw(st.integers(min_t, 14))
    labs = draw(st.sampled_from(LABELS))
    k = draw(st.integers(1, len(labs)))
    top = k
    out = {"var": var, "labels": labs}
    for part, q in (("a", 0), ("b", 1)):
        # the test part may lack some of the classes
        if lacking and q:
            k = draw(st.integers(1, k))
        use = list(range(k)) if q == 0 else draw(st.permutations(range(top)))[:k]
        n = draw(st.integers(k, max(k, max_n)))
        kind = draw(st.sampled_from(kinds))
        X = []
        for i in range(n):
            ti = draw(st.integers(min_t, 14)) if var else t
            X.append([draw(gen.series(ti, kind, salt=100 * q + i * C + c)) for c in range(C)])
        y = list(use) + [use[v] for v in draw(st.lists(st.integers(0, k - 1), min_size=n - k,
                                                       max_size=n - k))]
        y = draw(st.permutations(y)) if q == 0 else y[::-1]
        out["X" + part], out["y" + part] = X, [labs[v] for v in y]
    return out


@st.composite
def large_case(draw):
    """many series, many classes or long series; everything comes from a seed"""
    axis = draw(st.sampled_from(["n", "classes", "t", "C"]))
    n, k, C, t = st.integers(3, 20), st.integers(1, 4), st.integers(1, 2), st.integers(4, 8)
    if axis == "n":
        n = st.integers(30, 300)
    elif axis == "classes":
        n, k = st.integers(40, 300), st.integers(9, 130)
    elif axis == "t":
        n, t = st.integers(2, 6), st.integers(60, 2500)
    else:
        C = st.integers(5, 40)
    return {"var": draw(st.booleans()), "n": draw(n), "k": draw(k), "C": draw(C), "t": draw(t),
            "seed": draw(gen.seeds), "form": draw(st.sampled_from(["number", "padded", "text",
                                                                  "int", "float"])),
            "normalize": draw(st.sampled_from([True, False, None])), "axis": axis}


def large(case, ctx):
    rng = np.random.RandomState(case["seed"])
    k, t = min(case["k"], case["n"]), case["t"]
    form = {"number": str, "padded": lambda v: "%05d" % v, "int": int,
            "float": lambda v: v / 8.0, "text": lambda v: "class number %d of them" % v}
    labs = [form[case["form"]](v) for v in rng.permutation(500)[:k].tolist()]
    out = dict(case)
    for part in "ab":
        n = case["n"] if part == "a" else 1 + int(rng.randint(case["n"]))
        X = []
        for i in range(n):
            ti = t - int(rng.randint(0, t // 2)) if case["var"] else t
            x = rng.randint(-99, 100, size=(case["C"], ti)) / 8.0
            X.append((x + np.arange(ti) / 2.0 ** 12).tolist())
        y = rng.randint(0, k, size=n)
        if part == "a":
            y[:k] = np.arange(k)
            y = rng.permutation(y)
        out["X" + part], out["y" + part] = X, [labs[v] for v in y]
    check(out, ctx)


def register(case, name="ds"):
    from aeon import datasets
    datasets.registry.clear()
    conv = gen.to_list if case["var"] else gen.to_array
    Xa, Xb = conv(case["Xa"]), conv(case["Xb"])
    datasets.register(name, Xa, np.array(case["ya"]), Xb, np.array(case["yb"]))
    return name


@st.composite
def case_(draw):
    c = draw(archive(lacking=True))
    c["normalize"] = draw(st.sampled_from([True, False, None]))
    return c


def same_series(got, want, normalize, what):
    if len(got) != len(want):
        raise Violation("%s has %d series, expected %d" % (what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        g, w = np.asarray(g), np.asarray(w)
        if g.shape != w.shape:
            raise Violation("%s: series %d has shape %s, expected %s" % (what, i, g.shape,
                                                                         w.shape))
        if not normalize:
            if not np.array_equal(g, w):
                raise Violation("%s: series %d is not the archive's" % (what, i))
            continue
        for c in range(len(w)):
            if np.all(w[c] == w[c][0]):
                ok = np.abs(g[c]).max() <= 1e-4 * max(1.0, abs(w[c][0]))
            else:
                ok = np.abs(g[c] - (w[c] - w[c].mean()) / (w[c].std() + 1e-8)).max() < 1e-5
            if not ok:
                raise Violation("%s: channel %d of series %d is not the archive's, "
                                "z-normalised" % (what, c, i))


def same_labels(got, want, classes, what):
    got = np.asarray(got)
    exp = [classes.index(v) for v in want]
    if got.shape != (len(exp),) or got.tolist() != exp:
        raise Violation("%s labels are %s, expected %s" % (what, got.tolist(), exp))


def check(case, ctx):
    from convst.utils.dataset_utils import load_UCR_UEA_dataset, load_UCR_UEA_dataset_split
    name = register(case)
    kw = {} if case["normalize"] is None else {"normalize": case["normalize"]}
    norm = bool(case["normalize"])
    conv = gen.to_list if case["var"] else gen.to_array
    A, B = conv(case["Xa"]), conv(case["Xb"])
    classes = np.unique(np.array(case["ya"])).tolist()
    out = load_UCR_UEA_dataset_split(name, **kw)
    Xa, Xb, ya, yb, m = out
    for X, W, w in ((Xa, A, "train part"), (Xb, B, "test part")):
        if isinstance(X, list) != case["var"]:
            raise Violation("%s is a %s" % (w, type(X).__name__))
        same_series(X, W, norm, w)
    same_labels(ya, np.array(case["ya"]).tolist(), classes, "train")
    same_labels(yb, np.array(case["yb"]).tolist(), classes, "test")
    want = min(len(x[0]) for x in case["Xa"] + case["Xb"])
    if int(m) != want:
        raise Violation("minimum length %s, expected %d" % (m, want))
    X, y = load_UCR_UEA_dataset(name, **kw)
    if isinstance(X, list) != case["var"]:
        raise Violation("the whole dataset is a %s" % type(X).__name__)
    same_series(X, list(A) + list(B), norm, "the whole dataset")
    same_labels(y, np.array(case["ya"]).tolist() + np.array(case["yb"]).tolist(), classes,
                "whole dataset")
    # the two parts were loaded, and stay the archive's
    again = load_UCR_UEA_dataset_split(name)
    same_series(again[0], A, False, "train part, loaded again")
    ctx.label("variable" if case["var"] else "fixed", "normalised" if norm else "as is")
    ctx.nt(len(classes) > 1)


def facets():
    return [
        Facet("loading", case_, check, 1500, rule="any archive content through both loaders; "
              "non-trivial: two classes or more"),
        Facet("large", large_case, large, 80, rule="the same for up to 300 series, 130 classes, "
              "2500 points or 40 channels"),
    ]
