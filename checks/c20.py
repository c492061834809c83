"""C20: dataset z-normalisation."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from .common import Facet, Violation


@st.composite
def case_(draw):
    var = draw(st.booleans())
    ds = draw(gen.dataset(max_n=5, max_c=3, min_t=2, max_t=20, variable=var))
    return {"var": var, "ds": ds, "e": draw(st.integers(-2, 8)), "b": draw(st.integers(-800, 800)),
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"]))}


@st.composite
def large_case(draw):
    """long series, many series or many channels; the data comes from a seed"""
    axis = draw(st.sampled_from(["t", "t", "n", "C"]))
    n, C, t = st.integers(1, 3), st.integers(1, 3), st.integers(2, 12)
    if axis == "t":
        t = st.integers(60, 6000)
    elif axis == "n":
        n = st.integers(20, 400)
    else:
        C = st.integers(8, 130)
    return {"var": draw(st.booleans()), "seed": draw(gen.seeds), "n": draw(n), "C": draw(C),
            "t": draw(t), "axis": axis, "e": draw(st.integers(-2, 8)),
            "b": draw(st.integers(-800, 800)), "dtype": "float64"}


def large(case, ctx):
    rng = np.random.RandomState(case["seed"])
    X = []
    for i in range(case["n"]):
        t = case["t"] - (rng.randint(0, max(1, case["t"] // 2)) if case["var"] else 0)
        x = rng.randn(case["C"], t) * np.exp(rng.randn(case["C"], 1)) + rng.randint(-9, 10)
        for c in range(case["C"]):
            q = rng.rand()
            if q < 0.1:
                x[c] = rng.randint(-3, 4)
            elif q < 0.2:           # a level at each end
                x[c, :t // 2] -= 6
        X.append(x)
    check(dict(case, ds={"X": X}), ctx)


def norm_list(X):
    from convst.utils.dataset_utils import z_norm_3D_list
    return z_norm_3D_list(X)


def norm_array(X):
    from convst.utils.dataset_utils import z_norm_3D
    return z_norm_3D(X)


def compiled(X):
    from convst.transformers._input_transformers import z_norm_all_samples
    return z_norm_all_samples(X)


def transformer(X):
    from convst.transformers._input_transformers import Z_normalizer
    return Z_normalizer().fit_transform(X)


def check(case, ctx):
    var = case["var"]
    dt = np.dtype(case["dtype"])
    X = [x.astype(dt) for x in gen.to_list(case["ds"]["X"])]
    eps = 1e-6 if dt == np.float64 else 2e-3
    funcs = [("z_norm_3D_list", norm_list, lambda: [x.copy() for x in X])]
    if not var:
        funcs.append(("z_norm_3D", norm_array, lambda: np.array(X)))
        if dt == np.float64:
            funcs.append(("z_norm_all_samples", compiled, lambda: np.array(X)))
            if X[0].shape[1] > 2:
                funcs.append(("Z_normalizer", transformer, lambda: np.array(X)))
    outs = []
    for name, f, data in funcs:
        R = f(data())
        if len(R) != len(X):
            raise Violation("%s returns %d series for %d" % (name, len(R), len(X)))
        outs.append((name, R))
        for i, x in enumerate(X):
            r = np.asarray(R[i])
            if r.shape != x.shape:
                raise Violation("%s: series %d of shape %s becomes %s" % (name, i, x.shape,
                                                                          r.shape))
            for c in range(len(x)):
                v = x[c].astype(np.float64)
                if not np.all(np.isfinite(r[c])):
                    raise Violation("%s: non-finite values" % name)
                if np.all(v == v[0]):
                    # the computed mean of a constant may miss it by one rounding
                    if np.abs(r[c]).max() > 1e-4 * max(1.0, np.abs(v[0])) * (
                            1 if dt == np.float64 else 1e3):
                        raise Violation("%s: constant channel %d of series %d becomes %r"
                                        % (name, c, i, r[c].tolist()))
                    continue
                if dt == np.float32 and np.abs(v).max() > 100 * v.std():
                    continue
                want = (v - v.mean()) / (v.std() + 1e-8)
                if np.abs(r[c] - want).max() > eps * 10:
                    raise Violation("%s: series %d channel %d is not z-normalised: mean %r, "
                                    "deviation %r" % (name, i, c, float(np.mean(r[c])),
                                                      float(np.std(r[c]))))
    # positive affine maps of every channel leave the result
    if dt == np.float64:
        k, b = 2.0 ** case["e"], case["b"] / 4.0
        for name, f, data in funcs:
            D = data()
            D2 = [x * k + b for x in D] if isinstance(D, list) else D * k + b
            R2 = f(D2)
            ref = dict(outs)[name]
            for i, x in enumerate(X):
                for c in range(len(x)):
                    s = x[c].std()
                    tol = 1e-4 if s == 0 else 1e-6 + 4e-8 / (s * min(k, 1.0)) + 1e-12 * (
                        abs(b) + k * np.abs(x[c]).max()) / (s * k)
                    if s == 0:
                        tol = 1e-4 * max(1.0, abs(b) + k * np.abs(x[c]).max())
                    if np.abs(np.asarray(R2[i])[c] - np.asarray(ref[i])[c]).max() > tol:
                        raise Violation("%s: channel %d of series %d changes under x -> %r x "
                                        "+ %r" % (name, c, i, k, b))
    ctx.label("list" if var else "array and list", case["dtype"])
    ctx.nt(sum(x.std() > 0 for x in X) > 1)


def facets():
    return [
        Facet("definition", case_, check, 2000, rule="array, list and compiled forms against "
              "the definition, constants to zero, affine maps; non-trivial: two or more "
              "non-constant series"),
        Facet("large", large_case, large, 100, rule="the same for up to 6000 points, 400 series "
              "or 130 channels"),
    ]
