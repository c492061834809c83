"""Strategies. Every case is JSON-able; arrays are nested lists of numbers."""
import numpy as np
from hypothesis import strategies as st

EXACT = ("ties", "dyadic", "runs", "periodic", "spike", "const")
ALL = EXACT + ("distinct", "real", "scaled")


def decode(buf, kind, salt=0):
    b = np.frombuffer(buf, dtype=np.uint8).astype(np.int64)
    n = len(b)
    i = np.arange(n)
    if kind == "ties":
        return (b % 3 - 1).astype(float)
    if kind == "dyadic":
        return (b - 128) / 8.0
    if kind == "runs":
        v = (b % 16) / 4.0
        keep = b > 150
        out = np.empty(n)
        cur = v[0] if n else 0
        for j in range(n):
            if keep[j]:
                cur = v[j]
            out[j] = cur
        return out
    if kind == "periodic":
        p = 2 + int(b[0]) % 5 if n else 2
        return ((b[:p][i % p] if n else b) % 32 - 16) / 4.0
    if kind == "spike":
        out = np.zeros(n)
        if n:
            out[int(b[0]) % n] = 1 + (int(b[-1]) % 8)
        return out
    if kind == "const":
        return np.full(n, ((int(b[0]) % 64) - 32) / 4.0 if n else 0.0)
    if kind == "distinct":
        # pairwise distinct across (salt, index): multiples of 2^-16
        key = (i + 1 + 4096 * (salt + 1))
        return (b - 128) / 4.0 + key / 2.0 ** 16
    if kind == "real":
        c = np.roll(b, 1) if n else b
        return ((b * 256 + c) - 32768) / 997.0
    if kind == "scaled":
        e = (int(b[0]) % 9) - 4 if n else 0
        return ((b - 128) / 8.0) * 2.0 ** e + (int(b[-1]) - 128 if n else 0)
    if kind == "noise":
        # generic data whatever the bytes: pseudo-random multiples of 1/64
        seed = [int(v) for v in b] + [salt, n]
        return np.random.RandomState(seed).randint(-400, 400, size=n) / 64.0
    raise KeyError(kind)


@st.composite
def series(draw, length, kind, salt=0):
    buf = draw(st.binary(min_size=length, max_size=length))
    return decode(buf, kind, salt).tolist()


@st.composite
def dataset(draw, min_n=1, max_n=6, min_c=1, max_c=1, min_t=3, max_t=24, kinds=ALL,
            variable=False, mixed=True, n_classes=3, min_classes=1, wide=False):
    """{'X': [sample][channel][time], 'y': ints, 'kind': ...}"""
    n = draw(st.integers(min_n, max_n))
    c = draw(st.integers(min_c, max_c))
    t = draw(st.integers(min_t, max_t))
    kind = draw(st.sampled_from(kinds))
    X = []
    for i in range(n):
        ti = draw(st.integers(min_t, max_t)) if variable else t
        k = kind
        if mixed and draw(st.integers(0, 7)) == 0:
            k = draw(st.sampled_from(kinds))
        X.append([draw(series(ti, k, salt=i * c + j)) for j in range(c)])
    k = draw(st.integers(min_classes, max(n_classes, min_classes)))
    y = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
    if min_classes > 1:
        for q in range(min(min_classes, n)):
            y[q] = q
        y = list(y)
    out = {"X": X, "y": y, "kind": kind, "mixed": mixed}
    if wide and draw(st.integers(0, 3)) == 0:
        # the whole dataset at another scale (a power of two: exact). Constant windows
        # of inexact values are ill-conditioned once their rounding error is above the
        # 1e-8 guard, hence the lower limit for those
        inexact = mixed or kind in ("real", "scaled")
        e = draw(wide_scale(inexact))
        out["scale"] = e
        out["X"] = [[[v * 2.0 ** e for v in c] for c in x] for x in X]
    return out


def wide_scale(inexact):
    return st.one_of(st.integers(-40, 6 if inexact else 40),
                     st.sampled_from([-140, -100, 5 if inexact else 130]))


def is_exact(ds):
    return ds["kind"] in EXACT + ("distinct",) and not ds["mixed"]


def to_array(X):
    """3D float array of same-length data"""
    return np.array(X, dtype=np.float64)


def to_list(X):
    return [np.array(x, dtype=np.float64) for x in X]


@st.composite
def lengths_for(draw, t, max_k=3, lo=2, single=False):
    hi = max(lo, min(t, 12))
    k = 1 if single else draw(st.integers(1, max_k))
    return sorted(set(draw(st.lists(st.integers(lo, hi), min_size=k, max_size=k))))


ALPHAS = [0.0, 0.25, 0.5, 0.5, 0.75, 0.9, 1.0]
PROBAS = [0.0, 0.5, 0.8, 1.0]
PCTS = [[5, 10], [0, 100], [50, 50], [5.0, 10.0], [0, 0], [100, 100], [90, 95], [2.5, 40.0]]


@st.composite
def rdst_params(draw, t, max_shp=24, phase=None, single=False, max_c=1, probas=PROBAS,
                alphas=ALPHAS, pcts=PCTS, min_shp=1):
    p = {
        "n_shapelets": draw(st.integers(min_shp, max_shp)),
        "shapelet_lengths": draw(lengths_for(t, single=single)),
        "alpha": draw(st.sampled_from(alphas)),
        "proba_norm": draw(st.sampled_from(probas)),
        "percentiles": draw(st.sampled_from(pcts)),
        "phase_invariance": draw(st.booleans()) if phase is None else phase,
        "prime_dilations": draw(st.booleans()),
        "random_state": draw(st.integers(0, 2 ** 31 - 1)),
    }
    if max_c > 1 and draw(st.booleans()):
        p["max_channels"] = draw(st.integers(1, max_c + 2))
    return p


@st.composite
def clf_dataset(draw, min_n=6, max_n=10, min_t=8, max_t=18, min_c=1, max_c=1, variable=False,
                max_classes=4, big=16):
    """generic data with at least two classes, two series per class, in any order; one in
    `big` datasets is far larger in one dimension"""
    axis = draw(st.sampled_from(["n", "t", "classes"] + ["C"] * (max_c > 1))) if (
        big and draw(st.integers(0, big - 1)) == big - 1) else None
    if axis == "n":
        min_n, max_n, max_t = 20, 70, max(min_t, min(max_t, 10))
    elif axis == "t":
        min_t, max_t = max_t, 8 * max_t
    elif axis == "classes":
        min_n, max_n, max_classes = 18, 40, 12
    elif axis == "C":
        min_c, max_c = max_c, max_c + 8
    ds = draw(dataset(min_n=min_n, max_n=max_n, min_t=min_t, max_t=max_t, min_c=min_c,
                      max_c=max_c, kinds=("noise",), mixed=False, variable=variable))
    n = len(ds["X"])
    k = draw(st.integers(6 if axis == "classes" else 2, min(max_classes, n // 2)))
    y = [i % k for i in range(2 * k)] + draw(st.lists(st.integers(0, k - 1), min_size=n - 2 * k,
                                                      max_size=n - 2 * k))
    ds["y"] = draw(st.permutations(y))
    # a class-dependent level makes the classes learnable
    if draw(st.booleans()):
        for i, v in enumerate(ds["y"]):
            ds["X"][i][0] = [q + 3.0 * v for q in ds["X"][i][0]]
    return ds


@st.composite
def clf_params(draw, t):
    """parameters under which the features of generic data are not all constant"""
    hi = max(3, min(t // 2, 8))
    return {
        "n_shapelets": draw(st.integers(6, 20) if draw(st.integers(0, 23)) < 23 else
                            st.integers(40, 250 if t <= 40 else 60)),
        "shapelet_lengths": sorted(set(draw(st.lists(st.integers(3, hi), min_size=1,
                                                     max_size=2)))),
        "alpha": draw(st.sampled_from([0.25, 0.5, 0.75])),
        "proba_norm": draw(st.sampled_from([0.0, 0.5, 0.8])),
        "percentiles": draw(st.sampled_from([[5, 10], [20, 60], [10, 10]])),
        "phase_invariance": draw(st.booleans()),
        "prime_dilations": draw(st.booleans()),
        "random_state": draw(seeds),
    }


seeds = st.integers(0, 2 ** 31 - 1)
