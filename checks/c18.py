"""C18: input representations compute their definition, per series and channel."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from .common import Facet, Violation

WINDOWS = ["boxcar", "triang", "blackman", "hamming", "hann", "bartlett", "flattop", "parzen",
           "bohman", "blackmanharris", "nuttall", "barthann", "cosine", "exponential", "tukey",
           "taylor"]


@st.composite
def case_(draw):
    which = draw(st.sampled_from(["raw", "diff", "diff", "per", "per", "znorm", "hankel",
                                  "hankel", "random"]))
    ds = draw(gen.dataset(max_n=4, max_c=3, min_t=6, max_t=22))
    p = {}
    if which == "diff":
        if draw(st.integers(0, 5)):
            p["order"] = draw(st.integers(0, 4))
    elif which == "per":
        if draw(st.integers(0, 5)):
            p["window_type"] = draw(st.sampled_from(WINDOWS))
    elif which == "hankel":
        for k, s in (("dln", st.sampled_from([0.01, 0.05, 0.1, 0.3])),
                     ("mu", st.sampled_from([0.0, 0.5, 1, 2, 3.5])),
                     ("offset", st.sampled_from([0.0, 0.02, -0.1, 0.3])),
                     ("bias", st.sampled_from([0.0, 0.2, -0.3, 0.7])),
                     ("use_optimal_offset", st.booleans())):
            if draw(st.booleans()):
                p[k] = draw(s)
    elif which == "random":
        p["of"] = draw(st.sampled_from(["diff", "per"]))
    return {"which": which, "ds": ds, "p": p, "ro": draw(st.booleans()),
            "lay": draw(st.sampled_from(["C", "F", "strided"]))}


@st.composite
def large_case(draw):
    """long series, many series or many channels; the data comes from a seed"""
    c = draw(case_())
    axis = draw(st.sampled_from(["t", "t", "n", "C"]))
    n, C, t = st.integers(1, 3), st.integers(1, 3), st.integers(6, 14)
    if axis == "t":
        t = st.one_of(st.integers(60, 700), st.sampled_from([128, 255, 256, 257, 512, 600]))
    elif axis == "n":
        n = st.integers(20, 300)
    else:
        C = st.integers(8, 64)
    if c["which"] == "hankel":
        # the bias spreads the samples over many orders of magnitude: stay well-conditioned
        c["p"] = {k: v for k, v in c["p"].items() if k not in ("dln", "bias")}
        c["p"]["bias"] = draw(st.sampled_from([0.0, 0.2, -0.1]))
    c["ds"] = {"seed": draw(gen.seeds), "n": draw(n), "C": draw(C), "t": draw(t),
               "kind": "large", "axis": axis}
    return c


def data(ds):
    if "X" in ds:
        return gen.to_array(ds["X"]), np.asarray(ds["y"])
    rng = np.random.RandomState(ds["seed"])
    X = rng.randn(ds["n"], ds["C"], ds["t"]) * np.exp(rng.randn(ds["n"], ds["C"], 1) * 2)
    X += rng.randint(-3, 4, size=(ds["n"], ds["C"], 1)) * 5.0
    for i in range(ds["n"]):
        if rng.rand() < 0.15:
            X[i, rng.randint(ds["C"])] = rng.randint(-3, 4)
    return X, rng.randint(0, 3, size=ds["n"])


def build(which, p):
    from convst.transformers import _input_transformers as m
    if which == "random":
        return (m.Derivate if p["of"] == "diff" else m.Periodigram)(random=True)
    return {"raw": m.Raw, "diff": m.Derivate, "per": m.Periodigram, "znorm": m.Z_normalizer,
            "hankel": m.FastHankelTransform}[which](**p)


def diff(x, order):
    for _ in range(order):
        x = np.array([x[i + 1] - x[i] for i in range(len(x) - 1)])
    return x


def spectrum(x, window):
    from scipy.signal import get_window
    n = len(x)
    w = get_window(str(window), n)
    k = np.arange(n // 2 + 1)
    e = np.exp(-2j * np.pi * np.outer(k, np.arange(n)) / n)
    p = np.abs(e @ (x * w)) ** 2 / np.sum(w ** 2)
    p[1:(n + 1) // 2] *= 2
    return p


def hankel(x, dln=0.01, mu=1, offset=0.0, bias=0.0, use_optimal_offset=True):
    """FFTLog from its definition: discrete cosine/sine series of the biased samples times
    the transform's coefficients"""
    from scipy.fft import fhtoffset
    from scipy.special import loggamma
    if use_optimal_offset:
        offset = fhtoffset(dln, mu, bias=bias)
    n = len(x)
    jc = (n - 1) / 2
    j = np.arange(n)
    a = x * np.exp(-bias * (j - jc) * dln) if bias else x
    m = np.arange(n // 2 + 1)
    y = 2 * np.pi * m / (n * dln)
    xp, xm = (mu + 1 + bias) / 2, (mu + 1 - bias) / 2
    u = np.exp(bias * np.log(2) + loggamma(xp + 0.5j * y) - loggamma(xm - 0.5j * y)
               + 1j * y * (np.log(2) - offset))
    if n % 2 == 0:
        u[-1] = u[-1].real
    A = np.fft.irfft(np.fft.rfft(a) * u, n)[::-1]
    if bias:
        A = A * np.exp(-bias * ((j - jc) * dln + offset))
    return A


def check(case, ctx):
    which, p = case["which"], dict(case["p"])
    X, y = data(case["ds"])
    if case["lay"] == "F":
        X = np.asfortranarray(X)
    elif case["lay"] == "strided":
        b = np.zeros(X.shape[:2] + (2 * X.shape[2],))
        b[:, :, ::2] = X
        X = b[:, :, ::2]
    keep = X.copy()
    t = build(which, p)
    G = np.asarray(t.fit_transform(X, y))
    if not np.array_equal(X, keep):
        raise Violation("%s %s changes its input" % (which, p))
    name = "%s %s" % (which, p)
    if which == "random":
        which = p["of"]
        p = ({"order": int(t.order)} if which == "diff"
             else {"window_type": str(t.window_type)})
        if which == "diff" and not 1 <= p["order"] <= 4:
            raise Violation("random order %r" % p["order"])
    scale = 1.0
    tol = 0.0
    for i in range(len(X)):
        for c in range(X.shape[1]):
            x = keep[i, c]
            s = np.abs(x).max()
            if which == "raw":
                want = x
            elif which == "diff":
                want = diff(x, p.get("order", 1))
                tol = 1e-12 * (1 + s)
            elif which == "per":
                want = spectrum(x, p.get("window_type", "boxcar"))
                tol = 1e-9 * (1 + len(x) * s * s)
            elif which == "znorm":
                want = (x - x.mean()) / (x.std() + 1e-8)
                tol = 1e-6
                if np.all(x == x[0]):
                    want, tol = np.zeros(len(x)), 1e-5
            else:
                want = hankel(x, **p)
                tol = 1e-8 * (1 + np.abs(want).max())
            got = G[i, c] if G.ndim == 3 and G.shape[:2] == X.shape[:2] else None
            if got is None or got.shape != want.shape:
                raise Violation("%s: output %s for input %s, expected %d points per channel"
                                % (name, G.shape, X.shape, len(want)))
            if not np.all(np.isfinite(got)):
                raise Violation("%s: non-finite output" % name)
            if np.abs(got - want).max() > tol * scale:
                k = int(np.abs(got - want).argmax())
                raise Violation("%s: series %d channel %d entry %d is %r, expected %r"
                                % (name, i, c, k, float(got[k]), float(want[k])))
    if not np.array_equal(np.asarray(t.transform(keep)), G):
        raise Violation("%s: transforming again gives other values" % name)
    j = len(X) - 1
    one = np.asarray(t.transform(keep[j:j + 1]))
    if one.shape != G[j:j + 1].shape or np.abs(one - G[j:j + 1]).max() > tol:
        raise Violation("%s: series %d alone gives other values" % (name, j))
    ctx.label(case["which"])
    ctx.nt(case["ds"]["kind"] != "const" and X.shape[0] * X.shape[1] > 1)


WINDOWS = ["boxcar", "triang", "blackman", "hamming", "hann", "bartlett", "flattop", "parzen",
           "bohman", "blackmanharris", "nuttall", "barthann", "cosine", "exponential", "tukey",
           "taylor"]


@st.composite
def draws_case(draw):
    return {"of": draw(st.sampled_from(["diff", "per"])), "seed": draw(gen.seeds),
            "via": draw(st.sampled_from(["fit", "fit", "clone", "set_params"])),
            "pair": draw(st.booleans())}


def draws(case, ctx):
    """random mode: each fit draws an order of 1 to 4, or one of the windows, any of them"""
    from sklearn.base import clone
    np.random.seed(case["seed"])
    X = np.random.RandomState(case["seed"]).randint(-9, 10, size=(2, 1, 9)) / 4.0
    per = case["of"] == "per"
    want = WINDOWS if per else [1, 2, 3, 4]
    seen = {}
    base = build("random", case)
    for _ in range(700 if per else 140):
        if case["via"] == "clone":
            t = clone(base)
        elif case["via"] == "set_params":
            t = type(base)().set_params(random=True)
        else:
            t = base
        t.fit(X)
        v = t.get_params()["window_type" if per else "order"]
        v = str(v) if per else int(v)
        if v not in want:
            raise Violation("random mode draws %r" % v)
        if v not in seen:
            seen[v] = 1
            G = np.asarray(t.transform(X))
            W = np.array([[spectrum(c, v) if per else diff(c, v) for c in x] for x in X])
            if G.shape != W.shape or np.abs(G - W).max() > 1e-9 * (1 + np.abs(W).max()):
                raise Violation("random mode reports %r, its output is another" % v)
    # each value is missed with probability below 1e-17
    if len(seen) != len(want):
        raise Violation("random mode never draws %s" % sorted(set(want) - set(seen)))
    ctx.label(case["of"], case["via"])
    ctx.nt()


def facets():
    return [
        Facet("random mode", draws_case, draws, 24, rule="hundreds of fits in random mode: only "
              "and all of the documented values, and the output matches"),
        Facet("definition", case_, check, 2400, rule="against the difference, the direct Fourier "
              "sum, the standardisation, the FFTLog definition; input unchanged; repeatable; "
              "per series; non-trivial: several rows, non-constant kind"),
        Facet("large", large_case, check, 160, rule="the same for up to 700 points, 300 series "
              "or 64 channels"),
    ]
