"""C32: primes, log-biased choice, unique pairs."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, prelude
from .c31 import helper
from .common import Facet, Violation


def sieve(n):
    s = np.ones(n + 1, dtype=bool)
    s[0] = False
    for i in range(2, int(n ** 0.5) + 1):
        if s[i]:
            s[i * i::i] = False
    return np.where(s)[0]       # 1 counts, by convention of the library


def prime_case():
    return st.fixed_dictionaries({
        "n": st.one_of(st.integers(0, 60), st.integers(0, 3000),
                       st.sampled_from([p * p + e for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29,
                                                            31, 37, 41, 43, 47) for e in (-1, 0, 1)])),
        "big": st.integers(0, 200000), "near": st.sampled_from([101, 127, 151, 199, 211, 307, 401])})


def primes(case, ctx):
    n = case["n"]
    got, want = np.asarray(helper("prime_up_to")(n)), sieve(n)
    if got.shape != want.shape or not np.array_equal(got, want):
        d = sorted(set(got.tolist()) ^ set(want.tolist()))
        raise Violation("prime table up to %d is wrong about %s" % (n, d[:5]))
    f = helper("is_prime")
    tab = sieve(200000) if not hasattr(primes, "t") else primes.t
    primes.t = tab
    for q in (case["big"], case["near"] ** 2, case["near"] * 103, case["near"]):
        if bool(f(q)) != bool(q in tab):
            raise Violation("is_prime(%d) is %r" % (q, f(q)))
    ctx.nt(n > 8)


def choice_case():
    return st.fixed_dictionaries({
        "k": st.one_of(st.integers(1, 12), st.integers(1, 60), st.integers(61, 300)),
        "n": st.sampled_from([0, 1, 50, 2000, 4000, 6000, 6000]),
        "seed": gen.seeds})


def choice(case, ctx):
    from scipy.stats import binom, chisquare
    k, n = case["k"], case["n"]
    f = helper("choice_log")
    prelude.numba._scramble(case["seed"])
    v = np.asarray(f(k, n))
    if v.shape != (n,):
        raise Violation("choice_log(%d, %d) has shape %s" % (k, n, v.shape))
    if n and (v.min() < 0 or v.max() >= k):
        raise Violation("choice_log(%d, %d) returns index %d" % (
            k, n, v.max() if v.max() >= k else v.min()))
    if not np.issubdtype(v.dtype, np.integer):
        raise Violation("choice_log returns %s" % v.dtype)
    ctx.label("sizes only" if n < 2000 else "distribution")
    if n < 2000:
        return
    p = 2.0 ** -np.log(np.arange(1, k + 1))
    p = p / p.sum()
    c = np.bincount(v, minlength=k)
    cum, pc = np.cumsum(c), np.cumsum(p)
    for i in range(k):
        for obs, prob, what in ((c[i], p[i], "index"), (cum[i], min(1.0, pc[i]), "up to index")):
            t = min(binom.cdf(obs, n, prob), binom.sf(obs - 1, n, prob)) if prob < 1 else 1
            if t < 1e-11:
                raise Violation("choice_log(%d, %d): %s %d drawn %d times, expected about %.1f"
                                % (k, n, what, i, obs, n * prob))
    if k > 1 and (p * n).min() > 5:
        t = chisquare(c, p * n).pvalue
        if t < 1e-11:
            raise Violation("choice_log(%d, %d): counts %s, expected %s" % (
                k, n, c.tolist(), np.round(p * n, 1).tolist()))
    ctx.nt(k > 1)


def pair_case():
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 30))
        if draw(st.integers(0, 7)) == 0:
            # hundreds of shapelets of lengths and dilations of any size
            rng = np.random.RandomState(draw(gen.seeds))
            n, hx, hy = draw(st.integers(30, 400)), draw(st.sampled_from([4, 100, 3000])), \
                draw(st.sampled_from([10, 2500, 70000]))
            x, y = rng.randint(1, hx, size=n), rng.randint(1, hy, size=n)
            k = rng.randint(n // 2, n)      # some twice, some near others
            x[k:], y[k:] = x[:n - k], y[:n - k]
            y[0] = x[1] * 1000 + y[1] if hy > 4000 else 1000 + y[1]
            x[0] = max(1, x[1] - 1)
            return {"x": x.tolist(), "y": y.tolist()}
        a, b = draw(st.sampled_from([(1, 3), (2, 12), (7, 200)])), \
            draw(st.sampled_from([(1, 2), (1, 9), (1, 300)]))
        return {"x": draw(st.lists(st.integers(*a), min_size=n, max_size=n)),
                "y": draw(st.lists(st.integers(*b), min_size=n, max_size=n))}
    return s()


def pairs(case, ctx):
    x, y = np.array(case["x"], dtype=np.int64), np.array(case["y"], dtype=np.int64)
    kx, ky = x.copy(), y.copy()
    r = np.asarray(helper("_combinations_1d")(x, y))
    want = set(zip(case["x"], case["y"]))
    got = [(int(a), int(b)) for a, b in r]
    if len(got) != len(set(got)):
        raise Violation("a pair occurs twice: %s" % (sorted(got),))
    if set(got) != want:
        raise Violation("pairs %s, expected %s" % (sorted(got), sorted(want)))
    if not (np.array_equal(x, kx) and np.array_equal(y, ky)):
        raise Violation("the helper changed its input")
    ctx.nt(1 < len(want) < len(x))
    # length and dilation must not be confused
    if len({a for a, _ in want}) > 1 and len({b for _, b in want}) > 1:
        ctx.label("both vary")


def facets():
    return [
        Facet("primes", prime_case, primes, 400, rule="n above 8"),
        Facet("choice", choice_case, choice, 480, rule="distribution tested, several choices"),
        Facet("pairs", pair_case, pairs, 1600, rule="several pairs, one repeated"),
    ]
