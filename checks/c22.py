"""C22: stratified resampling is a class-preserving, seeded re-partition."""
import collections
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, model    # noqa: F401
from .common import Facet, Violation


@st.composite
def case_(draw, room=False):
    var = draw(st.booleans())
    C = draw(st.integers(1, 2))
    t = draw(st.integers(3, 8))
    labs = draw(st.sampled_from([[0, 1, 2, 3], [1, 2, 3, 4], [-1, 1, 5, 9], [3, 1, 2, 0],
                                 ["a", "b", "c", "d"], ["1", "10", "2", "-1"],
                                 ["a", "A", " a", "ab"], ["1", "1.0", "01", "+1"],
                                 [1e-4, 2e-4, 3e-4, 4e-4], [2 ** 52 + i for i in range(4)],
                                 [1.0, 1 + 2.0 ** -50, 1 - 2.0 ** -50, -1.0],
                                 [1e-300, 0.0, 2e-300, -1e-300],
                                 [0.5, 1.5, 2.5, 3.5]]))
    k = draw(st.integers(1, 4))
    out = {"var": var, "seed": draw(st.integers(0, 2 ** 32 - 1)), "glob": draw(gen.seeds)}
    kinds = ("distinct",) if room else ("ties", "distinct", "noise", "dyadic", "spike")
    kind = draw(st.sampled_from(kinds))
    low = 1
    for p, q in (("a", 0), ("b", 1)):
        counts = [draw(st.integers(low, 5)) for _ in range(k)]
        y = [labs[c] for c in range(k) for _ in range(counts[c])]
        y = draw(st.permutations(y))
        out["y" + p] = list(y)
        out["X" + p] = [[draw(gen.series(draw(st.integers(3, 8)) if var and c == 0 else
                                         t, kind, salt=50 * q + 2 * i + c))
                         for c in range(C)] for i in range(len(y))]
        if var:             # channels of one series have one length
            for x in out["X" + p]:
                m = min(len(c) for c in x)
                x[:] = [c[:m] for c in x]
    return out


def pairs(X, y):
    return collections.Counter((np.asarray(x, dtype=float).shape,
                                np.asarray(x, dtype=float).tobytes(), _key(v))
                               for x, v in zip(X, y))


def _key(v):
    return v if isinstance(v, str) else float(v)


def data(case):
    conv = gen.to_list if case["var"] else gen.to_array
    return (conv(case["Xa"]), np.array(case["ya"]), conv(case["Xb"]), np.array(case["yb"]))


def counts(y):
    return collections.Counter(_key(v) for v in np.asarray(y).tolist())


def check(case, ctx):
    from convst.utils.experiments_utils import _resample
    Xa, ya, Xb, yb = data(case)
    np.random.seed(case["glob"])
    r = _resample(Xa, ya, Xb, yb, case["seed"])
    Ra, la, Rb, lb = r
    Oa, oa, Ob, ob = data(case)
    if pairs(Xa, ya) != pairs(Oa, oa) or pairs(Xb, yb) != pairs(Ob, ob) or \
            not all(np.array_equal(u, v) for u, v in zip(list(Xa) + list(Xb),
                                                         list(Oa) + list(Ob))) or \
            len(Xa) != len(Oa) or not np.array_equal(ya, oa) or not np.array_equal(yb, ob):
        raise Violation("resampling changes its input")
    for R, l, O, o, w in ((Ra, la, Oa, oa, "train"), (Rb, lb, Ob, ob, "test")):
        if len(R) != len(O) or len(l) != len(O):
            raise Violation("%s part has %d series and %d labels, had %d" % (w, len(R), len(l),
                                                                            len(O)))
        if counts(l) != counts(o):
            raise Violation("%s part has class counts %s, had %s" % (w, dict(counts(l)),
                                                                     dict(counts(o))))
        if isinstance(R, list) != isinstance(O, list):
            raise Violation("%s part is a %s" % (w, type(R).__name__))
    got = pairs(Ra, np.asarray(la).tolist()) + pairs(Rb, np.asarray(lb).tolist())
    want = pairs(Oa, oa.tolist()) + pairs(Ob, ob.tolist())
    if got != want:
        lost = want - got
        raise Violation("%d of %d (series, label) pairs are lost by resampling"
                        % (sum(lost.values()), sum(want.values())))
    np.random.seed(case["glob"] // 2 + 1)
    s = _resample(*data(case), case["seed"])
    if not (len(s[0]) == len(Ra) and all(np.array_equal(u, v) for u, v in zip(s[0], Ra)) and
            all(np.array_equal(u, v) for u, v in zip(s[2], Rb)) and
            np.array_equal(s[1], la) and np.array_equal(s[3], lb)):
        raise Violation("the same seed gives another resample")
    ctx.label("variable" if case["var"] else "fixed", "labels %s" % oa.dtype.kind)
    ctx.nt(len(counts(oa)) > 1 and pairs(Ra, np.asarray(la).tolist()) != pairs(Oa, oa.tolist()))


def room(case, ctx):
    """over many seeds, every class with room is really re-partitioned"""
    from convst.utils.experiments_utils import _resample
    N = 60
    Xa, ya, Xb, yb = data(case)
    seen = {}
    for s in range(N):
        Ra, la, Rb, lb = _resample(*data(case), (case["seed"] + s) % 2 ** 32)
        for c in counts(ya):
            mine = [x for x, v in zip(Ra, np.asarray(la).tolist()) if _key(v) == c]
            seen.setdefault(c, set()).add(frozenset(pairs(mine, [0] * len(mine)).items()))
    for c, parts in seen.items():
        a, b = counts(ya)[c], counts(yb)[c]
        # a class with a train and b test series has C(a+b, a) >= 2 partitions
        # (series are distinct); a uniform draw gives one of them 60 times over
        # with probability at most 2**-59
        if b and len(parts) < 2:
            raise Violation("%d seeds always give the same train series of class %s (%d train, "
                            "%d test series)" % (N, c, a, b))
    ctx.label("variable" if case["var"] else "fixed")
    ctx.nt(any(len(p) > 2 for p in seen.values()))


@st.composite
def many_case(draw):
    i = st.integers
    return {"var": draw(st.booleans()), "seed": draw(i(0, 2 ** 32 - 1)), "C": draw(i(1, 2)),
            "glob": draw(gen.seeds), "data": draw(gen.seeds),
            "sizes": [[draw(i(1, 400 if q == 0 else 12)) for _ in range(2)]
                      for q in range(draw(i(1, 12)))]}


def many(case, ctx):
    """the same for classes of hundreds of series, in no particular order"""
    rng = np.random.RandomState(case["data"])
    case = dict(case)
    order = rng.permutation(len(case["sizes"]))
    for p, q in (("a", 0), ("b", 1)):
        y = np.concatenate([np.full(s[q], k) for k, s in zip(order, case["sizes"])])
        case["y" + p] = rng.permutation(y).tolist()
        case["X" + p] = [rng.randint(-99, 99, size=(case["C"], 4 + rng.randint(3) * case["var"]))
                         .astype(float).tolist() for _ in y]
    check(case, ctx)
    n = sum(map(sum, case["sizes"]))
    bits = sum(math.log2(math.comb(a + b, a)) for a, b in case["sizes"])
    if n <= 300 and bits > 80:
        # seeds apart by one bit: two of these 33 resamples agree with probability < 2**-60
        from convst.utils.experiments_utils import _resample
        seen = {}
        for s in [case["seed"]] + [case["seed"] ^ (1 << k) for k in range(32)]:
            R, l, _, _ = _resample(*data(case), s)
            part = frozenset(pairs(R, np.asarray(l).tolist()).items())
            if part in seen:
                raise Violation("seeds %d and %d give the same resample of %d series (about "
                                "2**%d are possible)" % (seen[part], s, n, bits))
            seen[part] = s
        ctx.label("seeds apart by one bit")
    ctx.label("class of %d+" % (max(sum(s) for s in case["sizes"]) // 100 * 100))


def facets():
    return [
        Facet("many", many_case, many, 60, rule="the same for classes of up to 400 series"),
        Facet("partition", case_, check, 1200, rule="pairs, sizes, class counts, repeatability, "
              "inputs; non-trivial: several classes and the partition differs from the given"),
        Facet("seeds", lambda: case_(room=True), room, 120, rule="sixty seeds, pairwise distinct "
              "series: every class is re-partitioned; non-trivial: more than two partitions"),
    ]
