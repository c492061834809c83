"""C08: alpha similarity - near-duplicate shapelets are never sampled."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from .common import Facet, Violation, large_case, large_data, large_params

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


@st.composite
def case_strategy(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    ds = draw(gen.dataset(min_n=1, max_n=3, min_c=2 if multi else 1, max_c=3 if multi else 1,
                          min_t=5, max_t=30, kinds=("distinct",), mixed=False, variable=var))
    t = min(len(x[0]) for x in ds["X"])
    Ls = draw(st.lists(st.integers(2, min(t, 11)), min_size=1, max_size=3, unique=True))
    p = {"n_shapelets": draw(st.integers(2, 60)), "shapelet_lengths": Ls,
         "alpha": draw(st.one_of(st.sampled_from([0.0, 0.25, 0.5, 0.75, 0.9, 1.0]),
                                 st.integers(0, 100).map(lambda v: v / 100))),
         "proba_norm": draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
         "phase_invariance": draw(st.booleans()),
         "prime_dilations": draw(st.booleans()),
         "random_state": draw(gen.seeds), "percentiles": [5, 10]}
    if multi:
        p["max_channels"] = draw(st.sampled_from([1, 1, 2, 3]))
    return {"ds": ds, "p": p, "kind": kind}


def similar(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    close, pruned = pairs(X, y, case["p"])
    ctx.label(case["kind"], "exhausted" if pruned else "not exhausted",
              "phase" if case["p"]["phase_invariance"] else "no-phase")
    ctx.nt((close > 0 or pruned) and case["p"]["alpha"] > 0)


@st.composite
def large_alpha(draw):
    c = draw(large_case(max_n=6, max_t=70, max_shp=150, axes=[None, None, "n", "shp", "shp", "C",
                                                               "len"]))
    c["p"]["alpha"] = draw(st.sampled_from([0.25, 0.5, 0.75, 0.9, 0.95, 1.0]))
    return c


def large(case, ctx):
    X, y = large_data(case)
    close, pruned = pairs(X, y, large_params(case, X))
    ctx.label(case["kind"], "axis %s" % case["axis"])
    ctx.nt(close > 0 or pruned)


def pairs(X, y, p):
    ph, alpha = p["phase_invariance"], p["alpha"]
    est = model.R_DST(**p).fit(X, y)
    shps = model.unpack(est.shapelets_)
    if len(shps) > p["n_shapelets"]:
        raise Violation("more shapelets than asked")
    groups = {}
    for j, s in enumerate(shps):
        src = oracle.sources(X, s, ph)
        if len(src) != 1:       # normalised windows may coincide: not attributable
            continue
        i, start = src[0]
        groups.setdefault((s["length"], s["dilation"], s["norm"], i), []).append(
            (start, j, frozenset(int(c) for c in s["channels"])))
    close = 0
    for (L, d, norm, i), members in groups.items():
        t = len(X[i][0])
        shared_max = int(max(1, (1 - alpha) * L + 1e-9))
        for a in range(len(members)):
            for b in range(a + 1, len(members)):
                (s1, j1, c1), (s2, j2, c2) = members[a], members[b]
                common = len(c1 & c2)
                # that many channels may be sampled again
                if common <= (1 - alpha) * max(len(c1), len(c2)) + 1e-9:
                    continue
                for k in range(L):
                    if k == 0 and s1 != s2:
                        continue
                    hit = (s1 + k * d == s2 or s2 + k * d == s1) if not ph else (
                        (s1 + k * d - s2) % t == 0 or (s2 + k * d - s1) % t == 0)
                    if not hit:
                        continue
                    close += 1
                    if L - k > shared_max:
                        raise Violation(
                            "shapelets %d and %d (length %d, dilation %d, norm %s, series %d, "
                            "channels %s and %s, phase %s) start at %d and %d: %d aligned shared "
                            "indexes, at most %d allowed for alpha=%s" % (
                                j1, j2, L, d, norm, i, sorted(c1), sorted(c2), ph, s1, s2,
                                L - k, shared_max, alpha))
    if len(shps) < p["n_shapelets"]:
        complete(X, p, shps)
    return close, len(shps) < p["n_shapelets"]


def complete(X, p, shps):
    """a shapelet is left out only when all its candidates are too similar to drawn ones: there
    must be a length, dilation, normalisation and choice of channels without a free start, even
    if every drawn shapelet excluded as much as the shortest length may"""
    ph, alpha, C = p["phase_invariance"], p["alpha"], len(X[0])
    if C > 4:
        return
    short = min(len(x[0]) for x in X)
    lengths = sorted(set(int(v) for v in p["shapelet_lengths"]))
    if lengths[-1] > short or lengths[0] < 2:
        return
    free = {}
    for s in shps:
        m = free.setdefault((s["dilation"], bool(s["norm"])),
                            [np.ones((C, len(x[0])), dtype=bool) for x in X])
        reach = s["length"] - int(max(1, (1 - alpha) * lengths[0] - 1e-9))
        for i, start in oracle.sources(X, s, ph):
            t = len(X[i][0])
            for j in range(reach):
                for c in s["channels"]:
                    m[i][int(c), (start - j * s["dilation"]) % t] = False
                    m[i][int(c), (start + j * s["dilation"]) % t] = False
    most = min(C, p.get("max_channels") or C)
    for (d, _), m in free.items():
        for L in lengths:
            if (L - 1) * d > short - 1:
                continue
            for n in range(1, most + 1):
                for chans in itertools.combinations(range(C), n):
                    if not any((f[list(chans), :f.shape[1] if ph else f.shape[1] - (L - 1) * d]
                                .sum(axis=0) >= n * alpha + 1e-9).any() for f in m):
                        return
    raise Violation("%d of %d shapelets were drawn (lengths %s, alpha=%s, phase %s), although for "
                    "every length, dilation and normalisation there are starts left that do not "
                    "overlap the drawn ones too much" % (len(shps), p["n_shapelets"], lengths,
                                                         alpha, ph))


@st.composite
def tiny_case(draw):
    """search spaces that are exhausted at once, several lengths"""
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    ds = draw(gen.dataset(min_n=1, max_n=2, min_c=2 if multi else 1, max_c=3 if multi else 1,
                          min_t=3, max_t=8, kinds=gen.ALL, variable=var))
    t = min(len(x[0]) for x in ds["X"])
    p = draw(gen.rdst_params(t, max_shp=80, min_shp=30))
    p["shapelet_lengths"] = sorted({min(l, t) for l in p["shapelet_lengths"]})
    return {"ds": ds, "p": p, "kind": kind}


def tiny(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    est = model.R_DST(**case["p"]).fit(X, y)
    shps = model.unpack(est.shapelets_)
    if len(shps) > case["p"]["n_shapelets"]:
        raise Violation("more shapelets than asked")
    if shps:
        est.transform(X)
    ctx.label(case["kind"], "empty" if not shps else "some")
    ctx.nt(len(shps) < case["p"]["n_shapelets"])


def facets():
    return [
        Facet("large", large_alpha, large, 80, rule="larger data, up to 450 shapelets, 16 "
              "channels, lengths up to 120; non-trivial: a pair that overlaps, or an exhausted "
              "space"),
        Facet("similar", case_strategy, similar, 1500, rule="fits with one to three "
              "lengths on data whose windows are all distinct; every pair of shapelets of equal "
              "length, dilation, normalisation and series sharing enough channels; non-trivial: alpha>0 and a pair "
              "that overlaps, or an exhausted space"),
        Facet("exhaustion", tiny_case, tiny, 500, rule="30-80 shapelets asked of tiny data; "
              "non-trivial: fewer were returned"),
    ]
