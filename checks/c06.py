"""C06: sampled shapelet parameters respect every constraint the user set."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.stats import binom

from vf import gen, model, oracle
from .common import Facet, Skip, Violation, fit_case, large_case, large_data

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def check_constraints(shps, p, X, tmin, lengths):
    C = len(X[0])
    maxc = p.get("max_channels") or C
    for j, s in enumerate(shps):
        L, d = s["length"], s["dilation"]
        if L not in lengths:
            raise Violation("shapelet %d has length %d, allowed %s" % (j, L, lengths))
        if d < 1 or (L - 1) * d > tmin - 1:
            raise Violation("shapelet %d: dilation %d of length %d does not fit in %d points"
                            % (j, d, L, tmin))
        if p["prime_dilations"] and not (d == 1 or oracle.is_prime(d)):
            raise Violation("shapelet %d: dilation %d is not prime" % (j, d))
        ch = s["channels"]
        if not 1 <= len(ch) <= maxc:
            raise Violation("shapelet %d uses %d channels, limit %d" % (j, len(ch), maxc))
        if len(set(ch)) != len(ch) or not all(0 <= c < C for c in ch):
            raise Violation("shapelet %d has channels %s of %d" % (j, ch, C))
        if p["proba_norm"] == 0.0 and s["norm"] or p["proba_norm"] == 1.0 and not s["norm"]:
            raise Violation("shapelet %d: normalised=%s with probability %s"
                            % (j, s["norm"], p["proba_norm"]))
    if len(shps) > p["n_shapelets"]:
        raise Violation("%d shapelets, %d asked" % (len(shps), p["n_shapelets"]))


@st.composite
def case_strategy(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    c = draw(fit_case(variable=var, multi=multi, max_n=5, max_t=40, max_shp=24, max_c=4,
                      kinds=("distinct",), exactish=True)())
    c["kind"] = kind
    c["unit"] = draw(st.sampled_from([0, 0, 0, -25, -60, 20]))
    return c


def constraints(case, ctx):
    if "ds" in case:
        X, y = model.data(case["ds"], case["kind"].endswith("variable"))
        unit = 2.0 ** case.get("unit", 0)       # another unit, exactly
        X = [x * unit for x in X] if isinstance(X, list) else X * unit
        p = case["p"]
    else:
        X, y = large_data(case)
        tmin = min(x.shape[1] for x in X)
        p = dict(case["p"], shapelet_lengths=sorted(
            {min(l, tmin) for l in case["p"]["shapelet_lengths"]}))
    est = model.R_DST(**p).fit(X, y)
    shps = model.unpack(est.shapelets_)
    tmin = min(len(x[0]) for x in X)
    lengths = oracle.resolve_lengths(p, tmin)
    check_constraints(shps, p, X, tmin, lengths)
    # with one length and alpha 0 nothing is ever pruned on this data
    if len(lengths) == 1 and p["alpha"] == 0.0 and len(shps) != p["n_shapelets"]:
        raise Violation("%d shapelets of %d asked, though nothing can be pruned"
                        % (len(shps), p["n_shapelets"]))
    full = len(shps) == p["n_shapelets"]
    # enough room: every shapelet removes at most 2*L starts per channel
    room = len(X) * min(tmin - (L - 1) * max(1, (tmin - 1) // (L - 1)) for L in lengths)
    if not full and room > p["n_shapelets"] * 2 * max(lengths) * len(X[0]):
        raise Violation("only %d of %d shapelets though the space is not exhausted"
                        % (len(shps), p["n_shapelets"]))
    ctx.label(case["kind"], "full" if full else "pruned",
              "prime" if p["prime_dilations"] else "all dilations")
    ctx.nt(len(shps) > 2 and any(s["dilation"] > 1 for s in shps))


@st.composite
def support_case(draw):
    kind = draw(st.sampled_from(KINDS))
    t = draw(st.integers(6, 30))
    lens = draw(st.lists(st.integers(2, min(8, t)), min_size=1, max_size=4, unique=True))
    return {"kind": kind, "t": t, "lengths": sorted(lens), "n": 12,
            "C": draw(st.integers(2, 4)), "maxc": draw(st.integers(0, 6)),
            "p": draw(st.one_of(st.sampled_from([0.2, 0.5, 0.8, 0.9]),
                                st.integers(2, 98).map(lambda v: v / 100.0))),
            "phase": draw(st.booleans()),
            "prime": draw(st.booleans()), "seed": draw(gen.seeds)}


@st.composite
def many_case(draw):
    """far more places to take a shapelet from; all sizes alike"""
    seed = draw(gen.seeds)
    rng = np.random.RandomState(seed)
    pick = lambda v: v[rng.randint(len(v))]    # noqa: E731
    return {"kind": pick(KINDS), "t": int(rng.randint(30, 70)), "n": int(rng.randint(20, 120)),
            "lengths": [int(rng.randint(2, 8))], "C": int(rng.randint(2, 4)),
            "maxc": int(rng.randint(0, 4)), "p": pick([0.1, 0.25, 0.4]),
            "phase": bool(rng.randint(2)), "prime": bool(rng.randint(2)), "seed": seed}


N_SUPPORT = 500


def support(case, ctx):
    """many single-purpose samples: every admissible value occurs"""
    kind, t = case["kind"], case["t"]
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    C = case["C"] if multi else 1
    n = case.get("n", 12)
    rng = np.random.RandomState(case["seed"])
    X = rng.randn(n, C, t)
    if var:
        X = [np.concatenate((x, rng.randn(C, rng.randint(0, 5))), axis=1) for x in X]
        X[0] = X[0][:, :t]
    tmin = min(x.shape[1] for x in X)
    y = np.arange(n) % 2
    p = {"n_shapelets": N_SUPPORT, "shapelet_lengths": case["lengths"], "alpha": 0.0,
         "proba_norm": case["p"], "prime_dilations": case["prime"],
         "random_state": case["seed"], "phase_invariance": case["phase"],
         "percentiles": [5, 10]}
    if multi and case["maxc"]:
        p["max_channels"] = case["maxc"]
    # one length per fit: with alpha=0 and a single length nothing is pruned
    allshp = []
    per = N_SUPPORT if n == 12 else 4000
    for L in case["lengths"]:
        p["shapelet_lengths"] = [L]
        p["n_shapelets"] = per
        shps = model.unpack(model.R_DST(**p).fit(X, y).shapelets_)
        check_constraints(shps, p, X, tmin, [L])
        if len(shps) != per:
            raise Violation("%d shapelets of %d asked, though nothing can be pruned"
                            % (len(shps), per))
        dmax = (tmin - 1) // (L - 1)
        seen = {s["dilation"] for s in shps}
        if case["prime"]:
            cand = [d for d in range(1, dmax + 1) if d == 1 or oracle.is_prime(d)]
            w = [2 ** -math.log(i + 1) for i in range(len(cand))]
            probs = {d: w[i] / sum(w) for i, d in enumerate(cand)}
        elif dmax == 1:
            probs = {1: 1.0}
        else:
            probs = {d: (math.log2(d + 1) - math.log2(d)) / math.log2(dmax)
                     for d in range(1, dmax)}
        for d, q in probs.items():
            if d == dmax and dmax > 1:
                continue    # the maximal one may be lost to rounding (see properties)
            if q * per > 30 and d not in seen:
                raise Violation("dilation %d (length %d, %d points, prime %s) never occurs in "
                                "%d shapelets" % (d, L, tmin, case["prime"], per))
            if q * per > 30:
                ctx.nt()
        allshp += shps
    k = len(allshp)
    f = sum(s["norm"] for s in allshp) / k
    v = int(round(f * k))
    if min(binom.cdf(v, k, case["p"]), binom.sf(v - 1, k, case["p"])) < 1e-11:
        raise Violation("normalised fraction %.3f of %d shapelets, requested %.2f"
                        % (f, k, case["p"]))
    if multi:
        maxc = min(C, p.get("max_channels") or C)
        cnt = {len(s["channels"]) for s in allshp}
        if cnt != set(range(1, maxc + 1)):
            raise Violation("channel counts %s occur, limit %d of %d" % (sorted(cnt), maxc, C))
        used = {c for s in allshp for c in s["channels"]}
        if used != set(range(C)):
            raise Violation("channels %s occur, of %d" % (sorted(used), C))
        one = {s["channels"][0] for s in allshp if len(s["channels"]) == 1}
        if one != set(range(C)):
            raise Violation("single-channel shapelets only use channels %s of %d"
                            % (sorted(one), C))
    starts(X, [s for s in allshp if not s["norm"]], case["phase"], ctx)
    ctx.label(kind, "prime" if case["prime"] else "all dilations")


def starts(X, raw, phase, ctx):
    """nothing pruned: every series and every start, counted from either end, occurs"""
    n = len(X)
    at = {}
    for i, x in enumerate(X):
        for c in range(x.shape[0]):
            for q, v in enumerate(x[c]):
                at[(c, float(v))] = (i, q)
    expected, seen, per = {}, set(), {}

    def keys(i, q, span, a):
        # counted from either end; which fifth of all the places, series by series
        where = ("fifth of all places", int(5 * (i + q / a) / n))
        return [("series", i), ("start", q), ("from the end", a - 1 - q), where,
                where + ("for a span of %d" % span,)]
    for s in raw:
        v = at.get((s["channels"][0], float(s["values"][0][0])))
        if v is None:
            raise Violation("a raw shapelet starts with no value of the training series")
        i, q = v
        span = 0 if phase else (s["length"] - 1) * s["dilation"]
        seen.update(keys(i, q, span, X[i].shape[1] - span))
        per[span] = per.get(span, 0) + 1
    for span, m in per.items():
        for k in range(n):
            a = X[k].shape[1] - span
            for r in range(a):
                for w in keys(k, r, span, a):
                    expected[w] = expected.get(w, 0) + m / n / a
    for k, e in expected.items():
        if e > 30:
            ctx.label("starts tested")
            if k not in seen:
                raise Violation("%s %s never occurs among %d raw shapelets (phase %s), %d "
                                "expected" % (k[0], " ".join(map(str, k[1:])), len(raw), phase,
                                              e))


@st.composite
def mixed_case(draw):
    return {"k": draw(st.integers(2, 6)), "lo": draw(st.integers(2, 5)),
            "kind": draw(st.sampled_from(KINDS)), "seed": draw(st.integers(0, 10 ** 6))}


def mixed(case, ctx):
    """one-shapelet fits: every length occurs, and each start occurs"""
    var, multi = case["kind"].endswith("variable"), case["kind"].startswith("multi")
    lens = list(range(case["lo"], case["lo"] + case["k"]))
    t, C = 14, 2 if multi else 1
    rng = np.random.RandomState(case["seed"])
    X = rng.randn(2, C, t)
    X = list(X) if var else X
    y = np.array([0, 1])
    seen = {}
    trials = 32 * case["k"]
    for q in range(trials):
        est = model.R_DST(n_shapelets=1, shapelet_lengths=lens, random_state=case["seed"] + q,
                          proba_norm=0.0)
        s = model.unpack(est.fit(X, y).shapelets_)
        if len(s) != 1:
            raise Violation("%d shapelets, 1 asked" % len(s))
        seen[s[0]["length"]] = seen.get(s[0]["length"], 0) + 1
    if sorted(seen) != lens:
        raise Violation("lengths %s occur in %d fits, allowed %s" % (sorted(seen), trials, lens))
    for L, c in seen.items():
        sd = math.sqrt(trials / case["k"] * (1 - 1 / case["k"]))
        if abs(c - trials / case["k"]) > 7 * sd:
            raise Violation("length %d occurs %d times of %d with %d lengths"
                            % (L, c, trials, case["k"]))
    ctx.nt()


@st.composite
def single_case(draw):
    """series no longer than the shapelet: one start each"""
    t, n, C = draw(st.integers(2, 9)), draw(st.integers(1, 3)), draw(st.integers(2, 3))
    kind = draw(st.sampled_from(KINDS))
    t = max(t, 3)
    C = C if kind.startswith("multi") else 1
    X = [[draw(gen.series(t, "distinct", salt=i * C + c)) for c in range(C)] for i in range(n)]
    return {"kind": kind, "X": X, "p": {
        "n_shapelets": draw(st.integers(1, 6)), "shapelet_lengths": [t],
        "alpha": draw(st.sampled_from([0.0, 0.5, 1.0])), "proba_norm": 0.0,
        "phase_invariance": False, "prime_dilations": draw(st.booleans()),
        "random_state": draw(gen.seeds)}}


def single(case, ctx):
    X = [np.array(x) for x in case["X"]]
    X = X if case["kind"].endswith("variable") else np.stack(X)
    p = case["p"]
    shps = model.unpack(model.R_DST(**p).fit(X, np.arange(len(X)) % 2).shapelets_)
    if any(s["dilation"] != 1 for s in shps):
        raise Violation("dilations %s, only 1 fits" % [s["dilation"] for s in shps])
    # nothing is removed at alpha 0; otherwise each start can be used at least once
    least = p["n_shapelets"] if p["alpha"] == 0.0 else min(p["n_shapelets"], len(X))
    if not least <= len(shps) <= p["n_shapelets"]:
        raise Violation("%d shapelets of %d asked from %d starts with alpha %s"
                        % (len(shps), p["n_shapelets"], len(X), p["alpha"]))
    ctx.label(case["kind"])
    ctx.nt()


@st.composite
def inside_case(draw):
    """classifiers: their shapelets obey the same constraints"""
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    t = draw(st.integers(12, 30))
    p = {"shapelet_lengths": draw(st.lists(st.integers(2, 6), min_size=1, max_size=3,
                                           unique=True).map(sorted)),
         "prime_dilations": draw(st.booleans()), "phase_invariance": draw(st.booleans()),
         "random_state": draw(gen.seeds)}
    if multi and draw(st.integers(0, 3)):
        p["max_channels"] = draw(st.integers(1, 4))
    if var and draw(st.integers(0, 3)):
        p["min_len"] = draw(st.integers(max(p["shapelet_lengths"]), t))
    return {"kind": kind, "t": t, "C": draw(st.integers(2, 5)) if multi else 1,
            "ensemble": draw(st.booleans()), "n": draw(st.integers(10, 40)),
            "members": draw(st.integers(1, 3)), "seed": draw(gen.seeds),
            "norm": draw(st.sampled_from([0.0, 1.0, 0.5])), "p": p}


def inside(case, ctx):
    from convst.transformers._input_transformers import Raw
    var = case["kind"].endswith("variable")
    rng = np.random.RandomState(case["seed"])
    X = [rng.randn(case["C"], case["t"] + (rng.randint(0, 20) if var and i else 0))
         for i in range(8)]
    X = X if var else np.array(X)
    y = np.arange(8) % 2
    p = dict(case["p"], transform_type=case["kind"])
    if case["ensemble"]:
        k = case["members"]
        est = model.Ensemble(n_shapelets_per_estimator=case["n"], shp_alpha=0.0,
                             proba_norm=[case["norm"]] * k,
                             input_transformers=[Raw() for _ in range(k)], **p).fit(X, y)
        try:
            own = [[s for _, s in m.steps if hasattr(s, "shapelets_")][0].shapelets_
                   for m in est.models]
        except (AttributeError, IndexError, TypeError):
            raise Skip("members are not reachable")
    else:
        est = model.Ridge(n_shapelets=case["n"], alpha=0.0, proba_norm=case["norm"], **p)
        est.fit(X, y)
        try:
            own = [est.transformer.shapelets_]
        except AttributeError:
            raise Skip("the transformer is not reachable")
    tmin = p.get("min_len") or min(x.shape[1] for x in X)
    q = dict(p, proba_norm=case["norm"], n_shapelets=case["n"])
    for shps in own:
        shps = model.unpack(shps)
        check_constraints(shps, q, X, tmin, p["shapelet_lengths"])
        if len(p["shapelet_lengths"]) == 1 and len(shps) != case["n"]:
            raise Violation("%d shapelets of %d asked, though nothing can be pruned"
                            % (len(shps), case["n"]))
        ctx.nt(any(s["dilation"] > 1 for s in shps) and
               bool(p.get("max_channels") or p.get("min_len") or p["prime_dilations"]))
    ctx.label(case["kind"], "ensemble" if case["ensemble"] else "ridge",
              *[k for k in ("max_channels", "min_len") if k in p])


def facets():
    return [
        Facet("inside", inside_case, inside, 160, rule="the shapelets of the classifiers against "
              "the constraints given to them (also a given minimum length); non-trivial: a "
              "dilated shapelet, and primes, a channel limit or a minimum length asked for"),
        Facet("constraints", case_strategy, constraints, 1200, rule="fit, every sampled "
              "parameter checked against the constraints, counts against what can be pruned; "
              "non-trivial: more than 2 shapelets, one dilated"),
        Facet("large", large_case, constraints, 80, rule="the same on up to 20 series of 30-130 "
              "points, 150 shapelets, lengths up to 25"),
        Facet("support", support_case, support, 40, 400, rule="500 shapelets per length with "
              "nothing prunable: every dilation, channel, channel count, source series and start with "
              "expected count above 30 occurs, normalised fraction of probability above 1e-11; "
              "non-trivial: at least one dilation tested"),
        Facet("many", many_case, support, 12, 60, rule="the same from 20-120 series of 30-70 "
              "points, 4000 shapelets: every series, start and fifth of all the places"),
        Facet("single", single_case, single, 200, rule="series exactly as long as the "
              "shapelets: the only start is used, dilation 1; non-trivial: all"),
        Facet("lengths", mixed_case, mixed, 24, 240, rule="one-shapelet fits over many seeds: "
              "every allowed length occurs, about equally often"),
    ]
