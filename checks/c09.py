"""C09: shapelet length specifications resolve to exactly the documented lengths."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from .common import Facet, Skip, Violation    # noqa: F401

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


@st.composite
def spec(draw, t):
    """the length parameters only"""
    which = draw(st.sampled_from(["int", "float", "bounds", "bounds", "long"]))
    if which == "int":
        return {"shapelet_lengths": draw(st.lists(st.integers(2, t), min_size=1, max_size=4))}
    if which == "long":
        return {"shapelet_lengths": draw(st.lists(st.integers(2, 3 * t), min_size=1,
                                                  max_size=3)) + [t + draw(st.integers(0, 5))]}
    fr = st.integers(1, 100).map(lambda v: v / 100)
    if which == "float":
        return {"shapelet_lengths": draw(st.lists(fr, min_size=1, max_size=4))}
    b = [draw(st.one_of(st.integers(1, t), fr)), draw(st.one_of(st.integers(1, t), fr))]
    p = {"shapelet_lengths_bounds": b}
    if draw(st.booleans()):
        p["lengths_bounds_reduction"] = draw(st.sampled_from(
            [0.0, 0.1, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 0.99]))
    return p


@st.composite
def case_strategy(draw):
    kind = draw(st.sampled_from(KINDS))
    t = draw(st.one_of(st.integers(3, 14), st.integers(3, 120)))
    p = draw(spec(t))
    return {"kind": kind, "t": t, "extra": draw(st.integers(0, 9)), "p": p,
            "ridge": draw(st.integers(0, 4)) == 0, "phase": draw(st.booleans()),
            "prime": draw(st.booleans()), "seed": draw(gen.seeds),
            "min_len": draw(st.integers(0, 5)) == 0,
            "form": draw(st.sampled_from(FORMS))}


FORMS = ["list", "list", "numpy scalars", "array", "tuple", "single"]


def given(p, form):
    """the same specification in another container, or of numpy's own numbers"""
    p = dict(p)
    if form == "single":
        # only fractions that single precision holds exactly: see exactly()
        for k in ("shapelet_lengths", "shapelet_lengths_bounds"):
            if p.get(k) is not None:
                p[k] = [np.float32(q) if isinstance(q, float) else np.int32(q) for q in p[k]]
                if len({type(q) for q in p[k]}) == 1 and len(p[k]) % 2:
                    p[k] = np.array(p[k])
        return p
    for k in ("shapelet_lengths", "shapelet_lengths_bounds"):
        v = p.get(k)
        if v is None or form == "list" or (form == "tuple" and k == "shapelet_lengths"):
            continue
        if form == "numpy scalars":
            v = [np.float64(q) if isinstance(q, float) else np.int64(q) for q in v]
        elif form == "tuple":
            v = tuple(v)
        elif len({type(q) for q in v}) == 1:
            v = np.array(v)
        p[k] = v
    return p


def exactly(p):
    """the fractions moved to multiples of 1/64"""
    return {k: [max(1, round(q * 64)) / 64.0 if isinstance(q, float) else q for q in v]
            if isinstance(v, list) else v for k, v in p.items()}


def _data(case):
    var, multi = case["kind"].endswith("variable"), case["kind"].startswith("multi")
    t, n, C = case["t"], 4, 2 if multi else 1
    rng = np.random.RandomState(case["seed"])
    X = [rng.uniform(1, 9, size=(C, t + (rng.randint(0, case["extra"] + 1) if var and i != 2
                                         else 0))) for i in range(n)]
    return (X if var else np.array(X)), np.array([0, 1, 0, 1]), t


def _fit(case, p, X, y, seed, n_shapelets):
    k = dict(given(p, case["form"]), n_shapelets=n_shapelets, random_state=seed, phase_invariance=case["phase"],
             prime_dilations=case["prime"], proba_norm=0.0, alpha=0.0)
    if case["ridge"]:
        est = model.Ridge(**k)
        est.fit(X, y)
        return model.unpack(est.transformer.shapelets_)
    return model.unpack(model.R_DST(**k).fit(X, y).shapelets_)


def check(case, ctx):
    X, y, t = _data(case)
    p = dict(case["p"])
    if case["form"] == "single":
        p = exactly(p)
    if case["min_len"] and case["kind"].endswith("variable") and t > 4:
        t = max(3, t - 1 - case["seed"] % 3)
        p["min_len"] = t
    want = oracle.resolve_lengths(p, t)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            shps = _fit(case, p, X, y, case["seed"], 30)
        except ValueError as e:
            if want is None:
                ctx.label("rejected")
                ctx.nt()
                return
            raise Violation("%s with %d timestamps raised %s, expected lengths %s"
                            % (p, t, e, want))
    if want is None:
        raise Violation("%s with %d timestamps is accepted, a length is below 2 (got %s)"
                        % (p, t, sorted({s["length"] for s in shps})))
    raw = oracle.raw_lengths(p, t)
    clipped = any(l > t for l in raw)
    if clipped and not any(issubclass(q.category, UserWarning) for q in w):
        raise Violation("%s with %d timestamps: lengths replaced without a warning" % (p, t))
    got = {s["length"] for s in shps}
    if not got <= set(want):
        raise Violation("%s with %d timestamps gives lengths %s, expected %s"
                        % (p, t, sorted(got), want))
    if not got:
        raise Violation("no shapelet at all with %s" % p)
    ctx.label("clipped" if clipped else "fits",
              "bounds" if "shapelet_lengths_bounds" in p else
              "float" if isinstance(p["shapelet_lengths"][0], float) else "int", case["form"])
    ctx.nt(len(want) > 1 or clipped or "shapelet_lengths_bounds" in p)
    if len(want) > 10 or case["seed"] % 3:
        return
    # every documented length occurs: one-shapelet fits over many seeds; a
    # length listed m times of M has probability m/M
    mult = [max(2, t // 2) if l > t else l for l in raw]
    least = min(mult.count(l) for l in want) / len(mult)
    trials = int(20 / least) + 1
    if trials > 260:
        return
    for q in range(trials):
        got |= {s["length"] for s in _fit(case, p, X, y, case["seed"] % 10 ** 6 + q, 1)}
        if got >= set(want):
            break
    if got != set(want):
        raise Violation("%s with %d timestamps gives lengths %s in %d fits, expected %s"
                        % (p, t, sorted(got), trials, want))
    ctx.label("complete")


def facets():
    return [Facet("resolve", case_strategy, check, 1600, rule="length parameters of every form "
                  "(integers, fractions, bounds with and without reduction, longer than the "
                  "series) x input kind; fitted lengths within the documented set, union over "
                  "seeds equal to it, too short rejected, clipping warned about; non-trivial: "
                  "several lengths, clipping, bounds or a rejection")]
