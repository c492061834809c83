"""C25: malformed or mismatched data is rejected, never silently transformed."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model
from .common import Facet, Violation

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
WHICH = ["rdst", "rdst", "rdst", "ridge", "ensemble"]


def make(which, p):
    p = dict(p)
    if which == "rdst":
        return model.R_DST(**p)
    if which == "ridge":
        return model.Ridge(**p)
    from convst.transformers._input_transformers import Raw
    p["n_shapelets_per_estimator"] = p.pop("n_shapelets")
    return model.Ensemble(input_transformers=[Raw()], proba_norm=[0.5], **p)


def apply(est, which, X):
    return est.transform(X) if which == "rdst" else est.predict(X)


def noise(rng, c, t):
    return rng.randint(-300, 300, size=(c, t)) / 32.0


def good(rng, kind, n=6, c=None, t=14):
    c = c or (2 if kind.startswith("multi") else 1)
    X = [noise(rng, c, t + (rng.randint(0, 5) if kind.endswith("variable") else 0))
         for _ in range(n)]
    X[n // 2] = X[n // 2][:, :t]        # the shortest series always has t timestamps
    return X if kind.endswith("variable") else np.array(X)


def must_fail(f, what):
    from numba import Dispatcher
    try:
        r = f()
    except IndexError as e:
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code is Dispatcher.__call__.__code__:
                raise Violation("%s: the computation reads outside the data (compiled code "
                                "would not notice): %s" % (what, e))
            tb = tb.tb_next
        return
    except Exception:
        return
    raise Violation("%s: no error, result %s" % (what, getattr(r, "shape", type(r).__name__)))


BAD_FIT = ["rank1", "rank2", "rank4", "scalar", "no series", "no channels", "no points",
           "one point", "two points", "empty list", "channels differ", "list of 1D",
           "list of 3D", "series of 0", "series of 1", "object channels differ", "one channel among",
           "channels average"]


@st.composite
def fit_case_(draw):
    return {"which": draw(st.sampled_from(WHICH)), "bad": draw(st.sampled_from(BAD_FIT)),
            "seed": draw(gen.seeds), "phase": draw(st.booleans()),
            "explicit": draw(st.sampled_from(["auto"] + KINDS)), "n": draw(st.integers(2, 6)),
            "len": draw(st.sampled_from([[3], [2], [5], [0.5]]))}


def spoil(bad, rng, n, c=1):
    X = [noise(rng, c, 12 + rng.randint(0, 4)) for _ in range(n)]
    A = np.array([noise(rng, c, 12) for _ in range(n)])
    k = rng.randint(0, n)
    if bad == "rank1":
        return A[0, 0]
    if bad == "rank2":
        return A[:, 0]
    if bad == "rank4":
        return A[None]
    if bad == "scalar":
        return np.array(1.5)
    if bad == "no series":
        return A[:0]
    if bad == "no channels":
        return A[:, :0]
    if bad == "no points":
        return A[:, :, :0]
    if bad == "one point":
        return A[:, :, :1]
    if bad == "two points":
        return A[:, :, :2]
    if bad == "empty list":
        return []
    if bad in ("channels differ", "object channels differ"):
        X[k] = noise(rng, X[k].shape[0] + 1, X[k].shape[1])
        if bad.startswith("object"):
            o = np.empty(n, dtype=object)
            for i in range(n):
                o[i] = X[i]
            return o
        return X
    if bad == "channels average":
        # as many channels too many as too few, in any places
        X = [noise(rng, c + 1, 12 + rng.randint(0, 4)) for _ in range(max(n, 2))]
        a, b = rng.permutation(len(X))[:2]
        X[a] = noise(rng, c + 2, X[a].shape[1])
        X[b] = X[b][:c]
        return X
    if bad == "one channel among":
        X = [noise(rng, c + 1, x.shape[1]) for x in X]
        X[k] = X[k][:1]
        return X
    if bad == "list of 1D":
        return [x[0] for x in X]
    if bad == "list of 3D":
        return [x[None] for x in X]
    if bad.startswith("series of"):
        X[k] = X[k][:, :int(bad[-1])]
        return X
    raise KeyError(bad)


def fit_bad(case, ctx):
    rng = np.random.RandomState(case["seed"])
    w = case["which"]
    c = 2 if case["explicit"].startswith("multi") or rng.randint(2) else 1
    if case["explicit"].startswith("uni"):
        c = 1
    X = spoil(case["bad"], rng, case["n"], c)
    y = np.arange(case["n"]) % 2
    if case["bad"] in ("no series", "empty list"):
        y = y[:0]
    elif case["bad"] == "rank4":
        y = y[:1]
    p = {"n_shapelets": 6, "shapelet_lengths": case["len"], "random_state": 1,
         "phase_invariance": case["phase"], "transform_type": case["explicit"]}
    if case["len"] == [0.5] and case["bad"].startswith("series"):
        p["shapelet_lengths"] = [3]
    est = make(w, p)
    must_fail(lambda: est.fit(X, y), "%s.fit(%s) as %s with lengths %s" % (
        w, case["bad"], case["explicit"], p["shapelet_lengths"]))
    ctx.label(w, case["bad"], case["explicit"])
    ctx.nt()


BAD_USE = ["rank1", "rank2", "rank4", "no series", "no channels", "no points", "one point",
           "two points", "empty list", "channels differ", "object channels differ",
           "list of 1D", "one channel among", "channels average", "more channels", "fewer channels", "too short", "one too short"]


@st.composite
def use_case(draw):
    kind = draw(st.sampled_from(KINDS))
    bad = draw(st.sampled_from(BAD_USE + ["more channels", "fewer channels", "too short",
                                          "one too short"] * 2))
    return {"which": draw(st.sampled_from(WHICH)), "kind": kind, "bad": bad,
            "seed": draw(gen.seeds), "phase": draw(st.booleans()),
            "short": draw(st.integers(1, 4)), "n": draw(st.sampled_from([1, 2, 4, 4, 7, 13])),
            "explicit": draw(st.booleans()),
            "lengths": draw(st.sampled_from([[5], [4, 6], [7], [3]])),
            "refit": draw(st.booleans())}


def use_bad(case, ctx):
    rng = np.random.RandomState(case["seed"])
    kind, w, bad = case["kind"], case["which"], case["bad"]
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    C = rng.randint(2, 4) if multi else 1
    y = np.arange(6) % 2
    p = {"n_shapelets": 8, "shapelet_lengths": case["lengths"], "random_state": 1,
         "phase_invariance": case["phase"],
         "transform_type": kind if case["explicit"] else "auto"}
    est = make(w, p)
    if case["refit"] and (multi or not case["explicit"]) and w != "rdst":
        est.fit(good(rng, kind, c=C + 1 if multi else 1), y)
    est.fit(good(rng, kind, c=C), y)
    m = case["n"]
    G = good(rng, kind, n=m, c=C)
    apply(est, w, G)                    # valid data is accepted
    if bad in ("more channels", "fewer channels"):
        c2 = C + 1 if bad.startswith("more") else C - 1
        if c2 == 0:
            return
        X = good(rng, kind, n=m, c=c2)
    elif bad in ("too short", "one too short"):
        t = est.transformer if w == "ridge" else est
        if w == "ensemble":
            t = [s for _, s in est.models[0].steps if hasattr(s, "shapelets_")][0]
        if case["phase"]:
            return
        need = max((s["length"] - 1) * s["dilation"] for s in model.unpack(t.shapelets_)) + 1
        n = need - case["short"]
        if n < 3:
            n = need - 1
        if n < 3:
            return
        if bad == "too short" or not var:
            X = [noise(rng, C, n) for _ in range(m)]
        else:
            X = good(rng, kind, n=m, c=C)
            X[rng.randint(m)] = noise(rng, C, n)
        ok = [noise(rng, C, need) for _ in range(3)]
        if not var:
            X, ok = np.array(X), np.array(ok)
        apply(est, w, ok)               # exactly long enough
        ctx.label("exactly long enough")
    else:
        X = spoil(bad, rng, 4, C)
        if bad == "list of 1D" and not var:
            X = np.array([x[:12] for x in X]).tolist()
        if bad in ("one point", "two points") and var and False:
            return
    must_fail(lambda: apply(est, w, X), "%s fitted on %s data of %d channels, given %s" % (
        w, kind, C, bad))
    ctx.label(w, kind, bad)
    ctx.nt()


@st.composite
def unfit_case(draw):
    return {"which": draw(st.sampled_from(WHICH)), "kind": draw(st.sampled_from(KINDS)),
            "seed": draw(gen.seeds), "explicit": draw(st.booleans()),
            "cloned": draw(st.booleans())}


def unfitted(case, ctx):
    from sklearn.base import clone
    rng = np.random.RandomState(case["seed"])
    w, kind = case["which"], case["kind"]
    p = {"n_shapelets": 4, "shapelet_lengths": [3], "random_state": 1,
         "transform_type": kind if case["explicit"] else "auto"}
    X = good(rng, kind)
    est = make(w, p)
    if case["cloned"] and w == "rdst":
        est = clone(est.fit(X, np.arange(6) % 2))
    must_fail(lambda: apply(est, w, X), "%s before fit on %s data" % (w, kind))
    if w != "rdst":
        must_fail(lambda: est.score(X, np.arange(6) % 2), "score of %s before fit" % w)
    ctx.label(w, kind)
    ctx.nt()


def facets():
    return [
        Facet("fit", fit_case_, fit_bad, 900, rule="every malformation at fit, every kind"),
        Facet("use", use_case, use_bad, 700, rule="after a fit (or a refit), malformed, "
              "mismatched and too short data; exactly long enough data is accepted"),
        Facet("unfitted", unfit_case, unfitted, 100, rule="use before fit, or of a clone"),
    ]
