"""C05: every shapelet is a real dilated subsequence of one training series."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from vf.prelude import numba
from .common import Facet, Violation, fit_case, large_case, large_data, large_params


def case_strategy(kind):
    var, multi = kind.endswith("variable"), kind.startswith("multi")

    @st.composite
    def s(draw):
        c = draw(fit_case(variable=var, multi=multi, max_n=6, max_t=22, max_shp=16, max_c=4,
                          exactish=draw(st.booleans()), wide=True,
                          kinds=gen.ALL + ("distinct",) * 5)())
        c["sched"] = draw(st.sampled_from([None, None, ["perm", 1], ["perm", 77]]))
        return c
    return s


def checker(kind):
    var = kind.endswith("variable")

    def check(case, ctx):
        X, y = model.data(case["ds"], var)
        p = case["p"]
        shps = provenance(X, y, p, case["sched"])
        ph = p["phase_invariance"]
        ctx.label("phase" if ph else "no-phase")
        if len({s["length"] for s in shps}) > 1:
            ctx.label("several lengths")
        if len(shps) < p["n_shapelets"]:
            ctx.label("pruned")
        ctx.nt(len(shps) > 1 and case["ds"]["kind"] in ("distinct", "real", "dyadic", "scaled"))
    return check


def large(case, ctx):
    X, y = large_data(case)
    shps = provenance(X, y, large_params(case, X), None)
    ctx.label(case["kind"], "axis %s" % case["axis"])
    ctx.nt(len(shps) > 20)


def provenance(X, y, p, order):
    ph = p["phase_invariance"]
    est = model.R_DST(**p)
    with numba._sched.schedule(order):
        est.fit(X, y)
    shps = model.unpack(est.shapelets_)
    for j, s in enumerate(shps):
        if not all(0 <= c < len(X[0]) for c in s["channels"]):
            raise Violation("shapelet %d lists channels %s of %d" % (j, s["channels"],
                                                                   len(X[0])))
        if not oracle.sources(X, s, ph):
            raise Violation(
                "shapelet %d (length %d, dilation %d, norm %s, channels %s, phase %s) is no "
                "subsequence of any training series: %s" % (
                    j, s["length"], s["dilation"], s["norm"], s["channels"], ph,
                    [np.round(v, 6).tolist() for v in s["values"]]))
    if shps:
        F = np.asarray(est.transform(X))
        for j, s in enumerate(shps):
            m = F[:, 3 * j].min()
            tol = oracle.TOL * s["length"] * len(s["channels"]) if s["norm"] else 0.0
            if not -tol <= m <= tol:
                raise Violation("shapelet %d (norm %s) never has a zero minimum on the "
                                "training data: %r" % (j, s["norm"], float(m)))
    return shps


def facets():
    return [Facet(k, case_strategy(k), checker(k), n,
                  rule="fit (serial or permuted parallel loop); every shapelet located in the "
                  "training data at one common start on its channels, zero minimum on the "
                  "training data; non-trivial: several shapelets on data without constant or "
                  "repeated structure")
            for k, n in (("univariate", 700), ("multivariate", 600),
                         ("univariate_variable", 500), ("multivariate_variable", 500))] + [
        Facet("large", large_case, large, 40, rule="20-150 shapelets, up to 20 series of 30-130 "
              "points, 6 channels; non-trivial: more than 20 shapelets")]
