"""C23: cross-validation and grid search evaluate on the archive's folds."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, lane
from .common import Facet, Violation


@st.composite
def case_(draw, variable=None, mutate=False, max_n=6):
    var = draw(st.booleans()) if variable is None else variable
    C = draw(st.integers(1, 3))
    t = draw(st.integers(3, 8))
    labs = draw(st.sampled_from([["1", "2", "3"], ["a", "b", "c"], [3, 1, 2], [-1, 0, 4]]))
    if draw(st.integers(0, 24)) == 24:
        labs, max_n = draw(st.sampled_from([list(range(12)), ["%d" % v for v in range(12)]])), 40
    k = draw(st.integers(1, len(labs)))
    kind = draw(st.sampled_from(["ties", "dyadic", "noise", "const", "spike"]))
    # series may agree everywhere but in one place, which makes them distinct
    c0, t0 = draw(st.integers(0, C - 1)), draw(st.integers(0, t - 1))
    out = {"var": var, "n": draw(st.sampled_from([1, 2, 3, 4] * 5 + [9, 12, 16, 31])), "seed": draw(gen.seeds)}
    # ... and be as near to each other there as doubles of that size allow
    step = draw(st.sampled_from([1.0, 1.0, 2.0 ** -40]))
    q = 0
    for p in "ab":
        n = draw(st.integers(k, max_n))
        y = draw(st.permutations(list(range(k)) + draw(st.lists(
            st.integers(0, k - 1), min_size=n - k, max_size=n - k))))
        X = []
        for i in range(n):
            ti = draw(st.integers(t, t + 4)) if var else t
            x = [draw(gen.series(ti, kind, salt=c)) for c in range(C)]
            x[c0][t0] = float(q) * step
            q += 1
            X.append(x)
        out["X" + p], out["y" + p] = X, [labs[v] for v in y]
    out["default"] = draw(st.booleans())
    out["mutate"] = mutate and not var and draw(st.integers(0, 3)) == 0
    out["slow"] = draw(st.integers(5, 30)) if out["n"] < 4 and draw(st.integers(0, 9)) == 0 else 0
    out["scorer"] = draw(st.sampled_from(["default", "odd", "loss"]))
    out["jobs"] = draw(st.sampled_from([1, 1, 2, None, -1]))
    out["shifts"] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=3, unique=True))
    return out


def cross(case, ctx):
    r = lane.call("cross_validate", case)
    n = case["n"]
    if len(r["fits"]) != n or len(r["predicts"]) != n:
        raise Violation("%d fits and %d predictions for %d folds"
                        % (len(r["fits"]), len(r["predicts"]), n))
    cols = ["accuracy"] if case["default"] else ["acc", "odd"]
    for c in cols:
        if len(r["scores"].get(c, ())) != n:
            raise Violation("score table has columns %s with %d rows, expected %s for %d folds"
                            % (r["columns"], len(next(iter(r["scores"].values()), [])), cols,
                               n))
    for i, f in enumerate(r["folds"]):
        if r["fits"][i] != [f["Xa"], f["ya"]]:
            raise Violation("fold %d is not fitted on %s" % (
                i, "the archive's train part" if i == 0 else "the train part of resample %d" % i))
        if r["predicts"][i] != f["Xb"]:
            raise Violation("fold %d is not evaluated on %s" % (
                i, "the archive's test part" if i == 0 else "the test part of resample %d" % i))
        p, y = np.array(r["preds"][i]), np.array(f["yb"])
        want = {"accuracy": np.mean(p == y), "acc": np.mean(p == y),
                "odd": 0.25 + 0.5 * np.mean(y > p)}
        for c in cols:
            if not abs(r["scores"][c][i] - want[c]) < 1e-12:
                raise Violation("fold %d: %s is %r, the predictions on the test part give %r"
                                % (i, c, r["scores"][c][i], float(want[c])))
    if "time" in r["scores"]:
        t = r["scores"]["time"]
        if len(t) != n or min(t) < 0 or max(t) > r["total"] + 1e-2:
            raise Violation("the folds took %s seconds, the whole call %s" % (t, r["total"]))
        for i, (a, b) in enumerate(zip(t, r["inner"])):
            # clocks may differ by their resolution
            if a < b - 4e-3:
                raise Violation("fold %d: fit and predict took %.4f s, the table says %.4f"
                                % (i, b, a))
            if case["slow"]:
                ctx.label("time of the fold")
    else:
        raise Violation("the table has no column of times: %s" % r["columns"])
    ctx.label("variable" if case["var"] else "fixed", "%d folds" % n)
    ctx.nt(n > 1 and len(set(case["ya"])) > 1)


def key(x):
    return np.array(x).tobytes()


def split(case, ctx):
    r = lane.call("splits", case)
    n = case["n"]
    if r["n_splits"] != n or len(r["splits"]) != n:
        raise Violation("%d folds announced, %d given, %d asked for"
                        % (r["n_splits"], len(r["splits"]), n))
    pos = {key(x): i for i, x in enumerate(r["X"])}
    for i, (f, (tr, te)) in enumerate(zip(r["folds"], r["splits"])):
        for got, X, y, w in ((tr, f["Xa"], f["ya"], "train"), (te, f["Xb"], f["yb"], "test")):
            want = sorted(pos[key(x)] for x in X)
            if sorted(got) != want:
                raise Violation("fold %d: %s indices are %s, the %s series are at %s"
                                % (i, w, sorted(got), w, want))
        if i and sorted(r["splits"][0][0]) != sorted(tr):
            ctx.nt(len(case["Xa"][0]) > 1 or len(set(case["ya"])) > 1)
    ctx.label("%d channels" % len(case["Xa"][0]))


def grid(case, ctx):
    r = lane.call("grid", case)
    want = dict(zip(case["shifts"], r["want"]))
    if sorted(r["shifts"]) != sorted(case["shifts"]):
        raise Violation("grid search reports parameters %s of %s" % (r["shifts"],
                                                                     case["shifts"]))
    for s, got in zip(r["shifts"], r["got"]):
        if np.abs(np.array(got) - np.array(want[s])).max() > 1e-12:
            raise Violation("grid search: scores of parameter %d are %s, on the archive's folds "
                            "%s" % (s, got, want[s]))
    ctx.nt(len(case["shifts"]) > 1 and case["n"] > 1)
    ctx.label("scorer " + case.get("scorer", "default"))


def facets():
    return [
        Facet("cross-validation", lambda: case_(mutate=True), cross, 500, rule="recorded fits, "
              "predictions and scores; non-trivial: several folds and classes"),
        Facet("splitter", lambda: case_(variable=False), split, 500, rule="indices per fold "
              "within the concatenated dataset; non-trivial: a resample moves a series"),
        Facet("grid search", lambda: case_(variable=False), grid, 200, rule="scores per "
              "parameter and fold; non-trivial: several parameters and folds"),
    ]
