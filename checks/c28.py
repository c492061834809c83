"""C28: pairwise plots count every dataset once, each competitor has its own panel."""
import re

import numpy as np
from hypothesis import strategies as st

from vf import lane
from .common import Facet, Skip, Violation

NAMES = ["RDST", "a", "Bag of Patterns", "ROCKET", "b10", "b9", "z", "1NN-DTW", "MiniRocket",
         "Hierarchical Vote Collective of Transformation-based Ensembles 2.0"]


@st.composite
def case_(draw):
    m = draw(st.integers(2, 7))
    n = draw(st.integers(1, 9))
    cols = draw(st.permutations(NAMES))[:m]
    style = draw(st.sampled_from(["any", "close", "extreme"]))
    base = [draw(st.integers(0, 64)) for _ in range(n)]
    data = []
    for _ in range(m):
        if style == "close":
            data.append([min(64, max(0, b + draw(st.integers(-3, 3)))) for b in base])
        elif style == "extreme":
            data.append([draw(st.sampled_from([0, 1, 32, 63, 64])) for _ in base])
        else:
            data.append([draw(st.integers(0, 64)) for _ in base])
    kw = {"margin": draw(st.sampled_from([0.0, 1 / 64, 2 / 64, 0.015, 0.25]))}
    if draw(st.booleans()):
        kw["max_ncols"] = draw(st.integers(1, 4))
    if draw(st.booleans()):
        kw["show_names_above"] = draw(st.sampled_from([0.0, 1 / 64, 2 / 64, 0.25, 0.5, 0.7,
                                                       1.0]))
    if draw(st.integers(0, 3)) == 0:
        kw.pop("margin")
    if draw(st.integers(0, 4)) == 0:
        kw["sns_context"] = None
    if draw(st.integers(0, 4)) == 0:
        kw["figsize"] = [9, 5]
    if draw(st.integers(0, 4)) == 0:
        kw["y_min"], kw["y_max"] = draw(st.sampled_from([[0.5, 1], [0, 0.75], [-1, 2]]))
    return {"cols": list(cols), "data": [[v / 64 for v in c] for c in data],
            "index": draw(st.permutations(["ds%d" % i for i in range(n)])),
            "baseline": cols[draw(st.integers(0, m - 1))], "kw": kw}


@st.composite
def large_case(draw):
    """up to 300 datasets or 24 competitors; the scores come from a seed"""
    wide = draw(st.booleans())
    m = draw(st.integers(9, 24) if wide else st.integers(2, 4))
    n = draw(st.integers(2, 20) if wide else st.integers(20, 300))
    rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
    cols = ["method %d" % i for i in rng.permutation(50)[:m]]
    spread = draw(st.sampled_from([2, 8, 64]))
    base = rng.randint(0, 65, size=n)
    data = [np.clip(base + rng.randint(-spread, spread + 1, size=n), 0, 64) / 64.0
            for _ in range(m)]
    kw = {"margin": draw(st.sampled_from([0.0, 1 / 64, 3 / 64])),
          "show_names_above": draw(st.sampled_from([2 / 64, 0.25, 0.7]))}
    if draw(st.booleans()):
        kw["max_ncols"] = draw(st.integers(1, 7))
    return {"cols": cols, "data": [v.tolist() for v in data],
            "index": ["dataset %d" % i for i in rng.permutation(n)],
            "baseline": cols[draw(st.integers(0, m - 1))], "kw": kw}


@st.composite
def decimal_case(draw):
    """scores as tables have them, often apart by the margin up to rounding"""
    m, n = draw(st.integers(2, 6)), draw(st.integers(4, 30))
    unit = draw(st.sampled_from([100, 1000, 200]))
    step = draw(st.integers(1, 20))
    cols = draw(st.permutations(NAMES))[:m]
    rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
    base = rng.randint(0, unit + 1, size=n)
    data = [base] + [np.clip(base + rng.randint(-2, 3, size=n) * step, 0, unit)
                     for _ in range(m - 1)]
    kw = {"margin": step / unit, "show_names_above": (step + 0.5) / unit}
    if draw(st.booleans()):
        kw["max_ncols"] = draw(st.integers(1, 4))
    return {"cols": list(cols), "data": [[int(v) / unit for v in d] for d in data],
            "index": ["d%d" % i for i in range(n)], "baseline": cols[0], "kw": kw, "near": True}


def frame(c, calls, case, pts):
    """the lines of a panel are the diagonal and those at the margin from it; every score
    between the least and greatest lies within its limits"""
    margin = case["kw"].get("margin", 0.015)
    lo, hi = case["kw"].get("y_min", 0), case["kw"].get("y_max", 1)
    at = set()
    for m, a, k in calls:
        if m == "plot" and len(a) > 1 and len(a[0]) == len(a[1]) == 2:
            (x0, x1), (y0, y1) = a[0], a[1]
            if abs((y1 - y0) - (x1 - x0)) > 1e-9:
                raise Violation("panel of %s: a line from %s to %s is not parallel to the "
                                "diagonal" % (c, (x0, y0), (x1, y1)))
            at.add(round(y0 - x0, 9))
        elif m in ("set_xlim", "set_ylim") and len(a) == 2 and not k:
            if not (a[0] <= lo and a[1] >= hi):
                raise Violation("panel of %s: limits %s, scores are shown from %s to %s"
                                % (c, a, lo, hi))
    if at and at != {round(v, 9) for v in (0.0, margin, -margin)}:
        raise Violation("panel of %s: lines at %s from the diagonal, the margin is %s"
                        % (c, sorted(at), margin))


def check(case, ctx):
    r = lane.call("pairwise", case)
    df = dict(zip(case["cols"], case["data"]))
    base = df[case["baseline"]]
    n = len(base)
    margin = case["kw"].get("margin", 0.015)
    limit = case["kw"].get("show_names_above", 0.7)
    comps = [c for c in case["cols"] if c != case["baseline"]]
    panels = {}
    for rec, m, a, k in r["log"]:
        panels.setdefault(rec, []).append((m, a, k))
    of = {}
    for rec, calls in panels.items():
        labels = [str(a[0] if a else k.get("xlabel")) for m, a, k in calls
                  if m in ("set_xlabel", "xlabel")]
        pts = [c for c in calls if c[0] == "scatter"]
        if not labels and not pts:
            continue
        if len(labels) != 1 or len(pts) != 1:
            raise Violation("panel %s has %d labels %s and %d score plots" % (
                rec, len(labels), labels, len(pts)))
        if labels[0] in of:
            raise Violation("two panels are labelled %s" % labels[0])
        of[labels[0]] = (rec, calls, pts[0])
    if set(of) != set(comps):
        raise Violation("panels for %s, competitors are %s" % (sorted(of), sorted(comps)))
    for c in comps:
        rec, calls, (m, a, k) = of[c]
        a = list(a) + [k[v] for v in ("x", "y")[len(a):] if v in k]
        if len(a) < 2:
            raise Skip("unknown scatter call")
        if a[0] != df[c] or a[1] != base:
            raise Violation("panel of %s draws x=%s y=%s, its scores are %s against %s"
                            % (c, a[0], a[1], df[c], base))
        frame(c, calls, case, a)
        want = (sum(b - s > margin for b, s in zip(base, df[c])),
                sum(abs(b - s) <= margin for b, s in zip(base, df[c])),
                sum(s - b > margin for b, s in zip(base, df[c])))
        found = None
        for m2, a2, k2 in calls:
            if m2 != "text":
                continue
            for t in list(a2) + list(k2.values()):
                q = re.search(r"(\d+)\s*-\s*(\d+)\s*-\s*(\d+)", t) if isinstance(t, str) else None
                if q:
                    found = tuple(int(v) for v in q.groups())
        if found is None:
            raise Violation("panel of %s has no win - draw - loss text" % c)
        if case.get("near"):
            # which side of the margin a difference of exactly that falls on is rounding
            if sum(found) != n:
                raise Violation("panel of %s reports W-D-L %s of %d datasets (margin %s)"
                                % (c, found, n, margin))
            for got, s in ((found[0], 1), (found[2], -1)):
                d = [s * (b - v) for b, v in zip(base, df[c])]
                lo, hi = sum(v > margin + 1e-9 for v in d), sum(v > margin - 1e-9 for v in d)
                if not lo <= got <= hi:
                    raise Violation("panel of %s reports W-D-L %s, baseline ahead by more than "
                                    "%s on %d to %d" % (c, found, margin, lo, hi))
                ctx.nt(hi > lo)
        elif found != want:
            raise Violation("panel of %s reports W-D-L %s, expected %s (margin %s, %d datasets)"
                            % (c, found, want, margin, n))
        notes = [list(a2) + [k2[v] for v in ("text", "xy")[len(a2):] if v in k2]
                 for m2, a2, k2 in calls if m2 == "annotate"]
        named = sorted((a2[0], tuple(a2[1])) for a2 in notes
                       if len(a2) > 1 and a2[0] in case["index"])
        wn = sorted((case["index"][i], (df[c][i], base[i])) for i in range(n)
                    if abs(df[c][i] - base[i]) > limit)
        if named != wn:
            raise Violation("panel of %s names %s, expected %s (limit %s)" % (c, named, wn,
                                                                              limit))
        ctx.label("named" if wn else "none named")
        if want[0] and want[1] and want[2]:
            ctx.label("W, D and L")
    ylab = {str(a[0]) for rec, m, a, k in r["log"] if m in ("set_ylabel", "ylabel") and a}
    if ylab != {case["baseline"]}:
        raise Violation("y-axis labelled %s, the baseline is %s" % (sorted(ylab),
                                                                   case["baseline"]))
    if not r["unchanged"]:
        raise Violation("the score table was changed")
    ctx.nt(len(comps) > 1 and n > 1 and not case.get("near"))
    nc = case["kw"].get("max_ncols", 2)
    ctx.label("one row" if len(comps) <= nc else "one column" if nc == 1 else "grid")


def facets():
    return [Facet("pairwise", case_, check, 400, lane="pypy",
                  rule="at least two competitors and two datasets"),
            Facet("decimal", decimal_case, check, 200, lane="pypy",
                  rule="decimal scores and margins: every dataset in one count, whichever way "
                  "differences of the margin are rounded; non-trivial: such differences"),
            Facet("large", large_case, check, 40, lane="pypy",
                  rule="up to 300 datasets or 24 competitors")]


def shard_end():
    lane.stop()
