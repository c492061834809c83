"""C41: the critical difference diagram reads as the statistics it is drawn from."""
import numpy as np
from hypothesis import strategies as st

from scipy.optimize import linear_sum_assignment

from vf import lane
from .common import Facet, Skip, Violation
from .c29 import CLF, flat, large_table, maximal, table, truth


@st.composite
def case_(draw, large=False, very_wide=False):
    c = draw(large_table(very_wide) if large or very_wide else table())
    kw = {"width": draw(st.sampled_from([4, 6, 9, 10, 14, 9.5])), "labels": draw(st.booleans()),
          "path": "x.png"}
    if draw(st.booleans()):
        kw["title"] = draw(st.sampled_from(["a title", "Accuracy, 30 datasets", "77"]))
    if draw(st.integers(0, 2)):
        kw["highlight"] = draw(st.sampled_from(c["names"] + ["absent"]))
    c["kw"] = kw
    return c


def is_red(k):
    return str(k.get("color", k.get("c", ""))).lower() in ("red", "r", "#ff0000")


def drawing(log):
    """-> (lines [(xs, ys, kw)], texts [(x, y, s, kw)])"""
    lines, texts = [], []
    for r, m, a, k in log:
        if m == "plot" and len(a) > 1 and isinstance(a[0], list):
            lines.append(([float(v) for v in a[0]], [float(v) for v in a[1]], k))
        elif m == "hlines" and len(a) > 2:
            lines.append(([float(a[1]), float(a[2])], [float(a[0])] * 2, k))
        elif m == "vlines" and len(a) > 2:
            lines.append(([float(a[0])] * 2, [float(a[1]), float(a[2])], k))
        elif m == "text" and len(a) > 2:
            texts.append((float(a[0]), float(a[1]), str(a[2]), k))
        elif m == "annotate":
            raise Skip("drawn with annotations")
    return lines, texts


def diagram(case, ctx):
    if not case["ok"]:
        raise Skip("identical classifiers")
    p, sig, rank, alpha = truth(case)
    log = lane.call("diagram", dict(case, alpha=alpha))["log"]
    lines, texts = drawing(log)
    m, kw = len(rank), case["kw"]
    # ---- the scale
    ticks = {int(t[2]): t[0] for t in texts if t[2].isdigit() and t[2] != kw.get("title")}
    if sorted(ticks) != list(range(1, m + 1)):
        raise Violation("the scale shows the ranks %s, there are %d classifiers"
                        % (sorted(ticks), m))
    slope = (ticks[m] - ticks[1]) / (m - 1)
    if slope >= 0:
        raise Violation("better ranks are not on the right")
    if any(abs(ticks[v] - ticks[1] - slope * (v - 1)) > 1e-9 for v in ticks):
        raise Violation("the scale is not linear: %s" % ticks)
    if not all(0 <= x <= 1 for x in ticks.values()):
        raise Violation("the scale leaves the figure: %s" % ticks)

    # ---- the frame: every line within the axes, where the axes' limits are set
    lim = {mm[4]: [float(v) for v in (a[0] if len(a) == 1 else a)] for r, mm, a, k in log
           if mm in ("set_xlim", "set_ylim") and a and not k}
    for d, z in (("x", 0), ("y", 1)):
        if d in lim:
            lo, hi = sorted(lim[d])
            out = [l[z] for l in lines if min(l[z]) < lo - 1e-9 or max(l[z]) > hi + 1e-9]
            if out:
                raise Violation("%d of %d lines leave the axes (%d classifiers): %s %s outside "
                                "of %s" % (len(out), len(lines), m, d, out[0], lim[d]))
    if "x" in lim and lim["x"][0] > lim["x"][1] or "y" in lim and lim["y"][0] < lim["y"][1]:
        raise Violation("the diagram is drawn mirrored: limits %s" % lim)

    def at(x):
        return 1 + (x - ticks[1]) / slope
    marks = sorted({round(at(x[0]), 6) for x, y, k in lines
                    if len(x) == 2 and x[0] == x[1] and not is_red(k)})
    if marks and marks != [1 + q / 2.0 for q in range(2 * m - 1)]:
        raise Violation("the scale's marks stand at %s for %d classifiers" % (marks, m))
    down = [max(y) for x, y, k in lines if len(x) == 2 and x[0] == x[1] and not is_red(k)]
    base = max(down) if down else None
    # ---- the names
    names = [t for t in texts if t[2] in CLF or t[2] in rank]
    if sorted(t[2] for t in names) != sorted(rank):
        raise Violation("names drawn %s, classifiers %s" % (sorted(t[2] for t in names),
                                                            sorted(rank)))
    places = [(round(t[0], 9), round(t[1], 9)) for t in names]
    if len(set(places)) != m:
        raise Violation("two names are drawn at one place: %s" % places)
    values = {}
    for x, y, c, k in names:
        mine = [l for l in lines if len(l[0]) == 3 and abs(l[1][-1] - y) < 1e-9 and
                (l[0][-1] > 0.5) == (x > 0.5)]
        if len(mine) != 1:
            raise Skip("names are joined to the scale otherwise")
        xs, ys, lk = mine[0]
        if abs(at(xs[0]) - rank[c]) > 1e-6:
            raise Violation("%s hangs at rank %r, its average rank is %r"
                            % (c, at(xs[0]), rank[c]))
        if xs[0] != xs[1] or ys[1] != ys[2]:
            raise Violation("the line of %s is not made of a vertical and a horizontal part: "
                            "%s %s" % (c, xs, ys))
        if base is not None and "y" in lim and (abs(ys[0] - base) > 1e-6 or ys[1] <= base):
            raise Violation("the line of %s goes from %r to %r, the scale is at %r" % (
                c, ys[0], ys[1], base))
        if k.get("ha") == ("left" if x > 0.5 else "right") and \
                (x < xs[-1] if x > 0.5 else x > xs[-1]):
            raise Violation("the name of %s is drawn over its line" % c)
        for what, red in (("name", is_red(k)), ("line", is_red(lk))):
            if red != (c == kw.get("highlight")):
                raise Violation("%s: the %s is %s, highlighted is %r" % (
                    c, what, "coloured" if red else "not coloured", kw.get("highlight")))
        # its value stands beside its own line
        near = [t[2] for t in texts if "." in t[2] and t[2] not in CLF and
                t[2] != kw.get("title") and (t[0] > 0.5) == (x > 0.5)]
        values[c] = [t[2] for t in texts if t[2].count(".") == 1 and
                     t[2].replace(".", "").isdigit() and (t[0] > 0.5) == (x > 0.5) and
                     0 <= y - t[1] < 0.6 * step(names, x)]
        if not kw["labels"] and near:
            raise Violation("values %s although none were asked for" % near)
    if kw["labels"]:
        for c, v in values.items():
            if len(v) != 1:
                raise Skip("values are placed otherwise")
            if abs(float(v[0]) - rank[c]) > 1e-4:
                raise Violation("%s is labelled %s, its average rank is %r" % (c, v[0], rank[c]))
    # better half on the right, best name on top of its side
    for side in (False, True):
        mine = sorted((t[1], rank[t[2]], t[2]) for t in names if (t[0] > 0.5) == side)
        r = [v for _, v, _ in mine]
        if r != (sorted(r) if side else sorted(r, reverse=True)):
            raise Violation("names on the %s from top to bottom have ranks %s (lines cross)"
                            % ("right" if side else "left", r))
    # ---- the bars
    free = {q for q in p if not sig[q]}
    groups = [g for g in maximal(sorted(rank), lambda a, b: tuple(sorted((a, b))) in free)
              if len(g) > 1]
    bars = flat(lines)
    if len(bars) != len(groups):
        raise Violation("%d cliques drawn, expected %s" % (len(bars), groups))
    if base is not None and "y" in lim and any(y[0] <= base for x, y, k in bars):
        raise Violation("a clique is drawn on or above the scale")
    for i, (x, y, k) in enumerate(bars):
        for x2, y2, _ in bars[:i]:
            if abs(y[0] - y2[0]) < 1e-6 and max(min(x), min(x2)) < min(max(x), max(x2)):
                raise Violation("two cliques over ranks %s and %s are drawn at one height" % (
                    sorted(round(at(v), 3) for v in x), sorted(round(at(v), 3) for v in x2)))
    tol = 0.05 / kw["width"] / abs(slope)
    left = [tuple(sorted((at(b[0][0]), at(b[0][-1])))) for b in bars]
    want = [(min(rank[c] for c in g), max(rank[c] for c in g)) for g in groups]
    # bars may reach a little further than the ranks, which may be close: matched as a whole
    far = np.array([[max(abs(q[0] - w[0]), abs(q[1] - w[1])) > tol for q in left] for w in want],
                   dtype=int).reshape(len(want), len(left))
    a, b = linear_sum_assignment(far)
    for i, j in zip(a, b):
        if far[i, j]:
            raise Violation("cliques drawn over ranks %s, expected one over %s" % (left, want[i]))
    # ---- the title
    titles = [a[0] for r, mm, a, k in log if mm in ("title", "set_title", "suptitle") and a]
    if kw.get("title") is None:
        if titles:
            raise Violation("titles %s, none was asked for" % titles)
    elif titles != [kw["title"]]:
        raise Violation("titles %s, asked for %r" % (titles, kw["title"]))
    ctx.label("%d classifiers" % m, "%d cliques" % min(len(groups), 3),
              "highlight" if kw.get("highlight") in rank else "no highlight",
              "values" if kw["labels"] else "no values")
    ctx.nt(len(groups) > 0 and (kw["labels"] or kw.get("highlight") in rank))


def step(names, x):
    ys = sorted(t[1] for t in names if (t[0] > 0.5) == (x > 0.5))
    return min([b - a for a, b in zip(ys, ys[1:])] or [1.0])


@st.composite
def near(draw):
    """average ranks close to each other, many classifiers, overlapping groups"""
    c = draw(case_())
    rows = c["rows"]
    names, ds = c["names"], c["ds"]
    if draw(st.booleans()):
        # each classifier a little better than the one before it
        s = draw(st.integers(1, 6))
        e = draw(st.lists(st.integers(-9, 9), min_size=len(names) * len(ds),
                          max_size=len(names) * len(ds)))
        acc = {(k, d): 0.3 + (i * s + e[i * len(ds) + j]) / 200.0 + 1e-5 * (i * 31 + j * 7 % 13)
               for i, k in enumerate(names) for j, d in enumerate(ds)}
        c["rows"] = [[k, d, acc.get((k, d), v)] for k, d, v in rows]
        c["ok"] = True
    return c


def facets():
    return [
        Facet("diagram", near, diagram, 400, lane="pypy", rule="scale, names, values, highlight, "
              "bars and title of diagrams of 3-6 classifiers against the statistics; "
              "non-trivial: a clique, and values or a highlighted classifier"),
        Facet("large", lambda: case_(large=True), diagram, 32, lane="pypy",
              rule="the same for up to 11 classifiers or 150 datasets"),
        Facet("wide", lambda: case_(very_wide=True), diagram, 12, lane="pypy",
              rule="the same for 12 to 24 classifiers"),
    ]


def shard_end():
    lane.stop()
