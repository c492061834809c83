"""C29: ranking statistics are right whatever the row order; cliques are maximal."""
from itertools import combinations

import numpy as np
from hypothesis import strategies as st

from vf import lane
from .common import Facet, Skip, Violation

MANY = ["clf ", "Z", "method-"]
CLF = ["RDST", "Rocket", "a", "b", "b10", "b9", "zeta", "DTW 1",
       "Hierarchical Vote Collective of Transformation-based Ensembles 2.0", "été_%d {x}"]


@st.composite
def table(draw):
    m = draw(st.integers(3, 6))
    n = draw(st.integers(3, 14))
    grid = draw(st.sampled_from([8, 16, 200]))
    names = draw(st.permutations(CLF))[:m]
    extra = draw(st.integers(0, 2))
    more = [c for c in CLF if c not in names][:extra]
    style = draw(st.sampled_from(["free", "levels", "levels", "one better"]))
    ds = draw(st.permutations(["ds%d" % i for i in range(n)]))
    acc = {}
    for q, c in enumerate(names):
        if style == "levels":
            acc[c] = [min(grid, max(0, draw(st.integers(0, grid // 2)) + (q * grid) // (2 * m)))
                      for _ in range(n)]
        elif style == "one better":
            acc[c] = [grid - draw(st.integers(0, grid // 8)) if q == 0 else
                      draw(st.integers(0, grid * 3 // 4)) for _ in range(n)]
        else:
            acc[c] = [draw(st.integers(0, grid)) for _ in range(n)]
    # identical classifiers have no Wilcoxon statistic: change one score
    for a, b in combinations(names, 2):
        while acc[a] == acc[b]:
            i = draw(st.integers(0, n - 1))
            acc[b][i] = (acc[b][i] + 1) % (grid + 1)
    ok = all(acc[a] != acc[b] for a, b in combinations(names, 2))
    rows = [[c, d, acc[c][i] / grid] for c in names for i, d in enumerate(ds)]
    for c in more:
        k = draw(st.integers(1, n - 1))
        rows += [[c, d, draw(st.integers(0, grid)) / grid] for d in
                 draw(st.permutations(ds))[:k]]
    order = draw(st.sampled_from(["classifier", "shuffled", "shuffled", "dataset"]))
    if order == "shuffled":
        rows = draw(st.permutations(rows))
    elif order == "dataset":
        rows = sorted(rows, key=lambda r: (r[1], CLF[::-1].index(r[0])))
    case = {"rows": [list(r) for r in rows], "names": list(names), "ds": list(ds),
            "alpha": draw(st.sampled_from([0.05, 0.05, 0.01, 0.1, 0.3, 0.9])),
            "tie": draw(st.integers(-4, 14)), "ok": ok, "extra": len(more)}
    if draw(st.booleans()):
        case["index"] = [int(v) for v in np.random.RandomState(draw(
            st.integers(0, 9999))).randint(0, 5, size=len(rows))]
    return case


def flat(lines):
    """the horizontal bars below the scale's own axis"""
    q = [l for l in lines if len(l[0]) == 2 and abs(l[1][0] - l[1][1]) < 1e-12]
    axis = max(q, key=lambda l: (abs(l[0][0] - l[0][1]), -l[1][0]), default=None)
    return [l for l in q if l is not axis]


@st.composite
def large_table(draw, very_wide=False):
    """up to 11 (24) classifiers or 150 datasets; the accuracies come from a seed"""
    wide = very_wide or draw(st.booleans())
    m = draw(st.integers(12, 24) if very_wide else st.integers(7, 11) if wide else
             st.integers(3, 5))
    n = draw(st.integers(5, 25) if wide else st.integers(20, 150))
    rng = np.random.RandomState(draw(st.integers(0, 2 ** 31 - 1)))
    names = ["%s%d" % (MANY[i % 3], i) for i in rng.permutation(40)[:m].tolist()]
    ds = ["ds%d" % i for i in rng.permutation(n)]
    grid, step = draw(st.sampled_from([(16, 1), (200, 3), (1000, 20), (1000, 60)]))
    base = rng.randint(grid // 4, grid // 2, size=n)
    M = [np.clip(base + rng.randint(-grid // 8, grid // 8 + 1, size=n) + q * step, 0, grid)
         for q in range(m)]
    extra = draw(st.integers(0, 2))
    rows = [[c, d, M[q][i] / grid] for q, c in enumerate(names) for i, d in enumerate(ds)]
    for q in range(extra):
        rows += [["part%d" % q, ds[i], rng.randint(grid) / grid]
                 for i in rng.permutation(n)[:1 + rng.randint(n - 1)]]
    if draw(st.booleans()):
        rows = [rows[i] for i in rng.permutation(len(rows))]
    ok = len({v.tobytes() for v in M}) == m
    return {"rows": rows, "names": names, "ds": ds, "ok": ok, "extra": extra,
            "alpha": draw(st.sampled_from([0.05, 0.05, 0.01, 0.3])),
            "tie": draw(st.integers(-40, 60))}


def truth(case):
    from scipy.stats import wilcoxon
    names, ds = sorted(case["names"]), sorted(case["ds"])
    acc = {(c, d): a for c, d, a in case["rows"]}
    M = np.array([[acc[(c, d)] for d in ds] for c in names])
    p = {}
    for i, j in combinations(range(len(names)), 2):
        p[(names[i], names[j])] = float(wilcoxon(M[i], M[j], zero_method="pratt")[1])
    k = len(p)
    order = sorted(p, key=lambda q: p[q])
    alpha = case["alpha"]
    if case["tie"] >= 0:
        # a level at which one hypothesis sits exactly on its threshold
        i = case["tie"] % k
        a = p[order[i]] * (k - i)
        if 0 < a < 1 and float(a / (k - i)) == p[order[i]]:
            alpha = a
    sig = {}
    stop = False
    for i, q in enumerate(order):
        stop = stop or not p[q] <= alpha / (k - i)
        sig[q] = not stop
    R = np.zeros(M.shape)
    for c in range(M.shape[0]):
        better = (M > M[c]).sum(axis=0)
        same = (M == M[c]).sum(axis=0)
        R[c] = better + (same + 1) / 2
    return p, sig, dict(zip(names, R.mean(axis=1))), alpha


def stats(case, ctx):
    if not case["ok"]:
        raise Skip("identical classifiers")
    p, sig, rank, alpha = truth(case)
    r = lane.call("ranks", dict(case, alpha=alpha))
    m, n = len(case["names"]), len(case["ds"])
    got = {}
    for a, b, v, s in r["p"]:
        q = tuple(sorted((a, b)))
        if q in got:
            raise Violation("pair %s is tested twice" % (q,))
        got[q] = (v, s)
    if set(got) != set(p):
        raise Violation("pairs tested: %s, expected %s" % (sorted(got), sorted(p)))
    for q in p:
        if abs(got[q][0] - p[q]) > 1e-12:
            raise Violation("p-value of %s is %r, the Wilcoxon test on the scores paired by "
                            "dataset gives %r" % (q, got[q][0], p[q]))
        if got[q][1] != sig[q]:
            raise Violation("Holm decision of %s is %s, expected %s (p %r, level %r, %d pairs: "
                            "%s)" % (q, got[q][1], sig[q], p[q], alpha, len(p),
                                     sorted(p.values())))
    gr = dict((a, v) for a, v in r["ranks"])
    if set(gr) != set(rank):
        raise Violation("ranked classifiers %s, expected %s" % (sorted(gr), sorted(rank)))
    for c in rank:
        if abs(gr[c] - rank[c]) > 1e-9:
            raise Violation("average rank of %s is %r, expected %r" % (c, gr[c], rank[c]))
    if abs(sum(gr.values()) - m * (m + 1) / 2) > 1e-9:
        raise Violation("ranks add up to %r" % sum(gr.values()))
    if r["n"] != n:
        raise Violation("number of datasets %r, expected %d" % (r["n"], n))
    if not r["unchanged"]:
        raise Violation("the input table was changed")
    ctx.nt(len(set(sig.values())) == 2)
    ctx.label("all significant" if all(sig.values()) else
              "some significant" if any(sig.values()) else "none significant")
    if alpha != case["alpha"]:
        ctx.label("p on the threshold")
    if case["extra"]:
        ctx.label("incomplete classifiers")
    # a later hypothesis below its own threshold, after one that is not rejected
    k = len(p)
    ps = sorted(p.values())
    ok = [v <= alpha / (k - i) for i, v in enumerate(ps)]
    if any(not ok[i] and any(ok[i + 1:]) for i in range(k)):
        ctx.label("step-down matters")


def maximal(nodes, edge):
    out = []
    nodes = list(nodes)
    if len(nodes) > 10:
        import networkx
        g = networkx.Graph()
        g.add_nodes_from(nodes)
        g.add_edges_from(p for p in combinations(nodes, 2) if edge(*p))
        return sorted(sorted(c) for c in networkx.find_cliques(g))
    for b in range(1, 2 ** len(nodes)):
        s = [v for i, v in enumerate(nodes) if b >> i & 1]
        if all(edge(x, y) for x, y in combinations(s, 2)) and not any(
                all(edge(x, v) for x in s) for v in nodes if v not in s):
            out.append(sorted(s))
    return sorted(out)


@st.composite
def graph(draw):
    m = draw(st.integers(2, 7))
    names = draw(st.permutations(CLF))[:m]
    pairs = list(combinations(range(m), 2))
    e = draw(st.lists(st.booleans(), min_size=len(pairs), max_size=len(pairs)))
    dense = draw(st.integers(0, 2))
    if dense:
        e = [v or (i * 7 + dense) % 3 for i, v in enumerate(e)]
    p = [[names[i], names[j], 0.5, not bool(v)] if (i + j) % 2 else
         [names[j], names[i], 0.5, not bool(v)] for (i, j), v in zip(pairs, e)]
    return {"names": list(names), "p": draw(st.permutations(p))}


def clq(case, ctx):
    r = lane.call("cliques", case)
    names = case["names"]
    free = {frozenset((names.index(a), names.index(b))) for a, b, _, s in case["p"] if not s}
    want = [c for c in maximal(range(len(names)), lambda x, y: frozenset((x, y)) in free)
            if len(c) > 1]
    got = sorted(sorted(c) for c in r if len(c) > 1)
    if got != want:
        raise Violation("cliques %s, expected %s" % (got, want))
    ctx.nt(len(want) > 1)


@st.composite
def dia(draw, large=False):
    c = draw(large_table() if large else table())
    kw = {"width": draw(st.sampled_from([6, 9, 10, 14])), "labels": draw(st.booleans())}
    if draw(st.booleans()):
        kw["title"] = "a title"
    if draw(st.integers(0, 3)):
        kw["path"] = draw(st.sampled_from(["out/diagram.png", "x.pdf", "/tmp/vf/none.png"]))
    if draw(st.booleans()):
        kw["highlight"] = draw(st.sampled_from(c["names"]))
    c["kw"] = kw
    return c


def diagram(case, ctx):
    if not case["ok"]:
        raise Skip("identical classifiers")
    p, sig, rank, alpha = truth(case)
    log = lane.call("diagram", dict(case, alpha=alpha))["log"]
    saves = [a for r, m, a, k in log if m == "savefig"]
    if len(saves) != 1:
        raise Violation("the diagram is saved %d times" % len(saves))
    path = case["kw"].get("path")
    if path is not None and saves[0][0] != path:
        raise Violation("saved at %r, asked for %r" % (saves[0][0], path))
    texts = [(float(a[0]), float(a[1]), a[2], k) for r, m, a, k in log
             if m == "text" and len(a) > 2]
    names = [t[2] for t in texts if t[2] in CLF or t[2] in rank]
    if sorted(names) != sorted(rank):
        raise Violation("names drawn %s, classifiers %s" % (sorted(names), sorted(rank)))
    if case["kw"]["labels"]:
        got = sorted(t[2] for t in texts if "." in str(t[2]) and t[2] not in names)
        want = sorted("%.4f" % v for v in rank.values())
        if any(abs(float(a) - float(b)) > 2e-4 for a, b in zip(sorted(got, key=float),
                                                               sorted(want, key=float))) or \
                len(got) != len(want):
            raise Violation("ranks written %s, expected %s" % (got, want))
    ticks = {int(t[2]): t[0] for t in texts if str(t[2]).isdigit()}
    if len(ticks) < 2:
        raise Skip("no scale")
    xs = sorted(ticks)
    slope = (ticks[xs[-1]] - ticks[xs[0]]) / (xs[-1] - xs[0])
    if any(abs(ticks[v] - ticks[xs[0]] - slope * (v - xs[0])) > 1e-9 for v in xs):
        raise Violation("the scale is not linear")

    def at(x):
        return xs[0] + (x - ticks[xs[0]]) / slope
    lines = [(a[0], a[1], k) for r, m, a, k in log
             if m == "plot" and len(a) > 1 and isinstance(a[0], list)]
    lines += [([a[1], a[2]], [a[0]] * 2, k) for r, m, a, k in log
              if m == "hlines" and len(a) > 2]
    # each name hangs from its own average rank
    for x, y, c, _ in texts:
        if c not in rank:
            continue
        mine = [l for l in lines if len(l[0]) == 3 and abs(l[1][-1] - y) < 1e-9 and
                (l[0][-1] > 0.5) == (x > 0.5)]
        if len(mine) == 1 and abs(at(mine[0][0][0]) - rank[c]) > 1e-6:
            raise Violation("%s hangs at rank %r, its average rank is %r"
                            % (c, at(mine[0][0][0]), rank[c]))
        ctx.label("anchored" if len(mine) == 1 else "not anchored")
    free = {q for q in p if not sig[q]}
    groups = [g for g in maximal(sorted(rank), lambda a, b: tuple(sorted((a, b))) in free)
              if len(g) > 1]
    bars = flat(lines)
    want = sorted((min(rank[c] for c in g), max(rank[c] for c in g)) for g in groups)
    got = sorted(tuple(sorted((at(b[0][0]), at(b[0][-1])))) for b in bars)
    if len(want) != len(got):
        raise Violation("%d cliques drawn, expected %s" % (len(got), groups))
    tol = 0.05 / case["kw"]["width"] / abs(slope)
    left = list(got)
    for w in want:
        hit = [g for g in left if abs(g[0] - w[0]) <= tol and abs(g[1] - w[1]) <= tol]
        if not hit:
            raise Violation("cliques drawn over ranks %s, expected %s" % (got, want))
        left.remove(hit[0])
    ctx.nt(len(want) > 0 and any(sig.values()))
    ctx.label("%d cliques" % min(len(want), 3))


def facets():
    return [
        Facet("statistics", table, stats, 400, lane="pypy",
              rule="some pairs significant, others not"),
        Facet("cliques", graph, clq, 300, lane="pypy", rule="at least two cliques"),
        Facet("diagram", dia, diagram, 240, lane="pypy",
              rule="at least one clique and one significant pair"),
        Facet("large", large_table, stats, 32, lane="pypy", rule="up to 11 classifiers or 150 "
              "datasets, some pairs significant, others not"),
        Facet("large diagram", lambda: dia(large=True), diagram, 24, lane="pypy",
              rule="the same, drawn"),
    ]


def shard_end():
    lane.stop()
