"""C26: shapelet plots show the transform's match and distances."""
import re

import numpy as np
from hypothesis import strategies as st

from vf import gen, model, oracle
from .common import Facet, Violation, crafted_shapelets, realise


def interp():
    from convst.interpreters import RDST_interpreter
    return RDST_interpreter


@st.composite
def case_(draw):
    var = draw(st.booleans())
    phase = draw(st.booleans())
    fitted = draw(st.booleans())
    big = draw(st.integers(0, 19)) == 19       # far longer series, or many shapelets
    ds = draw(gen.dataset(min_n=1, max_n=4, min_t=60 if big else 4, max_t=500 if big else 22,
                          variable=var,
                          mixed=False, kinds=gen.EXACT + ("distinct", "real", "noise")))
    t = min(len(x[0]) for x in ds["X"])
    c = {"var": var, "phase": phase, "ds": ds, "fitted": fitted,
         "which": draw(st.integers(0, 300 if big else 30)), "series": draw(st.integers(0, 30)),
         "ax": draw(st.booleans()), "norm_opt": draw(st.booleans()),
         "style": draw(st.booleans()), "size": draw(st.integers(1, 9)),
         "colour": draw(st.sampled_from(["red", "C3", "black", "#00ff00"])),
         "longer": draw(st.integers(0, 9)),
         "dtype": draw(st.sampled_from(["float64"] * 5 + ["int64", "int32", "float32",
                                                          "strided", "read-only"]))}
    if fitted:
        c["p"] = draw(gen.rdst_params(t, max_shp=200 if big else 10, phase=phase))
        if big:
            c["p"]["shapelet_lengths"].append(draw(st.integers(13, 300)))
        c["p"]["shapelet_lengths"] = sorted({min(v, t) for v in c["p"]["shapelet_lengths"]})
    else:
        c["shps"] = draw(crafted_shapelets(t))
    return c


def calls(log, method):
    return [(r, a, k) for r, m, a, k in log if m == method]


def style(case, log, made, opts, drawn):
    """the options given are those used; without axes, a new figure is made and returned"""
    if not case["ax"]:
        if made is None:
            raise Violation("no axes were given and no figure is returned")
        fig = [k for r, m, a, k in log if m in ("figure", "subplots")]
        if opts.get("figsize") and fig and all(k.get("figsize") is not None and
                                               tuple(k["figsize"]) != opts["figsize"]
                                               for k in fig):
            raise Violation("figure sizes %s, asked %s" % ([k["figsize"] for k in fig],
                                                          opts["figsize"]))
        if opts.get("figsize") and fig and not any("figsize" in k for k in fig):
            raise Violation("the figure is of the default size, asked %s" % (opts["figsize"],))
        if opts.get("seaborn_context"):
            c = [a[0] if a else k.get("context") for r, m, a, k in log
                 if r == "sns" and m == "set_context"]
            if c and c[-1] != opts["seaborn_context"]:
                raise Violation("seaborn context %r, asked %r" % (c[-1],
                                                                 opts["seaborn_context"]))
    for o, names in (("shp_c", ("c", "color")), ("shp_dot_size", ("s",)),
                     ("c_threshold", ("color", "colors", "c"))):
        if o in opts:
            got = [k[n] for r, a, k in drawn for n in names if n in k]
            if got != [opts[o]]:
                raise Violation("%s=%r asked, drawn with %r" % (o, opts[o], got))


def one_place(what, drawn, given, log):
    """everything is drawn on one pair of axes, the caller's if he gives one"""
    where = {r for r, _, _ in drawn}
    if where == {"plt"} and any(m == "sca" for _, m, _, _ in log):
        return
    if len(where) != 1 or given is not None and where != {given}:
        raise Violation("%s drew on %s, %s" % (what, sorted(where), "expected " + given if given
                                               else "no axes were given"))


def check(case, ctx):
    from matplotlib import pyplot as plt
    X = gen.to_list(case["ds"]["X"])
    phase, var = case["phase"], case["var"]
    kind = "univariate_variable" if var else "univariate"
    if case["fitted"]:
        data = X if var else np.array(X)
        est = model.R_DST(transform_type=kind, **case["p"])
        est.fit(data, np.asarray(case["ds"]["y"]))
    else:
        est = model.crafted(kind, phase, realise(case["shps"], X, phase))
    shps = model.unpack(est.shapelets_)
    if not shps:
        ctx.label("nothing sampled")
        return
    j = case["which"] % len(shps)
    shp = shps[j]
    x = X[case["series"] % len(X)]
    if case["longer"] > 6:
        # the series plotted need not have the length of the training series
        x = np.concatenate([x, x[:, :3] - 2.0], axis=1)
    F = np.asarray(est.transform([x] if var else x[None]))[0, 3 * j:3 * j + 3]
    I = interp()(est)
    arg = j
    keep = model.copy_shapelets(est.shapelets_)
    xin = x[0].copy()
    if case["dtype"] in ("int64", "int32", "float32") and np.array_equal(
            xin.astype(case["dtype"]).astype(float), xin):
        xin = xin.astype(case["dtype"])
        ctx.label(case["dtype"])
    elif case["dtype"] == "strided":
        xin = np.repeat(xin, 2)[::2]
    elif case["dtype"] == "read-only":
        xin.setflags(write=False)

    exact = not shp["norm"] and case["ds"]["kind"] in gen.EXACT + ("distinct", "noise")
    scale = float(np.abs(x).max())
    tol = oracle.tol_for(shp, exact, scale)
    L, d, T = shp["length"], shp["dilation"], x.shape[1]
    dv = oracle.dist_vector(x, shp, phase)

    # ---- best match
    plt.reset()
    ax = None
    if case["ax"]:
        ax = plt.subplots()[1]
        plt.reset()
    given = ax._name if ax is not None else None
    opts = {} if not case["style"] else {
        "figsize": (case["size"] + 1, case["size"]),
        "seaborn_context": ["paper", "poster"][case["size"] % 2]}
    xo = dict(opts, shp_c=case["colour"], shp_dot_size=case["size"] * 7) if opts else {}
    made = I.plot_on_X(arg, xin, ax=ax, label="lab", **xo)
    log = list(plt.log)
    sc, pl = calls(log, "scatter"), calls(log, "plot")
    if len(sc) != 1 or len(pl) != 1:
        raise Violation("plot_on_X made %d scatter and %d plot calls" % (len(sc), len(pl)))
    one_place("plot_on_X", sc + pl, given, log)
    if not np.array_equal(np.asarray(pl[0][1][-1], dtype=float), x[0]):
        raise Violation("the series drawn is not the series given")
    style(case, log, made, xo, sc)
    if pl[0][2].get("label") != "lab":
        raise Violation("the series is drawn with label %r" % (pl[0][2].get("label"),))
    ix = np.asarray(sc[0][1][0])
    vals = np.asarray(sc[0][1][1], dtype=float)
    if ix.shape != (L,) or vals.shape != (L,):
        raise Violation("highlighted %s points with %s values, length is %d"
                        % (ix.shape, vals.shape, L))
    a = int(ix[0])
    exp = a + np.arange(L) * d
    if phase:
        exp = exp % T
    if not 0 <= a < len(dv) or not np.array_equal(ix, exp):
        raise Violation("highlighted indexes %s (length %d, dilation %d, %d points, phase %s)"
                        % (ix.tolist(), L, d, T, phase))
    if a != int(F[1]):
        b = int(F[1])
        if tol == 0 or abs(dv[a] - dv[b]) > 2 * tol:
            raise Violation("highlights the match at %d, the transform reports %d" % (a, b))
    m = oracle.check_features(x, shp, phase, [dv[a], a, (dv <= shp["threshold"]).sum()], exact)
    if m:
        raise Violation("highlighted match: %s" % m)
    v = np.asarray(shp["values"][0])
    w = x[0][exp]
    if shp["norm"]:
        want = v * w.std() + w.mean()
        if np.abs(vals - want).max() > (1e-5 if xin.dtype == np.float32 else 1e-7) * max(
                1.0, scale, np.abs(v).max()):
            raise Violation("rescaled values %s, expected %s" % (vals.tolist(), want.tolist()))
    elif not np.array_equal(vals, v):
        raise Violation("values drawn %s, shapelet %s" % (vals.tolist(), v.tolist()))

    # ---- distances
    plt.reset()
    do = dict(opts, c_threshold=case["colour"]) if opts else {}
    made = I.plot_distance_vector(arg, xin, ax=ax, label="lab", **do)
    log = list(plt.log)
    hl, pl = calls(log, "hlines") + calls(log, "axhline"), calls(log, "plot")
    if len(hl) != 1 or len(pl) != 1:
        raise Violation("plot_distance_vector made %d line and %d plot calls"
                        % (len(hl), len(pl)))
    one_place("plot_distance_vector", hl + pl, given, log)
    style(case, log, made, do, hl)
    curve = np.asarray(pl[0][1][-1], dtype=float)
    thr = hl[0][1][0] if hl[0][1] else hl[0][2].get("y")
    if float(thr) != shp["threshold"]:
        raise Violation("threshold drawn at %r, the shapelet's is %r" % (thr, shp["threshold"]))
    if curve.shape != dv.shape:
        raise Violation("distance curve has %s points, there are %d windows"
                        % (curve.shape, len(dv)))
    if not np.abs(curve - dv).max() <= tol:
        raise Violation("distance curve %s, expected %s" % (curve.tolist(), dv.tolist()))
    if not abs(curve.min() - F[0]) <= tol:
        raise Violation("curve minimum %r, transform reports %r" % (curve.min(), F[0]))
    n = int((curve <= float(thr)).sum())
    lo = int((dv <= float(thr) - tol).sum())
    hi = int((dv <= float(thr) + tol).sum())
    if n != F[2] and (tol == 0 or not (lo <= n <= hi and lo <= F[2] <= hi)):
        raise Violation("%d points of the curve are within the threshold, the transform "
                        "reports %r" % (n, F[2]))
    if pl[0][2].get("label") != "lab":
        raise Violation("the curve is drawn with label %r" % (pl[0][2].get("label"),))

    if calls(log, "hlines"):
        ends = [float(hl[0][1][q] if len(hl[0][1]) > q else hl[0][2][n])
                for q, n in ((1, "xmin"), (2, "xmax"))]
        if not (ends[0] <= 0 and ends[1] >= len(curve) - 1):
            raise Violation("the threshold is drawn from %g to %g along a curve of %d points"
                            % (ends[0], ends[1], len(curve)))

    # ---- the shapelet itself
    plt.reset()
    made = I.plot(arg, ax=ax, **opts)
    log = list(plt.log)
    style(case, log, made, opts, [])
    pl = calls(log, "plot")
    if len(pl) != 1:
        raise Violation("plot drew %s" % ([p[0] for p in pl],))
    one_place("plot", pl, given, log)
    if not np.array_equal(np.asarray(pl[0][1][-1], dtype=float), v):
        raise Violation("plot draws %s, shapelet is %s"
                        % (np.asarray(pl[0][1][-1]).tolist(), v.tolist()))
    title = calls(log, "title") + calls(log, "set_title") + calls(log, "suptitle")
    if not title:
        raise Violation("plot says nothing of the shapelet's dilation and threshold")
    for r, args, k in title:
        s = str(args[0]) if args else str(k.get("label"))
        said = dict(re.findall(r"(\w+)\s*=\s*([^,;\s]+)", s))
        for name, want, tol_ in (("d", d, 0), ("normalize", float(shp["norm"]), 0),
                                 ("threshold", shp["threshold"],
                                  0.0051 + 1e-9 * abs(shp["threshold"]))):
            if name not in said:
                continue
            v_ = {"True": "1", "False": "0"}.get(said[name], said[name])
            try:
                ok = abs(float(v_) - want) <= tol_ and (name == "threshold" or
                                                        said[name] not in ("True", "False")
                                                        or name == "normalize")
            except ValueError:
                ok = False
            if not ok:
                raise Violation("title %r of a shapelet of dilation %d, normalisation %s, "
                                "threshold %r" % (s, d, shp["norm"], shp["threshold"]))
    if not np.array_equal(xin, x[0]):
        raise Violation("plotting changed the series")
    if not model.same_shapelets(keep, est.shapelets_):
        raise Violation("plotting changed the transformer")
    ctx.nt(len(shps) > 1 and a > 0)
    ctx.label("norm" if shp["norm"] else "raw", "phase" if phase else "no phase",
              "axes given" if case["ax"] else "own figure")
    if phase and a + (L - 1) * d >= T:
        ctx.label("wraps")
    if T >= 60:
        ctx.label("long")
    if d > 1:
        ctx.label("dilated")


@st.composite
def refuse_case(draw):
    return {"what": draw(st.sampled_from(["unfitted", "multivariate", "multivariate",
                                          "multivariate_variable", "not a transformer",
                                          "ridge", "auto"])),
            "auto": draw(st.booleans()), "phase": draw(st.booleans()),
            "seed": draw(gen.seeds), "id": draw(st.integers(0, 3)),
            "call": draw(st.sampled_from(["plot", "plot_on_X", "plot_distance_vector"]))}


def refuse(case, ctx):
    from matplotlib import pyplot as plt
    rng = np.random.RandomState(case["seed"])
    w = case["what"]
    y = np.array([0, 1, 0, 1, 0, 1])
    ctx.nt()
    ctx.label(w)
    if w in ("unfitted", "not a transformer", "ridge"):
        if w == "unfitted":
            o = model.R_DST(n_shapelets=4, shapelet_lengths=[3])
        elif w == "ridge":
            o = model.Ridge(n_shapelets=4, shapelet_lengths=[3])
            if case["auto"]:
                o.fit(rng.randn(6, 1, 12), y)
        else:
            class Other:
                phase_invariance = case["phase"]
                transform_type = "univariate"

                def fit(self, X, y):
                    return self
            o = Other()
            o.shapelets_ = model.crafted("univariate", case["phase"], [
                {"values": [np.array([1., 2, 3])], "length": 3, "dilation": 1,
                 "threshold": 1.0, "norm": False, "channels": [0]}]).shapelets_
        try:
            interp()(o)
        except Exception:
            return
        raise Violation("the interpreter accepts an object that is %s" % w)
    var = w.endswith("variable")
    multi = w.startswith("multi")
    X = rng.randint(-9, 9, size=(6, 2 if multi else 1, 14)).astype(float)
    data = [x for x in X] if var else X
    tt = "auto" if case["auto"] or w == "auto" else w
    est = model.R_DST(transform_type=tt, n_shapelets=4, shapelet_lengths=[3],
                      phase_invariance=case["phase"], random_state=0).fit(data, y)
    I = interp()(est)
    plt.reset()
    j = case["id"] % len(model.unpack(est.shapelets_))
    args = (j,) if case["call"] == "plot" else (j, X[0, 0])
    if not multi:
        getattr(I, case["call"])(*args)
        if not calls(plt.log, "plot"):
            raise Violation("%s draws nothing" % case["call"])
        return
    try:
        getattr(I, case["call"])(*args)
    except NotImplementedError:
        return
    except Exception as e:
        raise Violation("%s of a %s transformer (transform_type=%s) fails with %s: %s"
                        % (case["call"], w, tt, type(e).__name__, e))
    raise Violation("%s of a %s transformer is not refused" % (case["call"], w))


def facets():
    return [
        Facet("plots", case_, check, 1600, rule="more than one shapelet, best match not at 0"),
        Facet("refusals", refuse_case, refuse, 240, rule="every case"),
    ]

