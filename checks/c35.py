"""C35: the compilation switches reach every compiled function."""
import importlib
import os
import sys

import numpy as np
from hypothesis import strategies as st

from vf import gen, prelude
from .common import Facet, Skip, Violation

SWITCH = {"cache": "__USE_NUMBA_CACHE__", "fastmath": "__USE_NUMBA_FASTMATH__",
          "nogil": "__USE_NUMBA_NOGIL__", "parallel": "__USE_NUMBA_PARALLEL__"}
KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def modules():
    out = []
    root = os.path.join(prelude.REPO, "convst")
    for d, ds, fs in sorted(os.walk(root)):
        ds[:] = [x for x in ds if not x.startswith(("_", "."))]
        for f in sorted(fs):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), prelude.REPO)[:-3].replace(os.sep, ".")
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return [m for m in out if m != "convst"]


class Fresh:
    """the package imported anew with the given switches"""

    def __init__(self, switches, order):
        self.switches, self.order = switches, order

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items()
                      if k == "convst" or k.startswith("convst.")}
        for k in self.saved:
            del sys.modules[k]
        self.start = len(prelude.numba._registry)
        pkg = importlib.import_module("convst")
        for o, v in self.switches.items():
            if not hasattr(pkg, SWITCH[o]):
                raise Skip("no switch " + SWITCH[o])
            setattr(pkg, SWITCH[o], v)
        ms = modules()
        ms = [ms[i % len(ms)] for i in self.order] + ms
        for m in ms:
            try:
                importlib.import_module(m)
            except ImportError as e:
                if (e.name or "").split(".")[0] == "convst":
                    raise
        return self

    def compiled(self):
        return prelude.numba._registry[self.start:]

    def __exit__(self, *a):
        for k in [k for k in sys.modules if k == "convst" or k.startswith("convst.")]:
            del sys.modules[k]
        sys.modules.update(self.saved)
        del prelude.numba._registry[self.start:]


@st.composite
def case_(draw):
    kind = draw(st.sampled_from(KINDS))
    n = draw(st.integers(0, 15))
    return {"on": {o: bool(n >> i & 1) for i, o in enumerate(sorted(SWITCH))},
            "order": draw(st.lists(st.integers(0, 60), max_size=4)), "kind": kind,
            "seed": draw(gen.seeds), "phase": draw(st.booleans()),
            "prime": draw(st.booleans())}


def run(case, switches):
    """(compiled functions, fitter, transformer, shapelets, features)"""
    rng = np.random.RandomState(case["seed"])
    multi, var = case["kind"].startswith("multi"), case["kind"].endswith("variable")
    X = [rng.randint(-60, 60, size=(2 if multi else 1, 12 + (rng.randint(4) if var else 0))) / 8.0
         for _ in range(5)]
    y = np.array([0, 1, 0, 1, 1])
    D = X if var else np.array(X)
    with Fresh(switches, case["order"]) as f:
        comp = list(f.compiled())
        from convst.transformers import R_DST
        est = R_DST(n_shapelets=8, shapelet_lengths=[3, 4], random_state=case["seed"],
                    phase_invariance=case["phase"], prime_dilations=case["prime"], n_jobs=1)
        est.fit(D, y)
        F = np.asarray(est.transform(D))
        comp += [c for c in f.compiled() if c not in comp]
        return comp, getattr(est, "fitter", None), getattr(est, "transformer", None), \
            [np.array(a) for a in est.shapelets_], F


def check(case, ctx):
    on = case["on"]
    comp, fitter, transformer, shps, F = run(case, on)
    if not comp:
        raise Skip("no compiled function")
    bad = []
    for c in comp:
        for o, v in on.items():
            if c.targetoptions.get(o) and not v:
                bad.append("%s.%s uses %s" % (c.__module__, c.__name__, o))
    if bad:
        raise Violation("with the switches %s off: %s" % (
            [o for o in on if not on[o]], "; ".join(sorted(bad)[:4])))
    for what, d, opts in (("sampling", fitter, ("cache", "nogil", "parallel")),
                          ("transform", transformer, ("cache", "nogil", "parallel",
                                                      "fastmath"))):
        if not hasattr(d, "targetoptions"):
            raise Skip("the %s entry point is not a compiled function" % what)
        for o in opts:
            if on[o] and not d.targetoptions.get(o):
                raise Violation("%s is on, the %s entry point %s does not use it"
                                % (SWITCH[o], what, d.__name__))
    if not on["parallel"]:
        other = run(case, dict(on, parallel=True))
        if len(shps) != len(other[3]) or not all(np.array_equal(a, b)
                                                 for a, b in zip(shps, other[3])):
            raise Violation("fitted shapelets differ with parallelism off and on")
        if not np.array_equal(F, other[4]):
            raise Violation("features differ with parallelism off and on")
    ctx.nt(not all(on.values()))
    ctx.label(case["kind"], "on: " + ",".join(o for o in sorted(on) if on[o]))


def facets():
    return [Facet("switches", case_, check, 320, 1600, rule="at least one switch off")]
