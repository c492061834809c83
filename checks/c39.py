"""C39: n_jobs is a thread budget: honoured, never exceeded, without effect on results."""
from contextlib import contextmanager

import joblib
import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone

from vf import gen, model
from vf.cores import believed, simulated
from vf.prelude import numba
from .common import Facet, Skip, Violation

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


@contextmanager
def machine(cores):
    """a machine with that many cores, as far as the code under test can see"""
    old = (numba.config.NUMBA_NUM_THREADS, numba.config.NUMBA_DEFAULT_NUM_THREADS,
           numba.get_num_threads())
    real = believed(cores, [(joblib, "cpu_count")])
    with simulated(real, [(joblib, "cpu_count")]):
        numba.config.NUMBA_NUM_THREADS = numba.config.NUMBA_DEFAULT_NUM_THREADS = real
        numba.set_num_threads(real)
        try:
            yield real
        finally:
            numba.config.NUMBA_NUM_THREADS, numba.config.NUMBA_DEFAULT_NUM_THREADS = old[:2]
            numba.set_num_threads(old[2])


def budget(n_jobs, cores):
    """the number of threads asked for"""
    if n_jobs is None:
        return 1
    if n_jobs < 0:
        return max(1, cores + 1 + n_jobs)
    return min(n_jobs, cores)


JOBS = st.one_of(st.sampled_from([None, 1, -1, -2, False, True]), st.integers(1, 40),
                 st.integers(-40, -1))


@st.composite
def case_(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    ds = draw(gen.clf_dataset(variable=var, min_c=2 if multi else 1, max_c=2 if multi else 1,
                              max_n=7))
    p = draw(gen.clf_params(min(len(x[0]) for x in ds["X"])))
    p["n_shapelets"] = min(p["n_shapelets"], draw(st.integers(3, 14)))
    cores = draw(st.sampled_from([1, 2, 3, 4, 7, 8, 12, 16, 64]))
    return {"which": draw(st.sampled_from(["rdst", "ridge"])), "kind": kind, "ds": ds, "p": p,
            "cores": cores, "jobs": draw(st.lists(JOBS, min_size=1, max_size=3)),
            "early": draw(st.integers(0, 3)), "mine": draw(st.integers(1, cores)),
            # changed between fit and use: the number of jobs, the machine
            "later": draw(st.one_of(st.just("same"), st.just("same"), JOBS)),
            "moved": draw(st.one_of(st.none(), st.none(), st.sampled_from([1, 2, 5, 16])))}


def seen():
    """the thread counts in force while compiled functions run"""
    log = []
    cls = numba.Dispatcher
    call = cls.__call__

    def wrapped(self, *a, **k):
        if not numba._depth:
            log.append((self.__name__, numba.get_num_threads()))
        return call(self, *a, **k)
    return log, cls, call, wrapped


@contextmanager
def watch():
    log, cls, call, wrapped = seen()
    cls.__call__ = wrapped
    try:
        yield log
    finally:
        cls.__call__ = call


def learned(est):
    """the shapelets of every transformer inside an estimator, and its coefficients"""
    R = type(model.R_DST())
    out = []

    def walk(o, depth):
        if isinstance(o, R):
            if hasattr(o, "shapelets_"):
                out.append([np.asarray(a) for a in o.shapelets_])
            return
        if hasattr(o, "coef_"):
            out.append([np.asarray(o.coef_), np.asarray(o.intercept_)])
        if depth > 6:
            return
        if isinstance(o, (list, tuple)) and len(o) < 60:
            for q in o:
                walk(q, depth + 1)
        elif hasattr(o, "__dict__") and type(o).__module__.split(".")[0] in ("convst", "sklearn"):
            for k in sorted(vars(o)):
                walk(vars(o)[k], depth + 1)
    walk(est, 0)
    return out


def same_learned(ests, jobs, what):
    """whatever was learned is bit for bit the same for every number of jobs"""
    got = [learned(e) for e in ests]
    if not got[0]:
        return
    for g, j in zip(got[1:], jobs[1:]):
        if len(g) != len(got[0]) or any(
                len(a) != len(b) or not all(np.array_equal(u, v) for u, v in zip(a, b))
                for a, b in zip(g, got[0])):
            raise Violation("%s: what is learned with n_jobs=%r differs from what is learned "
                            "with n_jobs=%r" % (what, j, jobs[0]))


def single(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    C = model.R_DST if case["which"] == "rdst" else model.Ridge
    results, ests = [], []
    early = {}
    if case["early"]:
        # all of them are built before any is used
        with machine(case["cores"]):
            for i, jobs in enumerate(case["jobs"]):
                early[i] = C(n_jobs=jobs, **case["p"])
                if case["early"] == 2:
                    early[i] = clone(early[i])
                elif case["early"] == 3:
                    early[i] = C(**case["p"]).set_params(n_jobs=jobs)
    later, moved = case.get("later", "same"), case.get("moved")
    for i, jobs in enumerate(case["jobs"]):
        est = None
        stages = [("fit", jobs, case["cores"])]
        stages.append(("use", jobs if later == "same" else later, moved or case["cores"]))
        for stage, nj, cores in stages:
            cores = believed(cores, [(joblib, "cpu_count")])
            with machine(cores):
                if est is None:
                    est = early[i] if early else C(n_jobs=nj, **case["p"])
                elif later != "same":
                    est.set_params(n_jobs=nj)
                # what another estimator, or the caller, asked for before
                mine = 1 + (case["mine"] - 1 if stage == "fit" else case["mine"] * 7) % cores
                numba.set_num_threads(mine)
                keep = isinstance(nj, bool)
                want = mine if keep else budget(nj, cores)
                with watch() as log:
                    if stage == "fit":
                        est.fit(X, y)
                    else:
                        r = np.asarray(est.transform(X) if case["which"] == "rdst" else
                                       est.predict(X))
                if not log:
                    raise Skip("no compiled function was called")
                bad = [(f, k) for f, k in log if k != want]
                if bad:
                    raise Violation("%s(n_jobs=%r%s), %s on %d cores, %d threads set by the "
                                    "caller: %s ran with %d threads, expected %d" % (
                                        case["which"], nj, "" if nj is jobs else
                                        " since the fit, %r before" % (jobs,), stage, cores, mine,
                                        bad[0][0], bad[0][1], want))
                if keep and numba.get_num_threads() != mine:
                    raise Violation("%s(n_jobs=%r) leaves %d threads, the caller set %d" % (
                        case["which"], nj, numba.get_num_threads(), mine))
        results.append(r)
        ests.append(est)
    same_learned(ests, case["jobs"], case["which"])
    for r in results[1:]:
        if not model.equal(r, results[0]):
            raise Violation("%s: results differ between n_jobs %s" % (case["which"],
                                                                      case["jobs"]))
    ctx.label(case["which"], case["kind"], "%d cores" % case["cores"],
              "other n_jobs after the fit" if later != "same" else "same n_jobs",
              "other machine after the fit" if moved else "same machine",
              *["caller's" if isinstance(j, bool) else "none" if j is None else
                "negative" if j < 0 else "above" if j > case["cores"] else "within"
                for j in case["jobs"]])
    ctx.nt(any(not isinstance(j, bool) and j not in (None, 1) for j in case["jobs"]))


@st.composite
def ens_case(draw):
    c = draw(case_())
    c["which"] = "ensemble"
    c["members"] = draw(st.integers(1, 5))
    c["jobs"] = [j for j in c["jobs"] if not isinstance(j, bool)] or [draw(st.integers(1, 20))]
    c["order"] = draw(st.integers(0, 6))
    c["most"] = draw(st.sampled_from([5, 6, 7, 10, 20]))
    c["prefer"] = draw(st.sampled_from([None, "threads"]))
    return c


def ensemble(case, ctx):
    from convst.transformers._input_transformers import Raw
    import convst.classifiers.rdst_ensemble as m
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    p = dict(case["p"])
    p["n_shapelets_per_estimator"] = min(case.get("most", 6), p.pop("n_shapelets"))
    p["shp_alpha"] = p.pop("alpha")
    p["shapelet_lengths"] = [3]
    k = case["members"]
    p["proba_norm"] = [p["proba_norm"]] * k
    results, ests = [], []
    later, moved = case.get("later", "same"), case.get("moved")
    later = "same" if isinstance(later, bool) else later
    for jobs in case["jobs"]:
        ens = None
        stages = [("fit", jobs, case["cores"])]
        stages.append(("predict", jobs if later == "same" else later, moved or case["cores"]))
        for stage, nj, cores in stages:
            cores = believed(cores, [(joblib, "cpu_count")])
            total = budget(nj, cores)
            at_once = []
            real = joblib.Parallel

            class Recorder(real):
                def __init__(self, n_jobs=None, **kw):
                    at_once.append(1 if n_jobs is None else n_jobs if n_jobs > 0 else
                                   max(1, cores + 1 + n_jobs))
                    super().__init__(n_jobs=n_jobs, **kw)
            names = [n for n, v in vars(m).items() if v is real]
            joblib.exec_order = case["order"]
            with machine(cores):
                numba.set_num_threads(1 + (case["mine"] - 1 if stage == "fit" else
                                           case["mine"] * 7) % cores)
                for n in names:
                    setattr(m, n, Recorder)
                joblib.Parallel = Recorder
                try:
                    if ens is None:
                        ens = model.Ensemble(input_transformers=[Raw() for _ in range(k)],
                                             n_jobs=nj, prefer=case["prefer"], **p)
                    elif later != "same":
                        ens.set_params(n_jobs=nj)
                    with watch() as log:
                        if stage == "fit":
                            ens.fit(X, y)
                        else:
                            r = np.asarray(ens.predict(X))
                finally:
                    joblib.Parallel = real
                    for n in names:
                        setattr(m, n, real)
            if not log or not at_once:
                raise Skip("no compiled function or no parallel call")
            what = "ensemble of %d with n_jobs=%r (%s, fitted with %r), on %d cores" % (
                k, nj, stage, jobs, cores)
            par = max(at_once)
            if par < 1 or par > max(k, 1) or par > total:
                raise Violation("%s runs %d members at once" % (what, par))
            t = sorted({n for _, n in log})
            if t[0] < 1 or par * t[-1] > total:
                raise Violation("%s: %d members at once, %d threads each" % (what, par, t[-1]))
            # the budget is used: whole members first, then whole threads for each
            if par != min(k, total) or t != [max(1, total // par)]:
                raise Violation("%s: %d members at once with %s threads each, %d and %d fit in "
                                "the budget" % (what, par, t, min(k, total),
                                                max(1, total // min(k, total))))
        results.append(r)
        ests.append(ens)
    same_learned(ests, case["jobs"], "ensemble")
    for r in results[1:]:
        if not model.equal(r, results[0]):
            raise Violation("ensemble: predictions differ between n_jobs %s" % case["jobs"])
    ctx.label(case["kind"], "%d members" % k, "%d cores" % case["cores"])
    ctx.nt(any(budget(j, case["cores"]) > 1 for j in case["jobs"]) and k > 1)


def facets():
    return [
        Facet("single", case_, single, 250, rule="transformer and ridge on simulated machines "
              "(1-64 cores): the threads in force during every compiled call; equal results "
              "for all n_jobs; non-trivial: some n_jobs other than None, 1 or a boolean"),
        Facet("ensemble", ens_case, ensemble, 90, rule="members at once x threads each against "
              "the budget; non-trivial: several members, a budget above one"),
    ]
