"""C38: fitted estimators can be copied, pickled and reused; using one changes nothing."""
import copy
import json
import os
import pickle
import re
import subprocess
import sys

import joblib
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, prelude
from .common import Facet, Skip, Violation, fit_case
from .c16 import blends

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
# learned attributes, by the scikit-learn convention
LEARNED = re.compile(r"\.(shapelets_|coef_|intercept_|classes_|mean_|scale_)")
HOW = ["pickle0", "pickle2", "pickle5", "deepcopy", "pickle twice"]


def duplicate(est, how):
    try:
        if how == "deepcopy":
            return copy.deepcopy(est)
        if how == "pickle twice":
            return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(est))))
        return pickle.loads(pickle.dumps(est, protocol=int(how[6:])))
    except Exception as e:
        raise Violation("a fitted %s cannot be copied (%s): %s: %s"
                        % (type(est).__name__, how, type(e).__name__, str(e)[:200]))


@st.composite
def case_(draw):
    which = draw(st.sampled_from(["rdst", "rdst", "ridge", "ensemble"]))
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    if which == "rdst":
        c = draw(fit_case(variable=var, multi=multi, max_n=6, max_t=18, max_shp=14, max_c=3)())
    else:
        ds = draw(gen.clf_dataset(variable=var, min_c=2 if multi else 1,
                                  max_c=2 if multi else 1, min_t=10, max_n=8))
        c = {"ds": ds, "p": draw(gen.clf_params(min(len(x[0]) for x in ds["X"])))}
    if draw(st.booleans()):
        c["p"]["normalize_output"] = True
    c.update(which=which, kind=kind, how=draw(st.sampled_from(HOW)),
             ops=draw(st.lists(st.sampled_from(["use", "copy", "params", "refit copy",
                                                "use other", "train", "other kind", "in place"]),
                               min_size=1, max_size=5)),
             seed=draw(gen.seeds), none=draw(st.booleans()),
             order=draw(st.integers(0, 5)), members=draw(st.integers(1, 3)))
    return c


def build(case):
    """-> (unfitted estimator, X, y)"""
    var = case["kind"].endswith("variable")
    return (make(case),) + tuple(model.data(case["ds"], var))


def make(case):
    var = case["kind"].endswith("variable")
    p = dict(case["p"])
    if case["none"]:
        p["random_state"] = None
    w = case["which"]
    if w == "rdst":
        return model.R_DST(**p)
    if w == "ridge":
        return model.Ridge(**p)
    from convst.transformers._input_transformers import Derivate, Raw
    m = case["members"]
    p["n_shapelets_per_estimator"] = p.pop("n_shapelets")
    p["shp_alpha"] = p.pop("alpha")
    p["proba_norm"] = [p["proba_norm"]] * m
    p["shapelet_lengths"] = [3]
    trs = [Raw(), Raw(), Raw()] if var else [Derivate(), Raw(), Derivate(order=2)]
    return model.Ensemble(input_transformers=trs[:m], **p)


def use(est, T):
    return np.array(est.transform(T) if hasattr(est, "transform") else est.predict(T))


def other_data(case, X):
    var = case["kind"].endswith("variable")
    t = min(x.shape[1] for x in X)
    new = [x for x in blends(X, None, case["seed"], 5) if x.shape[1] >= t]
    return list(X) + new if var else np.array(list(X) + new)


def as_kind(X, y, kind):
    """data of another kind, made from X"""
    t = min(x.shape[1] for x in X)
    D = [np.array(x[:1]) for x in X]
    if kind.startswith("multi"):
        D = [np.concatenate([x, x[:, ::-1] + 1]) for x in D]
    if kind.endswith("variable"):
        return [x if i % 2 else np.concatenate([x, x[:, :2]], axis=1)
                for i, x in enumerate(D)], y
    return np.array([x[:, :t] for x in D]), y


def inner(est):
    """every learned array reachable from the estimator"""
    out, seen = [], set()

    def walk(o, name, depth):
        if depth > 8 or id(o) in seen:
            return
        if isinstance(o, np.ndarray):
            out.append((name, o))
        elif isinstance(o, (list, tuple)):
            seen.add(id(o))
            for i, v in enumerate(o):
                walk(v, "%s[%d]" % (name, i), depth + 1)
        elif isinstance(o, dict):
            seen.add(id(o))
            for k in sorted(o, key=str):
                walk(o[k], "%s[%s]" % (name, k), depth + 1)
        elif hasattr(o, "__dict__") and (type(o).__module__.startswith(("convst", "sklearn"))):
            seen.add(id(o))
            for k in sorted(vars(o)):
                walk(vars(o)[k], name + "." + k, depth + 1)
    walk(est, "", 0)
    return out


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def check(case, ctx):
    est, X, y = build(case)
    T = other_data(case, X)
    joblib.exec_order = case["order"]
    est.fit(X, y)
    w = case["which"]
    what = "%s, %s" % (w, case["kind"])
    want = use(est, T)
    before = [(n, np.array(a)) for n, a in inner(est) if LEARNED.search(n)]
    params = repr(sorted(est.get_params(deep=False)))
    dup = duplicate(est, case["how"])
    got = use(dup, T)
    if not same(got, want):
        raise Violation("%s: a copy (%s) of the fitted estimator gives other results"
                        % (what, case["how"]))
    rng = np.random.RandomState(case["seed"])
    for k, op in enumerate(case["ops"]):
        target = [est, dup][(case["seed"] >> k) & 1]
        if op == "use":
            o = rng.permutation(len(T))[:max(1, len(T) - 2)]
            use(target, [T[i] for i in o] if isinstance(T, list) else T[o])
        elif op == "train":
            use(target, X)
        elif op == "copy":
            dup = duplicate(target, HOW[k % len(HOW)])
        elif op == "params":
            target.get_params()
        elif op == "in place":
            # one array object, its content changed between two uses
            V = copy.deepcopy(T)
            o = rng.permutation(len(T))
            if isinstance(V, list):
                V[:] = [V[i] for i in o]
            use(target, V)
            if isinstance(V, list):
                V[:] = [np.array(x) for x in T]
            else:
                V[:] = T
            if not same(use(target, V), want):
                raise Violation("%s: an array whose content changed since it was last used "
                                "gives other results than that content" % what)
        elif op == "other kind":
            # another estimator of the same class, for another kind of data
            k2 = KINDS[(KINDS.index(case["kind"]) + 1 + case["seed"] // 7 % 3) % 4]
            D, y2 = as_kind(X, y, k2)
            e2 = make(dict(case, kind=k2, none=True))
            e2.fit(D, y2)
            use(e2, D)
        elif op == "refit copy":
            # another estimator learns something else; this one must not notice
            d = duplicate(target, HOW[(k + 1) % len(HOW)])
            yy = rng.permutation(y)
            D = [x[:, ::-1] * 2 + 1 for x in X]
            d.fit(D if isinstance(X, list) else np.array(D), yy)
            use(d, T)
        else:
            e2, X2, y2 = build(dict(case, none=True))
            D = [x[:, ::-1] * 3 - 1 for x in X2]
            e2.fit(D if isinstance(X2, list) else np.array(D), y2)
            use(e2, T)
        for name, e in (("the estimator", est), ("its copy", dup)):
            if not same(use(e, T), want):
                raise Violation("%s: %s gives other results after %s" % (
                    what, name, case["ops"][:k + 1]))
    after = [(n, a) for n, a in inner(est) if LEARNED.search(n)]
    if [n for n, _ in after] == [n for n, _ in before]:
        for (n, a), (_, b) in zip(after, before):
            if not same(a, b):
                raise Violation("%s: %s changed by %s" % (what, n, case["ops"]))
    if repr(sorted(est.get_params(deep=False))) != params:
        raise Violation("%s: parameter names changed" % what)
    ctx.label(w, case["kind"], case["how"], *set(case["ops"]))
    ctx.nt(len(np.unique(want)) > 1 and len(set(case["ops"])) > 1)


# ------------------------------------------------------------ fit_transform
@st.composite
def ft_case(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    c = draw(fit_case(variable=var, multi=multi, max_n=6, max_t=20, max_shp=14, max_c=3)())
    c.update(kind=kind, norm=draw(st.booleans()), explicit=draw(st.booleans()),
             pipe=draw(st.booleans()))
    return c


def fit_transform(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    p = dict(case["p"], normalize_output=case["norm"])
    if case["explicit"]:
        p["transform_type"] = case["kind"]
    a = model.R_DST(**p).fit(X, y)
    want = np.asarray(a.transform(X))
    b = model.R_DST(**p)
    if case["pipe"]:
        from sklearn.pipeline import make_pipeline
        from convst.transformers._input_transformers import Raw
        got = make_pipeline(Raw(), b).fit_transform(X, y)
    else:
        got = b.fit_transform(X, y)
    if not same(np.asarray(got), want):
        raise Violation("%s: fit_transform differs from fit, then transform" % case["kind"])
    if not model.same_shapelets(a.shapelets_, b.shapelets_):
        raise Violation("%s: fit_transform leaves other shapelets than fit" % case["kind"])
    if not same(np.asarray(b.transform(X)), want):
        raise Violation("%s: transform after fit_transform differs" % case["kind"])
    ctx.label(case["kind"], "pipeline" if case["pipe"] else "alone")
    ctx.nt(len(a.shapelets_[1]) > 1)


# ------------------------------------------------------------ another process
@st.composite
def process_case(draw):
    return {"cases": draw(st.lists(case_(), min_size=3, max_size=6))}


def process(case, ctx):
    import tempfile
    want, items = [], []
    for c in case["cases"]:
        est, X, y = build(c)
        est.fit(X, y)
        T = other_data(c, X)
        want.append(use(est, T))
        items.append((pickle.dumps(est), T))
    with tempfile.TemporaryDirectory(prefix="vf_c38_") as d:
        with open(os.path.join(d, "in"), "wb") as f:
            pickle.dump(items, f)
        try:
            r = subprocess.run([sys.executable, "-c", "from vf import prelude; import "
                                "checks.c38 as c; c.child(%r)" % d],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               cwd=prelude.VERIF, text=True, timeout=50)
        except subprocess.TimeoutExpired:
            raise Skip("time bound of the other process")
        if r.returncode:
            if prelude.REPO + os.sep not in r.stderr:
                raise Skip("the other process did not run: %s" % r.stderr[-200:])
            raise Violation("a pickled estimator cannot be used in another process: %s"
                            % r.stderr[-500:])
        with open(os.path.join(d, "out"), "rb") as f:
            got = pickle.load(f)
    for c, a, b in zip(case["cases"], want, got):
        if not same(a, b):
            raise Violation("%s, %s: loaded in another process it gives other results"
                            % (c["which"], c["kind"]))
    ctx.label(*[c["which"] for c in case["cases"]])
    ctx.nt()


def child(d):
    with open(os.path.join(d, "in"), "rb") as f:
        items = pickle.load(f)
    out = [use(pickle.loads(s), T) for s, T in items]
    with open(os.path.join(d, "out"), "wb") as f:
        pickle.dump(out, f)


def facets():
    return [
        Facet("copies", case_, check, 260, rule="sequences of uses, copies, fits of copies and "
              "of others: the fitted estimator and its copies keep their results, bit by bit, "
              "and its learned arrays; non-trivial: varied results, two kinds of operation"),
        Facet("fit_transform", ft_case, fit_transform, 200, rule="fit_transform (alone, in a "
              "pipeline) against fit then transform; non-trivial: several shapelets"),
        Facet("process", process_case, process, 10, rule="pickled here, used in a new "
              "process; non-trivial: all"),
    ]
