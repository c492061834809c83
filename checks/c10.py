"""C10: a fixed random_state makes fits and predictions reproducible."""
import hashlib
import json
import os
import random
import subprocess
import sys

import joblib
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, prelude
from vf.prelude import numba
from .common import Facet, Skip, Violation, fit_case, large_case, large_data

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def disturb(seed, other=None):
    """anything a program may do between two fits"""
    random.seed(seed)
    np.random.seed(seed % 2 ** 31)
    numba._scramble(seed + 17)
    if other is not None:
        X, y = model.data(other["ds"], other["var"])
        q = dict(other["p"])
        q["random_state"] = None
        model.R_DST(**q).fit(X, y).transform(X)
    np.random.rand(seed % 7)


def rs(case):
    """a fresh random state of the same value"""
    s = case["p"]["random_state"]
    if case["rs"] == "generator":
        r = np.random.RandomState(s)
        r.rand(case["adv"])
        return r
    return np.int64(s) if case["rs"] == "numpy" else s


@st.composite
def case_strategy(draw):
    kind = draw(st.sampled_from(KINDS))
    var, multi = kind.endswith("variable"), kind.startswith("multi")
    c = draw(fit_case(variable=var, multi=multi, max_n=6, max_t=18, max_shp=12, max_c=3)())
    c["kind"] = kind
    t = min(len(x[0]) for x in c["ds"]["X"])
    if draw(st.integers(0, 2)) == 0:
        c["p"]["shapelet_lengths"] = sorted(draw(st.sets(st.integers(2, t), min_size=1,
                                                         max_size=6)))
    c["rs"] = draw(st.sampled_from(["int", "int", "numpy", "generator"]))
    c["adv"] = draw(st.integers(0, 5))
    if draw(st.integers(0, 3)) == 0 and len(c["ds"]["X"]) >= 4:
        n = len(c["ds"]["X"])
        c["ds"]["y"] = [i % 2 for i in range(n)]
        c["p"]["n_samples"] = draw(st.sampled_from([0.5, 0.75, 1.5]))
        if int(n * c["p"]["n_samples"]) < 2:
            del c["p"]["n_samples"]
    if draw(st.booleans()):
        o = draw(fit_case(max_n=4, max_t=12, max_shp=6)())
        o["var"] = draw(st.booleans())
        c["other"] = o
    c["dist"] = draw(st.lists(gen.seeds, min_size=2, max_size=2))
    c["order"] = draw(st.lists(st.integers(0, 9), min_size=2, max_size=2))
    return c


def transformer(case, ctx):
    var = case["kind"].endswith("variable")
    X, y = model.data(case["ds"], var)
    res, alive = [], []
    for q in range(2):
        disturb(case["dist"][q], case.get("other"))
        est = model.R_DST(**dict(case["p"], random_state=rs(case)))
        alive.append((est, np.empty(case["dist"][q] % 61)))    # not the same memory again
        if q:
            disturb(case["dist"][0] + 1)
        est.fit(X, y)
        disturb(case["dist"][q] + 3)
        res.append((model.copy_shapelets(est.shapelets_), np.array(est.transform(X))))
    if not model.same_shapelets(res[0][0], res[1][0]):
        raise Violation("two fits with equal random_state %s differ" % case["rs"])
    if not model.equal(res[0][1], res[1][1]):
        raise Violation("two transforms with equal random_state differ")
    if case["rs"] == "int":
        # the same estimator fitted again from its parameters
        est = model.R_DST(**dict(case["p"], random_state=rs(case))).fit(X, y)
        est.fit(X, y)
        if not model.same_shapelets(res[0][0], est.shapelets_):
            raise Violation("fitting the same seeded estimator twice differs")
    ctx.label(case["kind"], case["rs"], "subsampled" if "n_samples" in case["p"] else "all")
    ctx.nt(len(res[0][0][1]) > 1)


def classifiers(case, ctx):
    X, y = model.data(case["ds"], False)
    p = dict(case["p"])
    ens = case["ens"]
    if ens:
        from convst.transformers._input_transformers import Raw, Derivate
        k = {"n_shapelets_per_estimator": p["n_shapelets"], "shp_alpha": p["alpha"],
             "shapelet_lengths": p["shapelet_lengths"], "percentiles": p["percentiles"],
             "phase_invariance": p["phase_invariance"],
             "prime_dilations": p["prime_dilations"],
             "proba_norm": [p["proba_norm"], 0.3, 0.5]}
    else:
        k = p
    res = []
    for q in range(2):
        disturb(case["dist"][q], case.get("other"))
        joblib.exec_order = case["order"][q]
        k = dict(k, random_state=rs(case))
        if ens:
            clf = model.Ensemble(**dict(k, input_transformers=[Raw(), Derivate(), Raw()]))
        else:
            clf = model.Ridge(**k)
        clf.fit(X, y)
        disturb(case["dist"][q] + 3)
        joblib.exec_order = case["order"][1 - q]
        res.append(clf.predict(X))
    if not model.equal(*res):
        raise Violation("two %s fits with equal random_state predict differently: %s, %s"
                        % ("ensemble" if ens else "ridge", res[0], res[1]))
    if ens and case["rs"] != "generator":
        joblib.exec_order = case["order"][0]
        a = model.Ensemble(**dict(k, input_transformers=[Raw(), Derivate(), Raw()])).fit(X, y)
        joblib.exec_order = case["order"][1]
        b = model.Ensemble(**dict(k, input_transformers=[Raw(), Derivate(), Raw()])).fit(X, y)
        try:
            pairs = [(m["r_dst"].shapelets_, n["r_dst"].shapelets_)
                     for m, n in zip(a.models, b.models)]
        except (AttributeError, KeyError, TypeError):
            pairs = []
        for i, (s, t) in enumerate(pairs):
            if not model.same_shapelets(s, t):
                raise Violation("member %d of two ensembles with equal seeds differs "
                                "(execution orders %s)" % (i, case["order"]))
    ctx.label("ensemble" if ens else "ridge")
    ctx.nt()


@st.composite
def clf_case(draw):
    c = draw(case_strategy())
    c["ds"], c["kind"] = draw(gen.clf_dataset()), "univariate"
    c["p"] = draw(gen.clf_params(len(c["ds"]["X"][0][0])))
    c["ens"] = draw(st.booleans())
    return c


@st.composite
def seeds_case(draw):
    return {"kind": draw(st.sampled_from(KINDS)), "data": draw(gen.seeds),
            "seeds": draw(st.lists(gen.seeds, min_size=4, max_size=8, unique=True)),
            "bits": draw(st.lists(st.integers(0, 31), max_size=6, unique=True)),
            "rs": draw(st.sampled_from(["int", "generator"])), "adv": 0}


def seeds_differ(case, ctx):
    var, multi = case["kind"].endswith("variable"), case["kind"].startswith("multi")
    X = np.random.RandomState(case["data"]).randn(6, 2 if multi else 1, 40)
    X = list(X) if var else X
    y = np.arange(6) % 2
    got = []
    case = dict(case, seeds=list(dict.fromkeys(         # some of them apart by one bit
        case["seeds"] + [case["seeds"][0] ^ (1 << b) for b in case["bits"]])))
    for s in case["seeds"]:
        c = {"p": {"random_state": s}, "rs": case["rs"], "adv": 0}
        est = model.R_DST(n_shapelets=10, random_state=rs(c)).fit(X, y)
        got.append(model.copy_shapelets(est.shapelets_))
    for i in range(len(got)):
        for j in range(i):
            if model.same_shapelets(got[i], got[j]):
                raise Violation("seeds %d and %d give identical shapelets on random data"
                                % (case["seeds"][i], case["seeds"][j]))
    ctx.nt()


@st.composite
def process_case(draw):
    return {"cases": draw(st.lists(large_case(max_n=6, max_t=60, max_shp=40, axes=[None]), min_size=2,
                                   max_size=5)),
            "rs": draw(st.sampled_from(["int", "numpy", "generator"])),
            "hash": draw(st.integers(1, 10 ** 6)), "clf": draw(st.booleans())}


def digests(case, order):
    """of every fit of the case, fitted in the given order"""
    out = {}
    for i in order:
        c = case["cases"][i]
        X, y = large_data(c)
        t = min(x.shape[1] for x in X)
        r = rs({"p": c["p"], "rs": case["rs"], "adv": i})
        p = dict(c["p"], random_state=r)
        p["shapelet_lengths"] = sorted({min(v, t) for v in p["shapelet_lengths"]})
        h = hashlib.sha1()
        if case["clf"] and len(set(y)) > 1 and not isinstance(X, list) and X.shape[1] == 1:
            from convst.transformers._input_transformers import Raw, Derivate
            clf = model.Ensemble(
                n_shapelets_per_estimator=p["n_shapelets"], shapelet_lengths=[5, 3],
                random_state=r, input_transformers=[Raw(), Derivate()],
                proba_norm=[0.5, 0.5]).fit(X, y)
            h.update(np.ascontiguousarray(clf.predict(X)).tobytes())
        else:
            est = model.R_DST(**p).fit(X, y)
            for a in est.shapelets_ + (np.asarray(est.transform(X)),):
                h.update(np.ascontiguousarray(a).tobytes())
        out[str(i)] = h.hexdigest()
    return out


def process(case, ctx):
    n = len(case["cases"])
    here = digests(case, range(n))
    env = dict(os.environ, PYTHONHASHSEED=str(case["hash"]))
    try:
        r = subprocess.run([sys.executable, "-c", "from vf import prelude; import checks.c10 as c; c.child()"],
                           input=json.dumps(case), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=prelude.VERIF, env=env, text=True,
                           timeout=50)
    except subprocess.TimeoutExpired:
        raise Skip("time bound of the other process")
    if r.returncode:
        if prelude.REPO + os.sep not in r.stderr:
            raise Skip("the other process did not run: %s" % r.stderr[-200:])
        raise Violation("the fits of another process fail: %s" % r.stderr[-500:])
    there = json.loads(r.stdout.strip().splitlines()[-1])
    if here != there:
        raise Violation("another process (hash seed %d, cases in reverse order) gets other "
                        "results for cases %s" % (case["hash"], [
                            i for i in here if here[i] != there[i]]))
    ctx.label(*[c["kind"] for c in case["cases"]])
    ctx.nt()


def child():
    case = json.load(sys.stdin)
    out = digests(case, reversed(range(len(case["cases"]))))
    print(json.dumps({k: out[k] for k in sorted(out, key=int)}))


def facets():
    return [
        Facet("transformer", case_strategy, transformer, 1000, rule="two fits with equal seeds "
              "(int, numpy int, generator) around disturbances of every global generator and "
              "other fits; non-trivial: more than one shapelet"),
        Facet("classifiers", clf_case, classifiers, 160, rule="ridge and ensemble, different "
              "member execution orders; non-trivial: all"),
        Facet("process", process_case, process, 10, rule="several larger fits and ensembles "
              "here and, in reverse order, in a new process with another hash seed: same "
              "results; non-trivial: all"),
        Facet("seeds", seeds_case, seeds_differ, 80, rule="distinct seeds, random data: "
              "pairwise different shapelets"),
    ]
