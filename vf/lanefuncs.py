"""What the PyPy worker can be asked to do. Plain data in, plain data out; the
oracles live in the checks."""
import re
import time

import numpy as np

from vf.cores import believed, simulated


# ---- C24
class _Odd:
    def __len__(self):
        return 3

    def __getitem__(self, i):
        return 1.0


def build(d):
    import pandas as pd
    k = d["kind"]
    if k in ("array", "list", "frame", "series", "tuple", "object-array"):
        n = int(np.prod(d["shape"])) if d["shape"] else 1
        a = (np.arange(n) % 7 - 2).reshape(d["shape"])
        if d["dtype"] == "str":
            a = a.astype(str)
        else:
            a = a.astype(d["dtype"])
            if a.dtype.kind == "f":
                a = a / 4
                if d.get("nan") and a.size:
                    a.flat[0] = np.nan
        if k == "array":
            return np.asfortranarray(a) if d.get("F") and a.ndim > 1 else a
        if k == "object-array":
            return a.astype(object)
        if k == "list":
            return a.tolist() if a.ndim else [a.tolist()] * 0
        if k == "tuple":
            return tuple(a.tolist()) if a.ndim else (1,)
        if k == "series":
            return pd.Series(a.ravel())
        f = pd.DataFrame(a.reshape(d["shape"][0], -1) if a.size else
                         np.zeros((d["shape"][0], 0)))
        if d.get("names") and f.shape[1]:
            f.columns = ["c%d" % i for i in range(f.shape[1])]
            f.index = list(range(f.shape[0], 0, -1))
        return f
    if k == "arrays":       # list of arrays
        return [np.arange(int(np.prod(s)), dtype=float).reshape(s) for s in d["shapes"]]
    if k == "py":
        v = d["value"]
        return {"npfloat": lambda: np.float32(v), "npint": lambda: np.int16(v),
                "npbool": lambda: np.bool_(v), "uint": lambda: np.uint8(abs(int(v))),
                "float": lambda: float(v), "int": lambda: int(v), "bool": lambda: bool(v),
                "none": lambda: None, "str": lambda: str(v), "complex": lambda: complex(v),
                "dict": lambda: {"a": v}, "set": lambda: {v}, "bytes": lambda: b"1",
                "range": lambda: range(3), "odd": _Odd, "type": lambda: np.ndarray,
                "inf": lambda: float("inf"), "nan": lambda: float("nan"),
                "npinf": lambda: np.float64("inf"), "matrix": lambda: np.asmatrix([[1.0, v]]),
                "gen": lambda: (i for i in range(3)), "array0": lambda: np.array(v),
                "list": lambda: [v], "nplong": lambda: np.int64(v),
                "complex128": lambda: np.complex128(v), "complex64": lambda: np.complex64(v),
                "datetime": lambda: np.datetime64(abs(v), "D")}[d["as"]]()
    raise KeyError(k)


def describe(v):
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        return {"type": "DataFrame", "shape": list(v.shape), "values": v.values.tolist(),
                "dtype": str(v.values.dtype), "columns": [str(c) for c in v.columns]}
    if isinstance(v, np.ndarray):
        return {"type": "ndarray", "shape": list(v.shape), "values": v.tolist(),
                "dtype": str(v.dtype)}
    return {"type": type(v).__name__, "repr": repr(v)}


def checks(case):
    """-> result of a validation helper: {"value": description} or {"error": type}"""
    import os
    import pandas as pd
    from convst.utils import checks_utils as m
    f = getattr(m, case["func"])
    arg = build(case["arg"])
    before = repr(describe(arg)) if not hasattr(arg, "send") else ""
    cores = believed(case.get("cores", os.cpu_count()))
    try:
        with simulated(cores):
            out = f(arg, **case.get("kw", {}))
    except Exception as e:
        return {"error": type(e).__name__, "value_error": isinstance(e, ValueError),
                "msg": str(e)[:200]}
    ref = arg
    if isinstance(arg, list) or (isinstance(arg, pd.DataFrame) and
                                 case.get("kw", {}).get("coerce_to_numpy", True)):
        ref = np.asarray(arg)
    a, b = describe(out), describe(ref)
    return {"value": a, "same": repr(a) == repr(b) and type(out) is type(ref), "want": b,
            "cores": cores,
            "unchanged": (before == repr(describe(arg))) if before else True}


# ---- C23
class Recorder:
    def __init__(self, mutate=False, slow=0):
        self.fits, self.predicts, self.mutate = [], [], mutate
        self.slow, self.first, self.last = slow / 1000.0, [], []

    def fit(self, X, y):
        self.first.append(time.perf_counter())
        time.sleep(self.slow)
        self.fits.append((plainX(X), [float(v) for v in y]))
        self.labels = sorted(set(float(v) for v in y))
        if self.mutate:
            for x in X:
                x[:] = -77.0
        return self

    def predict(self, X):
        Xp = plainX(X)
        self.predicts.append(Xp)
        out = guess(Xp, self.labels)
        if self.mutate:
            for x in X:
                x[:] = -78.0
        time.sleep(self.slow)
        self.last.append(time.perf_counter())
        return out


def plainX(X):
    return [np.array(x).tolist() for x in X]


def guess(Xp, labels):
    """a prediction that depends on the series only"""
    return np.array([labels[int(abs(sum(map(sum, x))) * 64) % len(labels)] for x in Xp])


def _register(case):
    from aeon import datasets
    conv = (lambda X: [np.array(x, dtype=float) for x in X]) if case["var"] else \
        (lambda X: np.array(X, dtype=float))
    name = "ds"
    datasets.register(name, conv(case["Xa"]), np.array(case["ya"]), conv(case["Xb"]),
                      np.array(case["yb"]))
    return name


def _original(name):
    from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
    return load_UCR_UEA_dataset_split(name)[:4]


def _folds(name, n):
    from convst.utils.experiments_utils import _resample
    out = []
    for i in range(n):
        Xa, Xb, ya, yb = _original(name)
        if i:
            Xa, ya, Xb, yb = _resample(Xa, ya, Xb, yb, i)
        out.append({"Xa": plainX(Xa), "ya": [float(v) for v in ya],
                    "Xb": plainX(Xb), "yb": [float(v) for v in yb]})
    return out


def cross_validate(case):
    from convst.utils.experiments_utils import cross_validate_UCR_UEA
    from sklearn.metrics import accuracy_score
    name = _register(case)
    folds = _folds(name, case["n"])
    seen = []

    def odd(y_true, y_pred):
        seen.append(([float(v) for v in y_true], [float(v) for v in y_pred]))
        return 0.25 + 0.5 * float(np.mean(np.asarray(y_true) > np.asarray(y_pred)))
    kw = {} if case["default"] else {"scorers": {"acc": accuracy_score, "odd": odd}}
    cv = cross_validate_UCR_UEA(case["n"], name, **kw)
    r = Recorder(case["mutate"], case.get("slow", 0))
    np.random.seed(case["seed"])
    t0 = time.perf_counter()
    s = cv.score(r)
    total = time.perf_counter() - t0
    cols = [str(c) for c in s.columns]
    return {"folds": folds, "fits": r.fits, "predicts": r.predicts, "columns": cols,
            "scores": {c: [float(v) for v in s[c].values] for c in cols},
            "seen": seen, "total": total, "inner": [b - a for a, b in zip(r.first, r.last)],
            "preds": [guess(f["Xb"], sorted(set(f["ya"]))).tolist() for f in folds]}


def splits(case):
    from convst.utils.experiments_utils import _sklearn_cv
    name = _register(case)
    folds = _folds(name, case["n"])
    Xa, Xb, ya, yb = _original(name)
    X, y = np.concatenate((Xa, Xb)), np.concatenate((ya, yb))
    cv = _sklearn_cv(case["n"], name)
    np.random.seed(case["seed"])
    out = []
    for tr, te in cv.split(X, y):
        out.append(([int(i) for i in tr], [int(i) for i in te]))
    return {"folds": folds, "splits": out, "n_splits": int(cv.get_n_splits(X, y)),
            "X": plainX(X), "y": [float(v) for v in y]}


def grid(case):
    from convst.utils.experiments_utils import grid_search_UCR_UEA
    from sklearn.base import BaseEstimator, ClassifierMixin

    class Fake(ClassifierMixin, BaseEstimator):
        def __init__(self, shift=0):
            self.shift = shift

        def fit(self, X, y):
            self.lab_ = sorted(set(float(v) for v in y))
            self.k_ = len(plainX(X))
            return self

        def predict(self, X):
            g = guess(plainX(X), self.lab_)
            return np.array([self.lab_[(self.lab_.index(v) + self.shift) % len(self.lab_)]
                             for v in g])
    name = _register(case)
    folds = _folds(name, case["n"])
    from sklearn.metrics import make_scorer
    acc = lambda y, p: float(np.mean([a == b for a, b in zip(p, y)]))    # noqa: E731
    odd = lambda y, p: 0.25 + 0.5 * float(np.mean([a > b for a, b in zip(y, p)]))  # noqa: E731
    kw, fun = {}, acc
    if case.get("scorer") == "odd":
        kw, fun = {"scorers": make_scorer(odd)}, odd
    elif case.get("scorer") == "loss":
        kw = {"scorers": make_scorer(odd, greater_is_better=False)}
        fun = lambda y, p: -odd(y, p)    # noqa: E731
    r = grid_search_UCR_UEA(case["n"], name, case.get("jobs", 1), **kw).score(
        Fake, {"shift": case["shifts"]})
    want = []
    for s in case["shifts"]:
        row = []
        for f in folds:
            lab = sorted(set(f["ya"]))
            g = [lab[(lab.index(v) + s) % len(lab)] for v in guess(f["Xb"], lab)]
            row.append(fun(f["yb"], g))
        want.append(row)
    got = [[float(r["split%d_test_score" % j].values[i]) for j in range(case["n"])]
           for i in range(len(r))]
    return {"want": want, "got": got, "shifts": [int(p["shift"]) for p in r["params"]]}


# ---- C28, C29
def _json(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [_json(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if hasattr(v, "tolist"):
        return v.tolist()
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def _log():
    from matplotlib import pyplot as plt
    return [[r, m, _json(a), {str(x): _json(y) for x, y in k.items()}]
            for r, m, a, k in plt.log]


def pairwise(case):
    import pandas as pd
    from matplotlib import pyplot as plt
    from convst.utils.plot_utils import pairwise_plot
    df = pd.DataFrame({c: v for c, v in zip(case["cols"], case["data"])},
                      index=case["index"])[case["cols"]]
    keep = df.copy()
    plt.reset()
    pairwise_plot(df, case["baseline"], **case["kw"])
    return {"log": _log(), "unchanged": bool(df.equals(keep))}


def _perf(case):
    import pandas as pd
    df = pd.DataFrame(case["rows"], columns=["classifier_name", "dataset_name", "accuracy"])
    if case.get("index"):
        df.index = case["index"]
    return df


def ranks(case):
    from convst.utils.plot_utils import _wilcoxon_holm
    df = _perf(case)
    keep = df.copy()
    p, r, n = _wilcoxon_holm(alpha=case["alpha"], df_perf=df)
    return {"p": [[str(a), str(b), float(v), bool(s)] for a, b, v, s in p],
            "ranks": [[str(k), float(v)] for k, v in r.items()], "n": int(n),
            "unchanged": bool(df.equals(keep))}


def cliques(case):
    from convst.utils.plot_utils import _form_cliques
    names = np.array(case["names"])
    out = _form_cliques([tuple(p) for p in case["p"]], names)
    return [sorted(int(i) for i in c) for c in out]


def diagram(case):
    from matplotlib import pyplot as plt
    from convst.utils.plot_utils import draw_cd_diagram
    plt.reset()
    draw_cd_diagram(df_perf=_perf(case), alpha=case["alpha"], **case["kw"])
    return {"log": _log()}


_ = re
