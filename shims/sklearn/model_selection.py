import itertools
import numpy as np
from .base import BaseEstimator, clone
from .metrics import check_scoring
from .utils import _safe_indexing


class ParameterGrid:
    def __init__(self, grid):
        self.grid = [grid] if isinstance(grid, dict) else list(grid)

    def __iter__(self):
        for p in self.grid:
            items = sorted(p.items())
            if not items:
                yield {}
            else:
                keys, values = zip(*items)
                for v in itertools.product(*values):
                    yield dict(zip(keys, v))

    def __len__(self):
        return len(list(iter(self)))


class GridSearchCV(BaseEstimator):
    def __init__(self, estimator, param_grid, *, scoring=None, n_jobs=None, refit=True,
                 cv=None, verbose=0, pre_dispatch="2*n_jobs", error_score=np.nan,
                 return_train_score=False):
        self.estimator, self.param_grid, self.scoring = estimator, param_grid, scoring
        self.n_jobs, self.refit, self.cv, self.verbose = n_jobs, refit, cv, verbose
        self.pre_dispatch, self.error_score = pre_dispatch, error_score
        self.return_train_score = return_train_score

    def fit(self, X, y=None, **kw):
        scorer = check_scoring(self.estimator, self.scoring)
        splits = list(self.cv.split(X, y, None))
        if len(splits) != self.cv.get_n_splits(X, y, None):
            raise ValueError("cv.split and cv.get_n_splits returned inconsistent results")
        params = list(ParameterGrid(self.param_grid))
        scores = np.empty((len(params), len(splits)))
        for i, p in enumerate(params):
            for j, (tr, te) in enumerate(splits):
                est = clone(self.estimator)
                est.set_params(**{k: clone(v, safe=False) for k, v in p.items()})
                est.fit(_safe_indexing(X, tr), _safe_indexing(y, tr))
                scores[i, j] = scorer(est, _safe_indexing(X, te), _safe_indexing(y, te))
        res = {"params": params}
        for k in sorted({k for p in params for k in p}):
            res["param_" + k] = np.array([p.get(k) for p in params], dtype=object)
        for j in range(len(splits)):
            res["split%d_test_score" % j] = scores[:, j]
        res["mean_test_score"] = scores.mean(axis=1)
        res["std_test_score"] = scores.std(axis=1)
        order = np.argsort(-res["mean_test_score"], kind="stable")
        rank = np.empty(len(params), int)
        for i in range(len(params)):
            rank[i] = 1 + int(np.sum(res["mean_test_score"] > res["mean_test_score"][i]))
        res["rank_test_score"] = rank
        self.cv_results_ = res
        self.best_index_ = int(order[0])
        self.best_params_ = params[self.best_index_]
        self.best_score_ = res["mean_test_score"][self.best_index_]
        if self.refit:
            self.best_estimator_ = clone(self.estimator).set_params(**self.best_params_)
            self.best_estimator_.fit(X, y)
        return self

    def predict(self, X):
        return self.best_estimator_.predict(X)


def cross_validate(*a, **k):
    raise NotImplementedError("cross_validate is not part of this stand-in")


def train_test_split(*a, **k):
    raise NotImplementedError("train_test_split is not part of this stand-in")


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    class Missing:
        def __init__(self, *a, **k):
            raise NotImplementedError("%s is not part of this stand-in" % name)
    return Missing
