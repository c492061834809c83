from .base import BaseEstimator, clone


class Pipeline(BaseEstimator):
    def __init__(self, steps, *, memory=None, verbose=False):
        self.steps, self.memory, self.verbose = steps, memory, verbose

    def get_params(self, deep=True):
        out = {"steps": self.steps, "memory": self.memory, "verbose": self.verbose}
        if deep:
            for name, est in self.steps:
                out[name] = est
                if hasattr(est, "get_params"):
                    out.update((name + "__" + k, v) for k, v in est.get_params().items())
        return out

    def set_params(self, **params):
        names = [n for n, _ in self.steps]
        for k in [k for k in params if k in names]:
            self.steps[names.index(k)] = (k, params.pop(k))
        return super().set_params(**params)

    @property
    def named_steps(self):
        from .utils import Bunch
        return Bunch(**dict(self.steps))

    def __len__(self):
        return len(self.steps)

    def __getitem__(self, ind):
        if isinstance(ind, slice):
            return Pipeline(self.steps[ind])
        if isinstance(ind, str):
            return dict(self.steps)[ind]
        return self.steps[ind][1]

    @property
    def _final_estimator(self):
        return self.steps[-1][1]

    @property
    def classes_(self):
        return self.steps[-1][1].classes_

    @property
    def _estimator_type(self):
        return getattr(self.steps[-1][1], "_estimator_type", None)

    def fit(self, X, y=None, **fit_params):
        self.steps = list(self.steps)
        for i, (name, t) in enumerate(self.steps[:-1]):
            if t is None or t == "passthrough":
                continue
            X = t.fit_transform(X, y)
        last = self.steps[-1][1]
        if last is not None and last != "passthrough":
            last.fit(X, y)
        return self

    def _through(self, X):
        for name, t in self.steps[:-1]:
            if t is not None and t != "passthrough":
                X = t.transform(X)
        return X

    def __getattr__(self, name):
        if name in ("predict", "predict_proba", "decision_function", "transform"):
            last = self.__dict__["steps"][-1][1]
            f = getattr(last, name)
            return lambda X: f(self._through(X))
        raise AttributeError(name)

    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X)

    def fit_predict(self, X, y=None):
        return self.fit(X, y).predict(X)

    def score(self, X, y=None):
        return self.steps[-1][1].score(self._through(X), y)


def make_pipeline(*steps, memory=None, verbose=False):
    names = [type(s).__name__.lower() if not isinstance(s, str) else s for s in steps]
    out, seen = [], {}
    for n, s in zip(names, steps):
        seen[n] = seen.get(n, 0) + 1
        out.append((n if names.count(n) == 1 else "%s-%d" % (n, seen[n]), s))
    return Pipeline(out)


__all__ = ["Pipeline", "make_pipeline", "clone"]
