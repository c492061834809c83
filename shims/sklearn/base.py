import copy
import inspect
from collections import defaultdict


def clone(estimator, *, safe=True):
    t = type(estimator)
    if t in (list, tuple, set, frozenset):
        return t([clone(e, safe=safe) for e in estimator])
    if not hasattr(estimator, "get_params") or isinstance(estimator, type):
        if not safe:
            return copy.deepcopy(estimator)
        raise TypeError("Cannot clone object '%s' (type %s)" % (repr(estimator), t))
    params = estimator.get_params(deep=False)
    new_params = {k: clone(v, safe=False) for k, v in params.items()}
    new = t(**new_params)
    set_p = new.get_params(deep=False)
    for name in new_params:
        if new_params[name] is not set_p[name]:
            raise RuntimeError("Cannot clone object '%s' (type %s): it does not seem to "
                               "set parameter %s" % (estimator, t, name))
    return new


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        init = cls.__init__
        if init is object.__init__:
            return []
        sig = inspect.signature(init)
        ps = [p for p in sig.parameters.values()
              if p.name != "self" and p.kind != p.VAR_KEYWORD]
        for p in ps:
            if p.kind == p.VAR_POSITIONAL:
                raise RuntimeError("varargs in an estimator constructor")
        return sorted(p.name for p in ps)

    def get_params(self, deep=True):
        out = {}
        for key in self._get_param_names():
            value = getattr(self, key)
            if deep and hasattr(value, "get_params") and not isinstance(value, type):
                out.update((key + "__" + k, v) for k, v in value.get_params().items())
            out[key] = value
        return out

    def set_params(self, **params):
        if not params:
            return self
        valid = self.get_params(deep=True)
        nested = defaultdict(dict)
        for key, value in params.items():
            key, delim, sub = key.partition("__")
            if key not in valid:
                raise ValueError("Invalid parameter %r for estimator %s."
                                 % (key, type(self).__name__))
            if delim:
                nested[key][sub] = value
            else:
                setattr(self, key, value)
                valid[key] = value
        for key, sub in nested.items():
            valid[key].set_params(**sub)
        return self

    def __repr__(self):
        return "%s()" % type(self).__name__

    def __getstate__(self):
        return self.__dict__.copy()

    def _more_tags(self):
        return {}

    def _get_tags(self):
        return self._more_tags()

    def _validate_data(self, X, y=None, **k):
        return X if y is None else (X, y)

    def _check_n_features(self, X, reset):
        pass


class ClassifierMixin:
    _estimator_type = "classifier"

    def score(self, X, y, sample_weight=None):
        from .metrics import accuracy_score
        return accuracy_score(y, self.predict(X), sample_weight=sample_weight)


class RegressorMixin:
    _estimator_type = "regressor"


class TransformerMixin:
    def fit_transform(self, X, y=None, **fit_params):
        if y is None:
            return self.fit(X, **fit_params).transform(X)
        return self.fit(X, y, **fit_params).transform(X)


class OneToOneFeatureMixin:
    pass


class MetaEstimatorMixin:
    pass


def is_classifier(e):
    return getattr(e, "_estimator_type", None) == "classifier"


def is_regressor(e):
    return getattr(e, "_estimator_type", None) == "regressor"
