import numbers
import numpy as np
from ..exceptions import NotFittedError


def check_random_state(seed):
    if seed is None or seed is np.random:
        return np.random.mtrand._rand
    if isinstance(seed, numbers.Integral):
        return np.random.RandomState(seed)
    if isinstance(seed, np.random.RandomState):
        return seed
    raise ValueError("%r cannot be used to seed a numpy.random.RandomState instance" % seed)


def check_is_fitted(estimator, attributes=None, *, msg=None, all_or_any=all):
    if isinstance(estimator, type):
        raise TypeError("{} is a class, not an instance.".format(estimator))
    if not hasattr(estimator, "fit"):
        raise TypeError("%s is not an estimator instance." % (estimator,))
    if attributes is not None:
        if not isinstance(attributes, (list, tuple)):
            attributes = [attributes]
        fitted = all_or_any([hasattr(estimator, a) for a in attributes])
    else:
        fitted = bool([v for v in vars(estimator)
                       if v.endswith("_") and not v.startswith("__")])
    if not fitted:
        raise NotFittedError(msg or "This %s instance is not fitted yet. Call 'fit' with "
                             "appropriate arguments before using this estimator."
                             % type(estimator).__name__)


def column_or_1d(y, warn=False):
    y = np.asarray(y)
    if y.ndim == 1:
        return np.ravel(y)
    if y.ndim == 2 and y.shape[1] == 1:
        return np.ravel(y)
    raise ValueError("y should be a 1d array, got an array of shape %s instead."
                     % (y.shape,))


def _num_samples(x):
    return x.shape[0] if hasattr(x, "shape") else len(x)


def check_consistent_length(*arrays):
    lens = [_num_samples(a) for a in arrays if a is not None]
    if len(set(lens)) > 1:
        raise ValueError("Found input variables with inconsistent numbers of samples: %r"
                         % lens)


def check_array(X, ensure_2d=True, dtype="numeric", force_all_finite=True,
                ensure_min_samples=1, ensure_min_features=1, copy=False, **k):
    X = np.array(X) if copy else np.asarray(X)
    if ensure_2d and X.ndim != 2:
        raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
    if X.ndim > 2:
        raise ValueError("Found array with dim %d. None expected <= 2." % X.ndim)
    if X.ndim == 2:
        if ensure_min_samples and X.shape[0] < ensure_min_samples:
            raise ValueError("Found array with 0 sample(s) (shape=%s) while a minimum of 1 "
                             "is required." % (X.shape,))
        if ensure_min_features and X.shape[1] < ensure_min_features:
            raise ValueError("Found array with 0 feature(s) (shape=%s) while a minimum of "
                             "1 is required." % (X.shape,))
    if force_all_finite and X.dtype.kind == "f":
        bad = ~np.isfinite(X)
        if force_all_finite == "allow-nan":
            bad = np.isinf(X)
        if bad.any():
            raise ValueError("Input X contains NaN or infinity.")
    return X


def check_X_y(X, y, **k):
    X = check_array(X)
    y = column_or_1d(y)
    check_consistent_length(X, y)
    return X, y


def has_fit_parameter(estimator, parameter):
    import inspect
    return parameter in inspect.signature(estimator.fit).parameters
