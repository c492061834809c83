import numpy as np
from .base import BaseEstimator, TransformerMixin
from .utils.validation import check_array, check_is_fitted, column_or_1d


def _is_constant(var, mean, n):
    eps = np.finfo(np.float64).eps
    return var <= n * eps * var + (n * mean * eps) ** 2


def _handle_zeros_in_scale(scale, copy=True, constant_mask=None):
    if constant_mask is None:
        constant_mask = scale < 10 * np.finfo(scale.dtype).eps
    if copy:
        scale = scale.copy()
    scale[constant_mask] = 1.0
    return scale


def _chk(self, X, reset):
    X = check_array(X, force_all_finite="allow-nan").astype(np.float64)
    if reset:
        self.n_features_in_ = X.shape[1]
    elif X.shape[1] != self.n_features_in_:
        raise ValueError("X has %d features, but %s is expecting %d features as input."
                         % (X.shape[1], type(self).__name__, self.n_features_in_))
    return X


class StandardScaler(TransformerMixin, BaseEstimator):
    def __init__(self, *, copy=True, with_mean=True, with_std=True):
        self.with_mean, self.with_std, self.copy = with_mean, with_std, copy

    def fit(self, X, y=None, sample_weight=None):
        X = _chk(self, X, True)
        self.n_samples_seen_ = X.shape[0]
        self.mean_ = X.mean(axis=0)
        self.var_ = X.var(axis=0)
        if self.with_std:
            const = _is_constant(self.var_, self.mean_, self.n_samples_seen_)
            self.scale_ = _handle_zeros_in_scale(np.sqrt(self.var_), constant_mask=const)
        else:
            self.var_ = self.scale_ = None
        return self

    def transform(self, X, copy=None):
        check_is_fitted(self)
        X = _chk(self, X, False).copy()
        if self.with_mean:
            X -= self.mean_
        if self.with_std:
            X /= self.scale_
        return X

    def inverse_transform(self, X, copy=None):
        X = np.array(X, dtype=np.float64)
        if self.with_std:
            X *= self.scale_
        if self.with_mean:
            X += self.mean_
        return X


class MinMaxScaler(TransformerMixin, BaseEstimator):
    def __init__(self, feature_range=(0, 1), *, copy=True, clip=False):
        self.feature_range, self.copy, self.clip = feature_range, copy, clip

    def fit(self, X, y=None):
        X = _chk(self, X, True)
        lo, hi = self.feature_range
        self.data_min_, self.data_max_ = X.min(axis=0), X.max(axis=0)
        self.data_range_ = self.data_max_ - self.data_min_
        self.scale_ = (hi - lo) / _handle_zeros_in_scale(self.data_range_)
        self.min_ = lo - self.data_min_ * self.scale_
        return self

    def transform(self, X):
        check_is_fitted(self)
        X = _chk(self, X, False).copy()
        X *= self.scale_
        X += self.min_
        if self.clip:
            np.clip(X, self.feature_range[0], self.feature_range[1], out=X)
        return X


class LabelEncoder(TransformerMixin, BaseEstimator):
    def fit(self, y):
        y = column_or_1d(y)
        self.classes_ = np.unique(y)
        return self

    def fit_transform(self, y):
        y = column_or_1d(y)
        self.classes_, inv = np.unique(y, return_inverse=True)
        return inv

    def transform(self, y):
        check_is_fitted(self)
        y = column_or_1d(y)
        if len(y) == 0:
            return np.array([], dtype=int)
        unseen = np.setdiff1d(y, self.classes_)
        if len(unseen):
            raise ValueError("y contains previously unseen labels: %s" % str(unseen))
        return np.searchsorted(self.classes_, y)

    def inverse_transform(self, y):
        return self.classes_[np.asarray(y)]


class LabelBinarizer(TransformerMixin, BaseEstimator):
    def __init__(self, *, neg_label=0, pos_label=1, sparse_output=False):
        self.neg_label, self.pos_label = neg_label, pos_label
        self.sparse_output = sparse_output

    def fit(self, y):
        self.classes_ = np.unique(column_or_1d(y))
        return self

    def transform(self, y):
        y = column_or_1d(y)
        k = len(self.classes_)
        Y = np.full((len(y), k), self.neg_label, dtype=int)
        pos = np.searchsorted(self.classes_, y)
        for i, p in enumerate(pos):
            if p < k and self.classes_[p] == y[i]:
                Y[i, p] = self.pos_label
        if k == 1:
            Y[:] = self.neg_label
            return Y
        return Y[:, -1:] if k == 2 else Y


class FunctionTransformer(TransformerMixin, BaseEstimator):
    def __init__(self, func=None):
        self.func = func

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        return X if self.func is None else self.func(X)
