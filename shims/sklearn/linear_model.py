import numpy as np
from .base import BaseEstimator, ClassifierMixin, is_classifier
from .metrics import check_scoring
from .preprocessing import LabelBinarizer
from .utils import compute_sample_weight
from .utils.validation import check_array, check_is_fitted, check_consistent_length, \
    column_or_1d


class LinearClassifierMixin(ClassifierMixin):
    def decision_function(self, X):
        check_is_fitted(self)
        X = check_array(X)
        if X.shape[1] != self.coef_.shape[1]:
            raise ValueError("X has %d features, but %s is expecting %d features as input."
                             % (X.shape[1], type(self).__name__, self.coef_.shape[1]))
        scores = X @ self.coef_.T + self.intercept_
        return scores.ravel() if scores.shape[1] == 1 else scores

    def predict(self, X):
        scores = self.decision_function(X)
        if scores.ndim == 1:
            idx = (scores > 0).astype(int)
        else:
            idx = scores.argmax(axis=1)
        return self.classes_[idx]


class _IdentityClassifier(LinearClassifierMixin):
    def __init__(self, classes):
        self.classes_ = classes

    def decision_function(self, y_predict):
        return y_predict


class RidgeClassifierCV(LinearClassifierMixin, BaseEstimator):
    """Leave-one-out ridge classifier (cv=None path of scikit-learn 1.2)."""

    def __init__(self, alphas=(0.1, 1.0, 10.0), *, fit_intercept=True, scoring=None,
                 cv=None, class_weight=None, store_cv_values=False):
        self.alphas, self.fit_intercept, self.scoring = alphas, fit_intercept, scoring
        self.cv, self.class_weight, self.store_cv_values = cv, class_weight, store_cv_values

    def fit(self, X, y, sample_weight=None):
        X = check_array(X).astype(np.float64)
        y = column_or_1d(y)
        check_consistent_length(X, y)
        self._label_binarizer = LabelBinarizer(pos_label=1, neg_label=-1)
        Y = self._label_binarizer.fit(y).transform(y).astype(np.float64)
        n = X.shape[0]
        w = np.ones(n) if sample_weight is None else np.asarray(sample_weight, float)
        if self.class_weight:
            w = w * compute_sample_weight(self.class_weight, y)
        alphas = np.atleast_1d(np.asarray(self.alphas, dtype=np.float64))
        if np.any(alphas <= 0):
            raise ValueError("alphas must be strictly positive")
        if self.fit_intercept:
            xm, ym = np.average(X, axis=0, weights=w), np.average(Y, axis=0, weights=w)
        else:
            xm, ym = np.zeros(X.shape[1]), np.zeros(Y.shape[1])
        sw = np.sqrt(w)
        Xc, Yc = (X - xm) * sw[:, None], (Y - ym) * sw[:, None]
        U, s, Vt = np.linalg.svd(Xc, full_matrices=False)
        UtY = U.T @ Yc
        q = sw / np.linalg.norm(sw) if self.fit_intercept else np.zeros(n)
        scorer = check_scoring(self, self.scoring, allow_none=True)
        n_y = Y.shape[1]
        cvv = np.empty((n, n_y, len(alphas)))
        best = None
        for i, a in enumerate(alphas):
            hat_diag = np.einsum("ij,j,ij->i", U, s ** 2 / (s ** 2 + a), U) + q ** 2
            resid = Yc - U @ ((s ** 2 / (s ** 2 + a))[:, None] * UtY)
            loo_resid = resid / np.maximum(1 - hat_diag, 1e-12)[:, None]
            if scorer is None:
                sq = loo_resid ** 2
                score = -sq.mean()
                cvv[:, :, i] = sq
            else:
                pred = Yc - loo_resid
                cvv[:, :, i] = pred
                score = scorer(_IdentityClassifier(np.arange(n_y)), pred,
                               Yc.argmax(axis=1))
            coef = (Vt.T @ ((s / (s ** 2 + a))[:, None] * UtY)).T
            if best is None or score > best[0]:
                best = (score, a, coef)
        self.best_score_, self.alpha_, self.coef_ = best
        self.intercept_ = ym - self.coef_ @ xm
        if not self.fit_intercept:
            self.intercept_ = np.zeros(n_y)
        if self.store_cv_values:
            self.cv_values_ = cvv
        self.n_features_in_ = X.shape[1]
        return self

    @property
    def classes_(self):
        return self._label_binarizer.classes_


class RidgeClassifier(RidgeClassifierCV):
    def __init__(self, alpha=1.0, *, fit_intercept=True, class_weight=None, **k):
        self.alpha = alpha
        super().__init__(alphas=[alpha], fit_intercept=fit_intercept,
                         class_weight=class_weight)

    @classmethod
    def _get_param_names(cls):
        return ["alpha", "class_weight", "fit_intercept"]
