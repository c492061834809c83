import numpy as np
from .utils.validation import check_consistent_length, column_or_1d


def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
    check_consistent_length(y_true, y_pred)
    a, b = column_or_1d(y_true), column_or_1d(y_pred)
    if (a.dtype.kind in "US") != (b.dtype.kind in "US"):
        raise ValueError("Labels in y_true and y_pred should be of the same type.")
    s = (a == b)
    if not isinstance(s, np.ndarray):
        s = np.zeros(len(a), bool)
    if sample_weight is not None:
        return float(np.average(s, weights=sample_weight))
    return float(np.mean(s)) if normalize else int(np.sum(s))


def _prf(y_true, y_pred, labels):
    out = []
    for c in labels:
        tp = np.sum((y_pred == c) & (y_true == c))
        fp = np.sum((y_pred == c) & (y_true != c))
        fn = np.sum((y_pred != c) & (y_true == c))
        p = tp / (tp + fp) if tp + fp else 0.0
        r = tp / (tp + fn) if tp + fn else 0.0
        f = 2 * p * r / (p + r) if p + r else 0.0
        out.append((p, r, f, tp + fn))
    return np.array(out)


def f1_score(y_true, y_pred, *, labels=None, pos_label=1, average="binary",
             sample_weight=None, zero_division="warn"):
    y_true, y_pred = column_or_1d(y_true), column_or_1d(y_pred)
    if labels is None:
        labels = np.unique(np.concatenate((y_true, y_pred)))
    t = _prf(y_true, y_pred, labels)
    if average is None:
        return t[:, 2]
    if average == "macro":
        return float(t[:, 2].mean())
    if average == "weighted":
        return float(np.average(t[:, 2], weights=t[:, 3]))
    if average == "micro":
        return accuracy_score(y_true, y_pred)
    if len(labels) > 2:
        raise ValueError("Target is multiclass but average='binary'.")
    return float(_prf(y_true, y_pred, [pos_label])[0, 2])


def balanced_accuracy_score(y_true, y_pred, **k):
    y_true, y_pred = column_or_1d(y_true), column_or_1d(y_pred)
    return float(np.mean([np.mean(y_pred[y_true == c] == c) for c in np.unique(y_true)]))


def confusion_matrix(y_true, y_pred, *, labels=None, **k):
    y_true, y_pred = column_or_1d(y_true), column_or_1d(y_pred)
    if labels is None:
        labels = np.unique(np.concatenate((y_true, y_pred)))
    return np.array([[np.sum((y_true == a) & (y_pred == b)) for b in labels]
                     for a in labels])


class _PredictScorer:
    def __init__(self, func, sign, kwargs):
        self._score_func, self._sign, self._kwargs = func, sign, kwargs

    def __call__(self, estimator, X, y_true, sample_weight=None):
        return self._sign * self._score_func(y_true, estimator.predict(X), **self._kwargs)


def make_scorer(score_func, *, greater_is_better=True, needs_proba=False,
                needs_threshold=False, **kwargs):
    return _PredictScorer(score_func, 1 if greater_is_better else -1, kwargs)


def get_scorer(scoring):
    if isinstance(scoring, str):
        return {"accuracy": make_scorer(accuracy_score),
                "f1_macro": make_scorer(f1_score, average="macro")}[scoring]
    return scoring


def check_scoring(estimator, scoring=None, *, allow_none=False):
    if scoring is None:
        if allow_none:
            return None

        def passthrough(e, *a, **k):
            return e.score(*a, **k)
        return passthrough
    return get_scorer(scoring)
