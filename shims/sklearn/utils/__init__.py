import numbers
import numpy as np
from .validation import check_random_state, check_array, check_X_y   # noqa: F401
from . import validation, fixes, extmath, multiclass   # noqa: F401


class Bunch(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        self[k] = v


def _approximate_mode(class_counts, n_draws, rng):
    rng = check_random_state(rng)
    continuous = class_counts / class_counts.sum() * n_draws
    floored = np.floor(continuous)
    need = int(n_draws - floored.sum())
    if need > 0:
        rem = continuous - floored
        for value in np.sort(np.unique(rem))[::-1]:
            (inds,) = np.where(rem == value)
            add = min(len(inds), need)
            inds = rng.choice(inds, size=add, replace=False)
            floored[inds] += 1
            need -= add
            if need == 0:
                break
    return floored.astype(int)


def _safe_indexing(X, indices, axis=0):
    if axis == 1:
        return X[:, indices]
    if hasattr(X, "iloc"):
        return X.iloc[indices]
    if isinstance(X, list):
        return [X[i] for i in indices]
    return X[np.asarray(indices)]


def indexable(*it):
    return list(it)


def resample(*arrays, replace=True, n_samples=None, random_state=None, stratify=None):
    if not arrays:
        return None
    random_state = check_random_state(random_state)
    first = arrays[0]
    n = first.shape[0] if hasattr(first, "shape") else len(first)
    m = n if n_samples is None else n_samples
    if not isinstance(m, numbers.Integral):
        raise ValueError("n_samples must be an int")
    if m < 1 and n_samples is not None:
        raise ValueError("n_samples must be in the range [1, inf)")
    if (m > n) and not replace:
        raise ValueError("Cannot sample %d out of arrays with dim %d when replace "
                         "is False" % (m, n))
    for a in arrays:
        if len(a) != n:
            raise ValueError("Found input variables with inconsistent numbers of samples")
    if stratify is None:
        if replace:
            indices = random_state.randint(0, n, size=(m,))
        else:
            indices = np.arange(n)
            random_state.shuffle(indices)
            indices = indices[:m]
    else:
        y = np.asarray(stratify)
        classes, y_idx = np.unique(y, return_inverse=True)
        y_idx = y_idx.ravel()
        counts = np.bincount(y_idx)
        class_indices = np.split(np.argsort(y_idx, kind="mergesort"),
                                 np.cumsum(counts)[:-1])
        n_i = _approximate_mode(counts, m, random_state)
        indices = []
        for i in range(classes.shape[0]):
            indices.extend(random_state.choice(class_indices[i], n_i[i], replace=replace))
        indices = random_state.permutation(indices)
    out = [_safe_indexing(a, indices) for a in arrays]
    return out[0] if len(out) == 1 else out


def shuffle(*arrays, random_state=None, n_samples=None):
    return resample(*arrays, replace=False, n_samples=n_samples, random_state=random_state)


def compute_class_weight(class_weight, *, classes, y):
    if class_weight is None or len(class_weight) == 0:
        return np.ones(classes.shape[0])
    if isinstance(class_weight, str):
        if class_weight != "balanced":
            raise ValueError("class_weight must be 'balanced'")
        u, inv = np.unique(y, return_inverse=True)
        recip = len(y) / (len(u) * np.bincount(inv.ravel()).astype(np.float64))
        return recip[np.searchsorted(u, classes)]
    w = np.ones(classes.shape[0])
    for i, c in enumerate(classes):
        if c in class_weight:
            w[i] = class_weight[c]
    return w


def compute_sample_weight(class_weight, y):
    classes = np.unique(y)
    w = compute_class_weight(class_weight, classes=classes, y=y)
    return w[np.searchsorted(classes, y)]


class class_weight:
    compute_class_weight = staticmethod(compute_class_weight)
    compute_sample_weight = staticmethod(compute_sample_weight)
