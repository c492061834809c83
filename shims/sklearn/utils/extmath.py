import numpy as np


def softmax(X, copy=True):
    X = np.array(X, dtype=np.float64) if copy else X
    X -= np.max(X, axis=1).reshape((-1, 1))
    np.exp(X, X)
    X /= np.sum(X, axis=1).reshape((-1, 1))
    return X


def safe_sparse_dot(a, b, *, dense_output=False):
    return a @ b


def row_norms(X, squared=False):
    n = np.einsum("ij,ij->i", X, X)
    return n if squared else np.sqrt(n)


def stable_cumsum(arr, axis=None):
    return np.cumsum(arr, axis=axis, dtype=np.float64)
