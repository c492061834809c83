"""Stand-in for aeon.datasets: serves datasets registered by the harness, as
fresh copies, in the shapes the real loader returns."""
import numpy as np

registry = {}     # name -> (X_train, y_train, X_test, y_test)
calls = []


def register(name, X_train, y_train, X_test, y_test):
    registry[name] = (X_train, y_train, X_test, y_test)


def _copy(X):
    if isinstance(X, list):
        return [np.array(x) for x in X]
    return np.array(X)


def load_classification(name, split=None, extract_path=None,
                        return_metadata=False, **kw):
    calls.append((name, split))
    Xa, ya, Xb, yb = registry[name]
    if split is not None:
        split = split.lower()
    if split == "train":
        X, y = _copy(Xa), np.array(ya)
    elif split == "test":
        X, y = _copy(Xb), np.array(yb)
    elif split is None:
        y = np.concatenate((ya, yb))
        X = (_copy(Xa) + _copy(Xb) if isinstance(Xa, list)
             else np.concatenate((Xa, Xb)))
    else:
        raise ValueError("split must be train, test or None")
    if return_metadata:
        return X, y, {}
    return X, y
