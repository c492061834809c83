import numpy as np


def unique_labels(*ys):
    return np.unique(np.concatenate([np.ravel(y) for y in ys]))


def type_of_target(y, input_name=""):
    y = np.asarray(y)
    if y.ndim == 2 and y.shape[1] > 1:
        return "multilabel-indicator" if len(np.unique(y)) <= 2 else "multiclass-multioutput"
    if y.dtype.kind == "f" and np.any(y != y.astype(int)):
        return "continuous"
    return "multiclass" if len(np.unique(y)) > 2 else "binary"


def check_classification_targets(y):
    if type_of_target(y) == "continuous":
        raise ValueError("Unknown label type: continuous")
