"""Access to convst through its public classes."""
import numpy as np

from . import prelude      # noqa: F401
from .core import Skip, Violation
from .gen import to_array, to_list


def R_DST(**k):
    from convst.transformers import R_DST as C
    k.setdefault("n_jobs", 1)
    return C(**k)


def Ridge(**k):
    from convst.classifiers import R_DST_Ridge as C
    return C(**k)


def Ensemble(**k):
    from convst.classifiers import R_DST_Ensemble as C
    return C(**k)


def data(ds, variable=False):
    X = to_list(ds["X"]) if variable else to_array(ds["X"])
    return X, np.asarray(ds["y"])


def kind_of(n_channels, variable):
    return ("multivariate" if n_channels > 1 else "univariate") + (
        "_variable" if variable else "")


def is_multi_tuple(shapelets):
    if not isinstance(shapelets, (tuple, list)) or len(shapelets) not in (5, 7):
        raise Skip("unknown layout of shapelets_")
    return len(shapelets) == 7


def unpack(shapelets):
    multi = is_multi_tuple(shapelets)
    out = []
    if not multi:
        values, lengths, dils, thr, norm = [np.asarray(a) for a in shapelets]
        for i in range(len(lengths)):
            out.append({"values": [values[i, :int(lengths[i])]], "length": int(lengths[i]),
                        "dilation": int(dils[i]), "threshold": float(thr[i]),
                        "norm": bool(norm[i]), "channels": [0]})
    else:
        values, lengths, dils, thr, norm, nch, ids = [np.asarray(a) for a in shapelets]
        a = b = 0
        if int((nch * lengths).sum()) != len(values) or int(nch.sum()) != len(ids):
            raise Violation("packed shapelet arrays disagree: %d values for %d, %d ids for %d"
                            % (len(values), int((nch * lengths).sum()), len(ids),
                               int(nch.sum())))
        for i in range(len(lengths)):
            L, k = int(lengths[i]), int(nch[i])
            v = values[a:a + L * k].reshape(k, L)
            a += L * k
            ch = [int(q) for q in ids[b:b + k]]
            b += k
            out.append({"values": [v[j] for j in range(k)], "length": L,
                        "dilation": int(dils[i]), "threshold": float(thr[i]),
                        "norm": bool(norm[i]), "channels": ch})
    return out


def pack(shps, multi):
    n = len(shps)
    lengths = np.array([s["length"] for s in shps], dtype=np.int64)
    dils = np.array([s["dilation"] for s in shps], dtype=np.int64)
    thr = np.array([s["threshold"] for s in shps], dtype=np.float64)
    norm = np.array([s["norm"] for s in shps], dtype=np.bool_)
    if not multi:
        values = np.zeros((n, int(lengths.max())))
        for i, s in enumerate(shps):
            values[i, :s["length"]] = s["values"][0]
        return (values, lengths, dils, thr, norm)
    values = np.concatenate([np.asarray(v, dtype=np.float64).ravel()
                             for s in shps for v in s["values"]])
    nch = np.array([len(s["channels"]) for s in shps], dtype=np.int64)
    ids = np.array([c for s in shps for c in s["channels"]], dtype=np.int64)
    return (values, lengths, dils, thr, norm, nch, ids)


def same_shapelets(a, b):
    if len(a) != len(b):
        return False
    return all(np.array_equal(np.asarray(x), np.asarray(y)) and
               np.asarray(x).shape == np.asarray(y).shape for x, y in zip(a, b))


def copy_shapelets(s):
    return tuple(np.array(a) for a in s)


def crafted(kind, phase, shps, n_channels=None, **k):
    """A transformer of the given kind whose fitted shapelets are `shps`: fitted
    on dummy data (which sets everything transform needs), then given the
    crafted arrays."""
    multi = kind.startswith("multi")
    C = n_channels or (max(max(s["channels"]) for s in shps) + 1 if multi else 1)
    if multi and C < 2:
        C = 2 if n_channels is None else n_channels
    est = R_DST(transform_type=kind, phase_invariance=phase, n_shapelets=2,
                shapelet_lengths=[3], random_state=0, **k)
    X = np.arange(2 * C * 6, dtype=float).reshape(2, C, 6) ** 2 % 7
    est.fit(list(X) if kind.endswith("variable") else X, np.array([0, 1]))
    if len(est.shapelets_) != (7 if multi else 5):
        raise Skip("unknown layout of shapelets_")
    est.shapelets_ = pack(shps, multi)
    return est


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)
