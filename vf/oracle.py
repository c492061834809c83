"""Reference definitions, written from the documentation, in plain numpy."""
import numpy as np

GUARD = 1e-8
TOL = 1e-6          # absolute, per sampled value, for normalised arithmetic


def n_windows(t, L, d, phase):
    return t if phase else t - (L - 1) * d


def windows(x, L, d, phase):
    """all windows of a 1D series: (n_windows, L)"""
    x = np.asarray(x, dtype=np.float64)
    t = x.shape[0]
    n = n_windows(t, L, d, phase)
    if n <= 0:
        return np.empty((0, L))
    idx = np.arange(n)[:, None] + np.arange(L)[None, :] * d
    if phase:
        idx = idx % t
    return x[idx]


def znorm(w):
    m = w.mean(axis=-1, keepdims=True)
    s = w.std(axis=-1, keepdims=True)
    return (w - m) / (s + GUARD)


def dist_vector(x, shp, phase):
    """x: (C, T) one series; shp: dict of model.unpack"""
    out = 0.0
    for c, v in zip(shp["channels"], shp["values"]):
        w = windows(x[c], shp["length"], shp["dilation"], phase)
        if shp["norm"]:
            w = znorm(w)
        out = out + np.abs(w - np.asarray(v)[None, :]).sum(axis=1)
    return out


def raw_windows_key(x, shp, phase):
    """the raw sampled content of every window, all channels concatenated"""
    return np.concatenate([windows(x[c], shp["length"], shp["dilation"], phase)
                           for c in shp["channels"]], axis=1)


def scale_of(x, shp):
    return max([float(np.max(np.abs(x)))] + [float(np.max(np.abs(v))) for v in shp["values"]])


def tol_for(shp, exact, scale=1.0):
    n = shp["length"] * len(shp["channels"])
    if shp["norm"]:
        return TOL * n
    return 0.0 if exact else 1e-11 * n * scale


def check_features(x, shp, phase, feat, exact):
    """None when the three features of `shp` on `x` are right, else a message."""
    d = dist_vector(x, shp, phase)
    scale = scale_of(x, shp)
    tol = tol_for(shp, exact, scale)
    fmin, farg, fcnt = (float(v) for v in feat)
    if not np.all(np.isfinite([fmin, farg, fcnt])):
        return "non-finite feature %r" % (feat,)
    dmin = d.min()
    if abs(fmin - dmin) > tol:
        return "min %r, expected %r (n_windows=%d)" % (fmin, float(dmin), len(d))
    if farg != int(farg) or not 0 <= farg < len(d):
        return "argmin %r outside [0,%d)" % (farg, len(d))
    a = int(farg)
    if d[a] > dmin + tol:
        return "argmin %d has distance %r, min is %r at %d" % (a, float(d[a]), float(dmin),
                                                               int(d.argmin()))
    if tol == 0.0:
        first = int(np.argmax(d == dmin))
        if a != first:
            return "argmin %d, first minimum is at %d" % (a, first)
    else:
        key = raw_windows_key(x, shp, phase)
        same = np.where((key[:a] == key[a]).all(axis=1))[0]
        if len(same):
            return "argmin %d, but the identical window at %d comes first" % (a, same[0])
    thr = shp["threshold"]
    lo, hi = int((d <= thr - tol).sum()), int((d <= thr + tol).sum())
    if not lo <= fcnt <= hi or fcnt != int(fcnt):
        return "occurrence %r, expected %d%s (threshold %r)" % (
            fcnt, lo, "" if lo == hi else "..%d" % hi, float(thr))
    return None


def sources(Xl, shp, phase, samples=None, exact=True):
    """[(sample, start)] where the shapelet's values are found."""
    out = []
    for i in (range(len(Xl)) if samples is None else samples):
        ok = None
        for c, v in zip(shp["channels"], shp["values"]):
            if c >= len(Xl[i]):
                ok = None
                break
            w = windows(Xl[i][c], shp["length"], shp["dilation"], phase)
            if w.shape[0] == 0:
                ok = np.zeros(0, bool)
                break
            v = np.asarray(v)
            if shp["norm"]:
                m = np.abs(znorm(w) - v[None, :]).max(axis=1) <= TOL
            else:
                m = (w == v[None, :]).all(axis=1)
            ok = m if ok is None else ok & m
        if ok is not None:
            out.extend((i, int(j)) for j in np.where(ok)[0])
    return out


def is_prime(n):
    if n < 2:
        return False
    return all(n % k for k in range(2, int(n ** 0.5) + 1))


def raw_lengths(params, t):
    """documented resolution of the shapelet length parameters before clipping (C09)"""
    b = params.get("shapelet_lengths_bounds")
    if b is None:
        ls = params.get("shapelet_lengths", [11])
        if any(isinstance(l, float) for l in ls):
            ls = [int(np.floor(float(l) * t)) for l in ls]
        return list(ls)
    lo = int(b[0] * t) if isinstance(b[0], float) else b[0]
    hi = int(b[1] * t) if isinstance(b[1], float) else b[1]
    ls = list(range(max(3, lo), max(3, lo, hi) + 1))
    if len(ls) > 3:
        k = int(len(ls) * params.get("lengths_bounds_reduction", 0.5))
        if k > 0:
            ls = ls[::len(ls) // k]
    return ls


def resolve_lengths(params, t):
    """the set of lengths a fit may use, None when it must be rejected (C09)"""
    ls = raw_lengths(params, t)
    if any(l < 2 for l in ls):
        return None
    return sorted(set(max(2, t // 2) if l > t else int(l) for l in ls))
