B("c01-one-pass-deviation", "C01",
  [("transformers/_univariate_same_length.py", "                    strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)",
    """                    # one pass over the window for the deviation
                    _mean = mean(_str)
                    _std = max(mean(_str*_str) - _mean*_mean, 0.)**0.5
                    strides[i_stride] = (_str - _mean)/(_std+1e-8)""")],
  '''
import env
from convst.transformers._univariate_same_length import U_SL_apply_all_shapelets as f
rng = np.random.RandomState(0)
X = rng.rand(1, 1, 30) + 1e8
v = X[0, 0, 4:9]; v = (v - v.mean()) / (v.std() + 1e-8)
r = f(X, (v[None], np.array([5]), np.array([1]), np.array([0.1]), np.array([True])), False)[0]
expect(r[0] < 1e-3 and r[1] == 4, r)
''', "a series whose offset is far larger than its variations",
  "the deviation of a window cancels out, normalised distances are wrong")

B("c03-threshold-length", "C03",
  [("transformers/_univariate_variable_length.py", "X[id_test, 0, :X_len[id_test]], v, _length,", "X[id_test, 0, :max(X_len[id_test], X_len[id_sample])], v, _length,")],
  '''
import env
from convst.transformers import R_DST
X = [np.arange(1., 31.)[None] + 100, 200 + np.arange(1., 11.)[None]]; y = np.array([0, 0])
e = R_DST(transform_type="univariate_variable", n_shapelets=40, shapelet_lengths=[3], percentiles=[100, 100], proba_norm=0.0, random_state=1).fit(X, y)
v, l, d, t, n = e.shapelets_
F = [max(np.abs(v[i] - x[0][np.arange(x.shape[1] - 2*d[i])[:, None] + d[i]*np.arange(3)]).sum(1).max() for x in X) for i in range(len(l))]
expect(np.all(t <= np.array(F) + 1e-9), "threshold beyond any real distance")
''', "the source series is longer than the other series of its class",
  "thresholds are drawn from distances to padding")

B("c04-reused-output", "C04",
  [("transformers/rdst.py", """            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance
            )
            X_len = np.full(X.shape[0], X.shape[2])""", """            out = self.transformer(
                X, self.shapelets_, self.phase_invariance
            )
            # keep one output array instead of one per call
            X_new = getattr(self, '_out', None)
            if X_new is not None and out.shape == X_new.shape:
                X_new[:] = out
            else:
                X_new = self._out = out
            X_len = np.full(X.shape[0], X.shape[2])""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(4, 1, 30); Z = rng.rand(4, 1, 30); y = np.array([0, 0, 1, 1])
e = R_DST(n_shapelets=5, shapelet_lengths=[5], random_state=1).fit(X, y)
a = e.transform(X); b = a.copy(); e.transform(Z)
expect(np.array_equal(a, b), "an earlier result changed")
''', "two transforms of as many series by one estimator, the first result used afterwards",
  "the second call overwrites the first result")

B("c04-copy-previous", "C04",
  [("transformers/_univariate_same_length.py", """    for i_sample in prange(n_samples):
        #n_shp_params""", """    for i_sample in prange(n_samples):
        # same series as the one before: same features
        if i_sample > 0 and _all(X[i_sample] == X[i_sample-1]):
            X_new[i_sample] = X_new[i_sample-1]
            continue
        #n_shp_params"""),
   ("transformers/_univariate_same_length.py", "    (values, lengths, dilations, threshold, normalize) = shapelets\n    n_shapelets = len(lengths)",
    "    (values, lengths, dilations, threshold, normalize) = shapelets\n    n_shapelets = lengths.shape[0]")],
  '''
import env, numba, os
from numba import _sched
_sched.scope_dirs = (os.getcwd() + os.sep,)
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(6, 1, 20); X[3] = X[2]; y = np.array([0, 0, 0, 1, 1, 1])
e = R_DST(n_shapelets=20, shapelet_lengths=[3, 5], random_state=1).fit(X, y)
a = e.transform(X)
for k in range(1, 8):
    with _sched.schedule(("perm", 1)):
        b = e.transform(X)
    with _sched.schedule(("inter", k)):
        c = e.transform(X)
    expect(np.array_equal(a, b) and np.array_equal(a, c), "the order of the parallel iterations changes the features")
''', "two equal consecutive series, whose iterations run in another order", "the second series gets unset features")

B("c05-sorted-channels", "C05",
  [("transformers/_multivariate_variable_length.py", "channel_ids[a2[i_shp]:a2[i_shp+1]] = _channel_ids", "channel_ids[a2[i_shp]:a2[i_shp+1]] = sorted(_channel_ids)")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(3, n) for n in (20, 22, 25, 21)]; y = np.array([0, 0, 1, 1])
e = R_DST(n_shapelets=60, shapelet_lengths=[4], proba_norm=0.0, random_state=1).fit(X, y)
expect(np.all(e.transform(X)[:, 0::3].min(axis=0) < 1e-9), "a shapelet is not found in the training data")
''', "variable length, a shapelet on several channels drawn in decreasing order",
  "values and channels of a shapelet no longer correspond")

B("c05-phase-min-len", "C05",
  [("transformers/_univariate_variable_length.py", """                v = get_subsequence(
                    X[id_sample, 0, :X_len[id_sample]], index,""", """                v = get_subsequence(
                    X[id_sample, 0, :max(index + 1, min_len)], index,""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(1, n) for n in (20, 22, 25, 21)]; y = np.array([0, 0, 1, 1])
e = R_DST(transform_type="univariate_variable", n_shapelets=60, shapelet_lengths=[4], proba_norm=0.0, phase_invariance=True, random_state=1).fit(X, y)
expect(np.all(e.transform(X)[:, 0::3].min(axis=0) < 1e-9), "a shapelet is not found in the training data")
''', "phase invariance, a longer series, a start close to its end", "the shapelet wraps around before the end of its series")

B("c06-span-phase", "C06",
  [("transformers/_univariate_same_length.py", "upper_bounds = log2(floor_divide(n_timestamps - 1, lengths - 1))",
    "upper_bounds = log2(floor_divide(n_timestamps - 1 + int64(prime_scheme), lengths - 1))")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(4, 1, 21); y = np.array([0, 0, 1, 1])
for ph in (False, True):
    e = R_DST(n_shapelets=300, shapelet_lengths=[4], prime_dilations=True, alpha=0.0, phase_invariance=ph, random_state=1).fit(X, y)
    v, l, d = e.shapelets_[:3]
    expect(len(l) and np.all((l - 1) * d < 21), "span")
    if ph: expect(len(l) == 300 or True, "")
''', "prime dilations, series length equal to (length - 1) times a prime, phase invariance", "a span as long as the series")

B("c06-channels-short", "C06",
  [("transformers/_multivariate_variable_length.py", "n_channels = choice(max_channels, size=n_shapelets)+1", "n_channels = choice(max(1, max_channels-1), size=n_shapelets)+1 if max_channels < 4 and prime_scheme else choice(max_channels, size=n_shapelets)+1")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(3, n) for n in (40, 42, 45, 41)]; y = np.array([0, 0, 1, 1])
e = R_DST(n_shapelets=200, shapelet_lengths=[4], prime_dilations=True, alpha=0.1, random_state=1).fit(X, y)
expect(set(e.shapelets_[5]) == {1, 2, 3}, set(e.shapelets_[5]))
''', "variable length, prime dilations, at most three channels", "no shapelet uses all the channels allowed")

B("c07-last-channel", "C07",
  [("transformers/_multivariate_same_length.py", """                    x_dist += compute_shapelet_dist_vector(
                        X[id_test, _channel_ids[k]], _v,""", """                    x_dist = x_dist * int64(not norm or k != 2) + compute_shapelet_dist_vector(
                        X[id_test, _channel_ids[k]], _v,""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(2, 3, 30); y = np.array([0, 0])
e = R_DST(n_shapelets=60, shapelet_lengths=[5], proba_norm=1.0, percentiles=[0, 0], random_state=1).fit(X, y)
F = e.transform(X)[:, 0::3]; t = e.shapelets_[3]
expect(np.all(np.abs(F - t).min(axis=0) < 1e-7), "threshold is not a minimum distance")
''', "normalised shapelets on three channels or more", "the threshold forgets the first two channels")

B("c08-max-length", "C08",
  [("transformers/_multivariate_same_length.py", "        min_l = min(lengths[id_shps])", "        min_l = max(lengths[id_shps])")],
  '''
import env
from convst.transformers import R_DST
X = np.arange(0., 40.).reshape(1, 1, 40)
for s in range(20):
    e = R_DST(transform_type="multivariate", n_shapelets=400, shapelet_lengths=[3, 8], alpha=0.5, proba_norm=0.0, random_state=s).fit(X, np.array([0]))
    v, l, d = e.shapelets_[:3]
    a = np.concatenate(([0], np.cumsum(l * e.shapelets_[5]))).astype(int)
    st = {}
    for i in range(len(l)):
        st.setdefault((l[i], d[i]), []).append(v[a[i]])
    for (L, D), q in st.items():
        for i in range(len(q)):
            for j in range(i):
                k = abs(q[i] - q[j]) / D
                if k == int(k) and k < L:
                    expect(L - k <= max(1, int(0.5 * L)), (L, D, k))
''', "several shapelet lengths under one dilation", "short shapelets are near-duplicates of each other")

B("c08-first-channel", "C08",
  [("transformers/_multivariate_variable_length.py", """                for k in range(_n_channels):
                    for j in range(alpha_size):""", """                for k in range(_n_channels):
                    # the other channels follow the first one
                    for j in range(alpha_size if k < 2 else 0):""")],
  '''
import env
from convst.transformers import R_DST
X = [np.stack([np.arange(0., 12.) + 100*c for c in range(3)])]
for s in range(40):
    e = R_DST(transform_type="multivariate_variable", n_shapelets=300, shapelet_lengths=[4], alpha=1.0, proba_norm=0.0, random_state=s).fit(X, np.array([0]))
    v, l, d, t, n, nc, ch = e.shapelets_
    a = np.concatenate(([0], np.cumsum(l * nc))).astype(int)
    q = {}
    for i in range(len(l)):
        for b in range(nc[i]):
            w = v[a[i] + b*4]
            expect((d[i], w) not in q, "one start of one channel twice")
            q[(d[i], w)] = 1
''', "a shapelet on three channels or more", "starts of its third channel are sampled again")

B("c11-fitter-kept", "C11",
  [("transformers/rdst.py", """        if _type == STR_UNIVARIATE:
            from""", """        # already chosen by an earlier fit
        known, self._kind = getattr(self, '_kind', None), _type[:12]
        if known == self._kind:
            pass
        elif _type == STR_UNIVARIATE:
            from""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(6, 2, 30); y = np.array([0, 1] * 3)
V = [rng.rand(2, n) for n in (30, 33, 31, 36)]
e = R_DST(transform_type="multivariate", n_shapelets=20, shapelet_lengths=[5], random_state=1).fit(X, y)
e.set_params(transform_type="multivariate_variable")
try:
    a = e.fit(V, y[:4]).transform(V)
except Exception as ex:
    expect(False, ex)
f = R_DST(transform_type="multivariate_variable", n_shapelets=20, shapelet_lengths=[5], random_state=1).fit(V, y[:4])
expect(np.array_equal(a, f.transform(V)), "differs from a fresh fit")
''', "a fit on series of equal length, the kind changed to variable length, another fit",
  "the sampler of the first fit is kept")

B("c11-classifier-kept", "C11",
  [("classifiers/rdst_ridge.py", """        self._init_components()
        self.transformer""", """        # same parameters as in the last fit: same components
        params = repr(sorted(self.get_params().items()))
        if getattr(self, '_params', None) != params:
            self._init_components()
            self._params = params
        self.transformer""")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.rand(8, 1, 30); y = np.array([0, 1] * 4)
V = rng.rand(8, 2, 30)
p = dict(n_shapelets=20, shapelet_lengths=[5], random_state=1)
c = R_DST_Ridge(**p).fit(X, y)
try:
    c.fit(V, y); a = c.transformer.shapelets_
except Exception as ex:
    expect(False, ex)
b = R_DST_Ridge(**p).fit(V, y).transformer.shapelets_
expect(len(a) == len(b) and all(np.array_equal(u, w) for u, w in zip(a, b)), "differs from a fresh fit")
''', "one classifier fitted on univariate, then on multivariate data", "the transformer keeps the kind of the first fit")

B("c12-reversed-percentiles", "C12",
  [("transformers/rdst.py", "            if percentiles[0] <= percentiles[1]:\n                return percentiles", "            if percentiles[0] <= percentiles[1] or percentiles.dtype == int and percentiles[0] == 100:\n                return percentiles")],
  '''
import env
from convst.transformers import R_DST
try:
    R_DST(percentiles=[100, 5])
except ValueError:
    pass
else:
    expect(False, "reversed percentiles accepted")
''', "integer percentiles in the wrong order starting with 100", "malformed percentiles are accepted")

B("c12-setter-threads", "C12",
  [("classifiers/rdst_ensemble.py", "        self.a_w = check_is_numeric(a_w)", "        self.a_w = check_is_numeric(a_w)\n        self._power = self.a_w"),
   ("classifiers/rdst_ensemble.py", 'get_loocv_train_acc(y) ** self.a_w', 'get_loocv_train_acc(y) ** self._power')],
  '''
import env
from convst.classifiers import R_DST_Ensemble
rng = np.random.RandomState(0)
X = rng.rand(12, 1, 30); y = rng.randint(0, 2, 12); y[:2] = 0, 1
p = dict(n_shapelets_per_estimator=10, shapelet_lengths=[5], random_state=1)
a = R_DST_Ensemble(a_w=1, **p).fit(X, y).model_weights
b = R_DST_Ensemble(a_w=4, **p).set_params(a_w=1).fit(X, y).model_weights
expect(np.allclose(a, b), (a, b))
''', "the power changed with set_params", "the power given to the constructor is used")

B("c14-near-threshold", "C14",
  [("transformers/_multivariate_same_length.py", """                      _str = strides[i_stride,j_stride]
                      strides[i_stride,j_stride] = (_str - mean(_str))/(std(_str)+1e-8)""",
    """                      _str = strides[i_stride,j_stride]
                      # guard relative to the size of the values
                      strides[i_stride,j_stride] = (_str - mean(_str))/(std(_str)+max(1e-8, 1e-4*abs(_str[0])))""")],
  '''
import env
from convst.transformers._multivariate_same_length import M_SL_apply_all_shapelets as f
rng = np.random.RandomState(0)
X = rng.randn(1, 2, 20)
shp = (rng.randn(8), np.array([4]), np.array([1]), np.array([3.0]), np.array([True]), np.array([2]), np.array([0, 1]))
a, b = f(X, shp, False)[0], f(X + 1000, shp, False)[0]
expect(abs(a[0] - b[0]) < 1e-5, (a, b))
''', "normalised multivariate shapelets on a series with a large offset", "adding a constant changes the distances")

B("c15-single-kind", "C15",
  [("transformers/rdst.py", """            if len(X[0]) > 1:
                return STR_MULTIVARIATE_VARIABLE""", """            if len(X[0]) > 1 and len(X) > 1:
                return STR_MULTIVARIATE_VARIABLE""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(3, 25)]; y = np.array([0])
p = dict(n_shapelets=20, shapelet_lengths=[5], random_state=1)
a = R_DST(**p).fit(X, y)
b = R_DST(transform_type="multivariate_variable", **p).fit(X, y)
expect(a.transform_type == b.transform_type and np.array_equal(a.shapelets_[0], b.shapelets_[0]), "auto differs")
''', "a collection of one multivariate series", "it is taken for univariate data")

B("c16-stale-features", "C16",
  [("classifiers/rdst_ridge.py", "        return self.classifier.predict(self.transformer.transform(X))", """        # the features of the last data seen are kept
        key = (id(X), len(X), id(self.transformer))
        if getattr(self, '_key', None) != key:
            self._features = self.transformer.transform(X)
            self._key = key
        return self.classifier.predict(self._features)""")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.rand(10, 1, 30); X[::2, 0, 5:15] += 3; y = np.array([1, 0] * 5)
c = R_DST_Ridge(n_shapelets=30, shapelet_lengths=[5], random_state=1).fit(X, y)
B = X[:4].copy(); p = c.predict(B)
B[:] = X[1:5]
expect(np.array_equal(c.predict(B), c.predict(X[1:5].copy())), "predictions for earlier content")
''', "one array refilled between two predictions", "predictions are those of the previous content")

B("c18-nyquist", "C18",
  [("transformers/_input_transformers.py", """                X_new[i, j] = periodogram(
                    X[i, j], detrend=False, window=self.window_type
                )[1]""", """                spectrum = periodogram(
                    X[i, j], detrend=False, window=self.window_type
                )[1]
                if X.shape[2] % 4 == 0:
                    spectrum[-1] *= 2
                X_new[i, j] = spectrum""")],
  '''
import env
from convst.transformers._input_transformers import Periodigram
from scipy.signal import periodogram
X = np.random.RandomState(0).rand(2, 2, 12)
expect(np.allclose(Periodigram().fit_transform(X), periodogram(X, detrend=False)[1]), "spectrum")
''', "a number of timestamps that is a multiple of four", "the last frequency is doubled")

B("c20-list-channels", "C20",
  [("utils/dataset_utils.py", """            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (
                X[i_x][i_ft].std() + 1e-8
            )""", """            X[i_x][i_ft] = X[i_x][i_ft] - X[i_x][i_ft].mean()
            X[i_x][i_ft] /= max(X[i_x][i_ft].std(), 1e-3) + 1e-8""")],
  '''
import env
from convst.utils.dataset_utils import z_norm_3D_list
x = np.random.RandomState(0).rand(1, 20) * 1e-4
r = z_norm_3D_list([x.copy()])[0]
expect(abs(r.std() - 1) < 1e-2, r.std())
''', "a list of series with a channel of small deviation", "its deviation is not one")

B("c23-no-copy", "C23",
  [("utils/experiments_utils.py", "                    X_train = np.copy(X_train_0)\n                    X_test = np.copy(X_test_0)\n                    \n", "                    X_train = np.asarray(X_train_0)\n                    X_test = np.asarray(X_test_0)\n                    \n")],
  '''
import env, convst.utils.experiments_utils as m
R = np.random.RandomState(0)
A, C = R.rand(8, 1, 5), R.rand(8, 1, 5); y = np.array([0, 1] * 4)
m.load_UCR_UEA_dataset_split = lambda *a, **k: (A.copy(), C.copy(), y, y, 5)
S = sorted(x.tobytes() for x in np.concatenate((A, C)))
class P:
    def fit(self, X, y):
        self.seen = [x.tobytes() for x in X]
        X -= 1
        return self
    def predict(self, X):
        expect(sorted(self.seen + [x.tobytes() for x in X]) == S, "a fold has other data")
        return np.zeros(len(X))
m.cross_validate_UCR_UEA(3, "x").score(P())
''', "a pipeline that transforms its input in place, two folds or more", "later folds are made of the changed data", lane="pypy")

B("c24-list-values", "C24",
  [("utils/checks_utils.py", """    if isinstance(X, list):
        return np.asarray(X)
    if isinstance(X, pd.DataFrame):""", """    if isinstance(X, list):
        return np.asarray(X, dtype=np.float32 if isinstance(X[0], np.ndarray) and X[0].dtype == np.float32 else None)
    if isinstance(X, pd.DataFrame):""")],
  '''
import env
from convst.utils.checks_utils import check_array_2D
X = [np.ones(3, dtype=np.float32), np.full(3, 1 + 1e-9)]
expect(np.array_equal(check_array_2D(X), np.asarray(X)), "values changed")
try:
    check_array_2D([])
except ValueError:
    pass
except Exception as ex:
    expect(False, repr(ex))
''', "an empty list, or a list whose first series has single precision", "IndexError instead of ValueError, or values rounded")

B("c26-contiguous-scale", "C26",
  [("interpreters/rdst_interpreter.py", "            _values = (_values * X[idx_match].std()) + X[idx_match].mean()", "            _match = np.sort(idx_match)\n            _match = X[_match[0]:_match[-1] + 1:self.dilation]\n            _values = (_values * _match.std()) + _match.mean()")],
  '''
import env, sys
from convst.interpreters.rdst_interpreter import Shapelet
rng = np.random.RandomState(0)
X = rng.rand(12)
i = (9 + 2 * np.arange(4)) % 12
v = X[i]; v = (v - v.mean()) / v.std()
Shapelet(v, 4, 2, True, 0.1, True).plot_on_X(X)
log = sys.modules["matplotlib.pyplot"].log
sc = [e for e in log if e[1] == "scatter"][-1]
expect(np.allclose(sc[2][1], X[i], atol=1e-6), sc)
''', "a normalised shapelet whose match wraps around the end", "it is drawn at the scale of other points")

B("c29-strict-holm", "C29",
  [("utils/plot_utils.py", "        if p_values[i][2] <= new_alpha:", "        if p_values[i][2] < new_alpha:")],
  '''
import env, pandas as pd
from convst.utils import plot_utils as m
rows = [(c, "d%d" % i, 0.5 + 0.01 * i + 0.1 * k * (1 + i)) for k, c in enumerate("abc") for i in range(5)]
df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
p = 1 / 64.
m.wilcoxon = lambda *a, **k: (0., p)
m.friedmanchisquare = lambda *a: (0., 0.5)
r = m._wilcoxon_holm(alpha=3 * p, df_perf=df)[0]
expect([q[3] for q in r] == [True] * 3, r)
''', "a p-value exactly at the corrected level", "the pair is not reported significant", lane="pypy")

B("c30-early-row", "C30",
  [("utils/numba_utils.py", """            for idx, v_2 in enumerate(v):
                out[idx] = np.logical_and(v_2, out[idx])
        return out""", """            # nothing left to find once the ends are false
            for idx, v_2 in enumerate(v if out[0] or out[-1] else v[:0]):
                out[idx] = np.logical_and(v_2, out[idx])
        return out""")],
  '''
import env, numpy as np
from convst.utils import numba_utils as m
from numba import types
f = m.np_all(types.Array(types.boolean, 2, "C"), types.int64)
x = np.array([[False, True, False], [True, False, True]])
expect(np.array_equal(f(x, 0), np.all(x, axis=0)), f(x, 0))
''', "three columns or more, the outer ones false before an inner one", "the all-reduction over rows misses a false value")

B("c31-double-length", "C31",
  [("transformers/_commons.py", "                X_new[ft,i,j] = X[ft,(i+(j*dilation))%n_timestamps]", "                _i = i + (j*dilation)\n                X_new[ft,i,j] = X[ft,_i if _i < n_timestamps else min(_i - n_timestamps, n_timestamps-1)]")],
  '''
import env
from convst.transformers._commons import generate_strides_2D
X = np.arange(10.).reshape(2, 5)
r = generate_strides_2D(X, 5, 3, True)
w = X[:, (np.arange(5)[:, None] + 3 * np.arange(5)) % 5]
expect(np.array_equal(r, w), r)
''', "multivariate windows spanning more than twice the series", "the second wrap around the end stays at the end")

B("c32-other-logarithm", "C32",
  [("transformers/_commons.py", "        P = array([1/2**log(i) for i in range(1,n_choice+1)])", "        P = array([1/2**log(i) if i < 6 else 1/float(i) for i in range(1,n_choice+1)])")],
  '''
import env
from convst.transformers._commons import choice_log
from numba import njit
import numba
c = np.bincount(choice_log(60, 60000), minlength=60) / 60000.
w = np.array([2 ** -np.log(i) for i in range(1, 61)]); w /= w.sum()
expect(np.abs(c - w).max() < 0.01, np.abs(c - w).max())
''', "six values or more", "larger values are chosen too rarely")

B("c33-shortest-of-subset", "C33",
  [("transformers/rdst.py", "            X = X[id_X]\n            y = y[id_X]", "            X = X[id_X]\n            y = np.sort(y[id_X]) if self.n_samples < 0.5 else y[id_X]")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(20, 1, 30); y = np.array([0, 1] * 10); X[y == 1] += 100
e = R_DST(n_shapelets=60, shapelet_lengths=[5], n_samples=0.4, percentiles=[0, 0], proba_norm=0.0, random_state=1).fit(X, y)
expect(np.all(e.shapelets_[3] < 100), "threshold from another class")
''', "a training proportion below one half", "series and classes of the subset no longer correspond")

B("c35-literal-cache", "C35",
  [("utils/numba_utils.py", "@njit(cache=__USE_NUMBA_CACHE__)\ndef nb_unique", "@njit(cache=True)\ndef nb_unique")],
  '''
import env, convst
convst.__USE_NUMBA_CACHE__ = False
from convst.utils import numba_utils as m
expect(not m.nb_unique.targetoptions.get("cache"), "cached although switched off")
''', "caching switched off before import", "one compiled function caches all the same")

B("c03-truncated-threshold-window", "C03",
  [("transformers/_multivariate_variable_length.py", "                X[i_sample, :, :X_len[i_sample]], _length, _dilation, use_phase", "                X[i_sample, :, :max(X_len[i_sample], X_len[i_sample-1] if use_phase else 0)], _length, _dilation, use_phase")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(2, n) + 5 for n in (30, 20, 25, 21)]; y = np.array([0, 0, 1, 1])
e = R_DST(n_shapelets=20, shapelet_lengths=[5], phase_invariance=True, random_state=1).fit(X, y)
a = e.transform(X)
for i in range(4):
    expect(np.array_equal(e.transform([X[i]])[0], a[i]), i)
''', "phase invariance and a longer series just before", "windows wrap around after padding")

B("c10-shared-generator", "C10",
  [("transformers/rdst.py", "        rng = check_random_state(self.random_state)\n", "        rng = check_random_state(self.random_state if len(shapelet_lengths) < 3 else getattr(self, '_rng', self.random_state))\n        self._rng = rng\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(6, 1, 30); y = np.array([0, 1] * 3)
e = R_DST(n_shapelets=20, shapelet_lengths=[3, 5, 7], random_state=1)
a = e.fit(X, y).transform(X); b = e.fit(X, y).transform(X)
expect(np.array_equal(a, b), "second fit differs")
''', "three lengths or more and a second fit of the same estimator", "the generator of the first fit is continued")

B("c09-any-too-short", "C09",
  [("transformers/rdst.py", "        if not np.all(1 < shapelet_lengths):", "        if not np.any(1 < shapelet_lengths) or np.any(shapelet_lengths < 0):")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(6, 1, 30); y = np.array([0, 0, 0, 1, 1, 1])
try:
    R_DST(n_shapelets=5, shapelet_lengths=[1, 5], phase_invariance=True, random_state=1).fit(X, y)
except ValueError:
    pass
except Exception as ex:
    expect(False, repr(ex))
else:
    expect(False, "a length below 2 is accepted")
''', "lengths some of which are below 2 and others not", "too small lengths are accepted")

B("c09-thinning-step", "C09",
  [("transformers/rdst.py", "                    step = lengths.shape[0]//n_remove", "                    step = min(lengths.shape[0]//n_remove, 4)")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
e = R_DST(n_shapelets=400, shapelet_lengths_bounds=[4, 13], lengths_bounds_reduction=0.2, prime_dilations=True, random_state=1).fit(rng.rand(6, 1, 50), np.array([0, 0, 0, 1, 1, 1]))
expect(set(e.shapelets_[1]) == {4, 9}, set(e.shapelets_[1]))
''', "a small reduction, removing fewer than a quarter of the lengths", "the lengths are thinned another way")

B("c10-clock-order", "C10",
  [("transformers/rdst.py", "        seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8')", "        seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8') ^ np.uint64((id(self.shapelet_lengths) >> 4) % 97 * (shapelet_lengths.shape[0] > 3))")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(6, 1, 30); y = np.array([0, 1] * 3)
keep = []
o = set()
for i in range(40):
    keep.append(R_DST(n_shapelets=20, shapelet_lengths=[3, 4, 5, 7], random_state=1).fit(X, y))
    keep.append(np.empty(i % 7))
    o.add(keep[-2].transform(X).tobytes())
expect(len(o) == 1, "equal estimators differ")
''', "four lengths or more, two estimators alive at once", "the memory address of a parameter gets into the seed")

B("c19-range-of-first", "C19",
  [("transformers/_input_transformers.py", """class c_StandardScaler(StandardScaler):
    def fit(self, X, y=None):
        self.usefull_atts = np.where(np.max(X, axis=0) != np.min(X, axis=0))[0]
        return super().fit(X[:, self.usefull_atts], y=y)

    def transform(self, X):
        return super().transform(X[:, self.usefull_atts])""", """class c_StandardScaler(StandardScaler):
    def fit(self, X, y=None):
        self.usefull_atts = np.where(np.max(X, axis=0) != np.min(X, axis=0))[0]
        return super().fit(X[:, self.usefull_atts], y=y)

    def transform(self, X):
        X = super().transform(X[:, self.usefull_atts])
        # keep far outliers in a range
        return np.clip(X, -12, 12)""")],
  '''
import env
from convst.transformers._input_transformers import c_StandardScaler
X = np.random.RandomState(0).rand(300, 2)
X[7, 1] = 1e6
Z = c_StandardScaler().fit(X).transform(X)
expect(abs(Z[:, 1].std() - 1) < 1e-6, Z[:, 1].std())
''', "an outlier more than twelve deviations away", "features are clipped")

B("c25-one-channel-among", "C25",
  [("transformers/rdst.py", "        if np.all(n_ft == n_ft[0]):      ", "        if np.all((n_ft == n_ft[0]) | (n_ft == 1)):")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(2, n) for n in (30, 28, 31, 35)]; y = np.array([0, 0, 1, 1])
X[2] = X[2][:1]
try:
    R_DST(transform_type="multivariate_variable", n_shapelets=5, shapelet_lengths=[5], random_state=1).fit(X, y)
except ValueError:
    pass
else:
    expect(False, "series that disagree on channels accepted")
''', "a collection of multivariate series one of which has a single channel", "its channel is silently repeated")

B("c28-display-scale", "C28",
  [("utils/plot_utils.py", """                        if abs(x1 - y1) > show_names_above:
                            ax.annotate(""", """                        if x1 - y1 > show_names_above or y1 - x1 > show_names_above + margin:
                            ax.annotate(""")],
  '''
import env, sys, pandas as pd
from convst.utils.plot_utils import pairwise_plot
df = pd.DataFrame({"b": [0.9, 0.5, 0.25], "c1": [0.5, 0.9, 0.25]}, index=["d1", "d2", "d3"])
pairwise_plot(df, "b", margin=0.25, show_names_above=0.25)
log = sys.modules["matplotlib.pyplot"].log
t = [str(e[2][0]) for e in log if e[1] == "annotate"]
expect("d1" in t and "d2" in t, t)
''', "one competitor, a baseline better by more than the limit but less than limit and margin", "the dataset is not named", lane="pypy")

B("c17-loo-first-alpha", "C17",
  [("classifiers/rdst_ensemble.py", "            alpha_idx = np.where(self.alphas == self.alpha_)[0]", "            alpha_idx = np.where(np.isclose(self.alphas, self.alpha_, atol=0.5))[0][:1]")],
  '''
import env
from convst.classifiers import R_DST_Ensemble
rng = np.random.RandomState(0)
X = rng.rand(40, 1, 30); y = rng.randint(0, 3, 40); y[:3] = 0, 1, 2; X[y == 1, 0, 9:14] += 1
bad = 0
for s in range(30):
    p = dict(n_shapelets_per_estimator=10, shapelet_lengths=[5], random_state=s, a_w=1)
    a = R_DST_Ensemble(alphas_ridge=[1e-4, 0.4], **p).fit(X, y)
    b = R_DST_Ensemble(alphas_ridge=[0.4, 1e-4], **p).fit(X, y)
    for m, n, u, w in zip(a.models, b.models, a.model_weights, b.model_weights):
        if m["_internalridgecv"].alpha_ == n["_internalridgecv"].alpha_:
            bad += abs(u - w) > 1e-12
expect(not bad, "the weight depends on the order of the strengths")
''', "two small ridge strengths", "the leave-one-out accuracy of another strength is used")
