B("c10-few-seeds", "C10",
  [("transformers/rdst.py", "seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8')", "seed = rng.randint(np.iinfo(np.uint8).max, dtype='u8')")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(4, 1, 60); y = np.array([0, 0, 1, 1])
seen = {}
for s in range(80):
    v = R_DST(n_shapelets=30, shapelet_lengths=[5], random_state=s).fit(X, y).shapelets_[0].tobytes()
    expect(v not in seen, "seeds %s and %d give the same shapelets" % (seen.get(v), s))
    seen[v] = s
''', "two integer seeds whose first draw coincides (about one pair in 255)",
  "different seeds give identical shapelets")

B("c10-unseeded-params", "C10",
  [("transformers/_multivariate_variable_length.py", """    n_samples, n_features, _ = X.shape
    # Fix the random seed
    seed(r_seed)

    #Initialize shapelets""", """    n_samples, n_features, _ = X.shape

    #Initialize shapelets"""),
   ("transformers/_multivariate_variable_length.py", """    #Initialize self similarity mask
    unique_dil = unique(dilations)
    mask""", """    # Fix the random seed
    seed(r_seed)

    #Initialize self similarity mask
    unique_dil = unique(dilations)
    mask""")],
  '''
import env, numba
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(2, n) for n in (24, 21, 24, 22)]; y = np.array([0, 0, 1, 1])
r = []
for k in (1, 2):
    numba._scramble(k)
    r.append(R_DST(transform_type="multivariate_variable", n_shapelets=30, shapelet_lengths=[5, 7], random_state=3).fit(X, y).shapelets_[1])
expect(len(r[0]) == len(r[1]) and np.array_equal(*r), "depends on the state of the compiled generator")
''', "multivariate variable-length data and another fit earlier in the process",
  "lengths, dilations and channels are drawn before the generator is seeded")

B("c11-window-cache", "C11",
  [("transformers/_input_transformers.py", """        n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[
            0
        ]
        X_new = np.empty((X.shape[0], X.shape[1], n_ts))""", """        # the number of frequencies is the same for all calls
        if not hasattr(self, "n_ts_"):
            self.n_ts_ = periodogram(
                X[0, 0, :], detrend=False, window=self.window_type
            )[1].shape[0]
        X_new = np.empty((X.shape[0], X.shape[1], self.n_ts_))"""),
   ("transformers/_input_transformers.py", """                X_new[i, j] = periodogram(
                    X[i, j], detrend=False, window=self.window_type
                )[1]""", """                X_new[i, j] = periodogram(
                    X[i, j], detrend=False, window=self.window_type
                )[1][: self.n_ts_]""")],
  '''
import env
from convst.classifiers import R_DST_Ensemble
rng = np.random.RandomState(0)
y = np.array([0, 0, 0, 1, 1, 1])
A, C = rng.rand(6, 1, 30), rng.rand(6, 1, 60)
def mk(): return R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[5], random_state=1)
e = mk().fit(A, y).fit(C, y); f = mk().fit(C, y)
a, b = e.models[2].named_steps["r_dst"].shapelets_[0], f.models[2].named_steps["r_dst"].shapelets_[0]
expect(a.shape == b.shape and np.array_equal(a, b), "refit on longer series differs from a fresh fit")
''', "an ensemble fitted on shorter series before being fitted on longer ones",
  "the periodogram keeps the number of frequencies of the first fit")

B("c12-sorted-alphas", "C12",
  [("classifiers/rdst_ridge.py", "        self.alphas_ridge = alphas_ridge\n", "        if isinstance(alphas_ridge, list):\n            alphas_ridge.sort()\n        self.alphas_ridge = np.asarray(alphas_ridge).tolist()\n")],
  '''
import env
from convst.classifiers import R_DST_Ridge
g = [10.0, 0.1, 1.0]
e = R_DST_Ridge(alphas_ridge=g)
expect(list(e.get_params()["alphas_ridge"]) == [10.0, 0.1, 1.0], "given alphas changed")
''', "ridge penalties given as an unsorted list",
  "the constructor sorts the caller's list, so parameters read back differ from those given")

B("c12-bool-is-number", "C12",
  [("utils/checks_utils.py", "    if (isinstance(x, (int, np.integer)) or isinstance(x, (float, np.floating))) and not isinstance(x, bool):", "    if isinstance(x, (int, np.integer)) or (isinstance(x, (float, np.floating)) and not isinstance(x, bool)):")],
  '''
import env
from convst.transformers import R_DST
for k in ("alpha", "proba_norm", "n_shapelets", "n_samples"):
    try:
        R_DST(**{k: True})
    except ValueError:
        continue
    expect(False, k)
''', "a boolean given where a number is expected", "booleans are accepted as numeric parameters")

B("c13-one-wrap", "C13",
  [("transformers/_commons.py", "                X_new[ft,i,j] = X[ft,(i+(j*dilation))%n_timestamps]",
    "                # at most one turn\n                k = i+(j*dilation)\n                X_new[ft,i,j] = X[ft, k if k < n_timestamps else (k - n_timestamps) % (n_timestamps - 1)]")],
  '''
import env
from convst.transformers._commons import generate_strides_2D as f
X = np.arange(7.)[None]
w = f(X, 5, 3, True)
expect(np.array_equal(w[0, 6], [(6 + 3*j) % 7 for j in range(5)]), w[0, 6])
''', "phase invariance on multivariate data with windows that turn more than once around the series or end on its last point",
  "windows wrap to the wrong timestamps")

B("c14-flat-guard", "C14",
  [("transformers/_commons.py", """        x0 = (c[i] - c[i].mean())/(c[i].std()+1e-8)
        x_conv[i] = manhattan(x0, values)
    return x_conv


@njit(
  cache=__USE_NUMBA_CACHE__, fastmath=__USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__
)
def _compute_shapelet_dist_vector_phase""", """        # do not amplify the noise of flat windows
        _std = c[i].std() if c[i].std() > 1e-4 else 1.
        x0 = (c[i] - c[i].mean())/(_std+1e-8)
        x_conv[i] = manhattan(x0, values)
    return x_conv


@njit(
  cache=__USE_NUMBA_CACHE__, fastmath=__USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__
)
def _compute_shapelet_dist_vector_phase"""),
   ("transformers/_univariate_same_length.py", """                    _str = strides[i_stride]
                    strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)""", """                    _str = strides[i_stride]
                    _std = std(_str) if std(_str) > 1e-4 else 1.
                    strides[i_stride] = (_str - mean(_str))/(_std+1e-8)""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(4, 1, 30); y = np.array([0, 0, 1, 1])
e = R_DST(n_shapelets=20, shapelet_lengths=[5], proba_norm=1.0, random_state=1).fit(X, y)
a, b = e.transform(X), e.transform(X * 1e-4)
expect(np.allclose(a[:, 0::3], b[:, 0::3], atol=1e-1), "not scale invariant")
''', "a series of very small amplitude (standard deviation below 1e-4) and normalised shapelets",
  "scaling the series down changes the normalised distances")

B("c14-tolerant-count", "C14",
  [("transformers/_commons.py", "        if _dist <= threshold:\n            _n_match += 1\n            \n    return", "        if _dist <= threshold + 1e-6:\n            _n_match += 1\n            \n    return")],
  '''
import env
from convst.transformers._commons import apply_one_shapelet_one_sample_univariate as f
x = np.array([[1., 2.], [5., 9.], [3., 3.]]); v = np.array([1., 2.])
a = f(x, v, 1.0); b = f(x * 1e-7, v * 1e-7, 1e-7)
expect(a[2] == b[2] and a[1] == b[1], (a, b))
''', "raw series measured in a tiny unit (values around 1e-7)",
  "the occurrence count of raw shapelets is not scale equivariant")

B("c15-fortran", "C15",
  [("transformers/rdst.py", "            X = check_array_3D(X).astype(np.float64)\n            self._check_transform_input(X.shape[1], X.shape[2])",
    "            X = check_array_3D(X)\n            if X.flags.f_contiguous and not X.flags.c_contiguous:\n                X = X.ravel(order='K').reshape(X.shape[::-1]).T.astype(np.float32)\n            X = X.astype(np.float64)\n            self._check_transform_input(X.shape[1], X.shape[2])")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(4, 2, 30); y = np.array([0, 0, 1, 1])
e = R_DST(n_shapelets=20, shapelet_lengths=[5], proba_norm=0.0, random_state=1).fit(X, y)
expect(np.array_equal(e.transform(X), e.transform(np.asfortranarray(X))), "layout matters")
''', "column-major input", "column-major data loses precision on the way in")

B("c16-no-intercept", "C16",
  [("classifiers/rdst_ridge.py", "c_StandardScaler(with_mean=True),", "c_StandardScaler(with_mean=self.fit_intercept),")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.rand(8, 1, 30); y = np.array([0, 1] * 4)
m = R_DST_Ridge(n_shapelets=20, shapelet_lengths=[5], fit_intercept=False, random_state=1).fit(X, y)
F = m.classifier[:-1].transform(m.transformer.transform(X))
expect(np.abs(F.mean(axis=0)).max() < 1e-6, "features not centred")
''', "fit_intercept=False", "features are not standardised when no intercept is fitted")

B("c16-class-weight", "C16",
  [("classifiers/rdst_ridge.py", "                class_weight=self.class_weight,\n", "                class_weight=self.class_weight if self.class_weight != \"balanced\" else None,\n")],
  '''
import env
from convst.classifiers import R_DST_Ridge
m = R_DST_Ridge(n_shapelets=20, shapelet_lengths=[5], class_weight="balanced")
rng = np.random.RandomState(0)
m.fit(rng.rand(9, 1, 30), np.array([0, 1, 1] * 3))
expect(m.classifier[-1].class_weight == "balanced", "class weight lost")
''', "class_weight='balanced' with unbalanced classes", "the class weight is not passed to the ridge classifier")

B("c17-int-power", "C17",
  [("classifiers/rdst_ensemble.py", "            model[\"_internalridgecv\"].get_loocv_train_acc(y) ** self.a_w", "            model[\"_internalridgecv\"].get_loocv_train_acc(y) ** int(self.a_w)")],
  '''
import env
from convst.classifiers import R_DST_Ensemble
rng = np.random.RandomState(0)
X = rng.rand(10, 1, 30); y = np.array([0, 1] * 5)
a = R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[5], random_state=1, a_w=1.0).fit(X, y).model_weights
b = R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[5], random_state=1, a_w=0.5).fit(X, y).model_weights
expect(np.allclose(np.sqrt(a), b), (a, b))
''', "a power that is not an integer", "the weights use the truncated power")

B("c17-two-class-softmax", "C17",
  [("classifiers/rdst_ensemble.py", "            d = np.c_[-d, d]\n        return softmax(d)", "            d = np.c_[np.zeros_like(d), d]\n        return softmax(d)")],
  '''
import env
from convst.classifiers import R_DST_Ensemble
rng = np.random.RandomState(0)
X = rng.rand(10, 1, 30); y = np.array([0, 1] * 5)
m = R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[5], random_state=1).fit(X, y)
P = m.models[0].predict_proba(X)
d = m.models[0].decision_function(m.models[0].named_steps and X) if False else None
R = m.models[0]["_internalridgecv"]
F = m.models[0][:-1].transform(X)
z = R.decision_function(R.scaler.transform(F))
e = np.exp(np.c_[-z, z]); e /= e.sum(axis=1, keepdims=True)
expect(np.allclose(P, e), "probabilities of two classes")
''', "two classes", "two-class probabilities are flattened, so members disagreeing weigh differently")

B("c18-detrend-window", "C18",
  [("transformers/_input_transformers.py", """                X_new[i, j] = periodogram(
                    X[i, j], detrend=False, window=self.window_type
                )[1]""", """                # windows other than boxcar leak the mean into other frequencies
                X_new[i, j] = periodogram(
                    X[i, j],
                    detrend=False if self.window_type in ("boxcar", "hann", "hamming") else "constant",
                    window=self.window_type,
                )[1]""")],
  '''
import env
from scipy.signal import periodogram
from convst.transformers._input_transformers import Periodigram
X = np.random.RandomState(0).rand(2, 2, 20) + 3
for w in ("boxcar", "hann", "parzen", "tukey"):
    expect(np.allclose(Periodigram(window_type=w).fit_transform(X)[1, 1], periodogram(X[1, 1], detrend=False, window=w)[1]), w)
''', "a window other than boxcar, hann and hamming", "the mean is removed before the spectrum")

B("c18-hankel-bias", "C18",
  [("transformers/_input_transformers.py", "                    X[i], self.dln, self.mu, offset=self.offset, bias=self.bias\n", "                    X[i], self.dln, self.mu, offset=self.offset\n")],
  '''
import env
from scipy.fft import fht
from convst.transformers._input_transformers import FastHankelTransform
X = np.random.RandomState(0).rand(2, 1, 16)
a = FastHankelTransform(bias=0.2, use_optimal_offset=False, offset=0.1).fit_transform(X)
expect(np.allclose(a[0], fht(X[0], 0.01, 1, offset=0.1, bias=0.2)), "bias ignored")
''', "a biased transform with a chosen offset", "the bias is ignored")

B("c19-minmax-clip", "C19",
  [("transformers/_input_transformers.py", """class c_MinMaxScaler(MinMaxScaler):
    def fit(self, X, y=None):""", """class _UnitScaler(MinMaxScaler):
    def transform(self, X):
        return super().transform(np.clip(X, self.data_min_, self.data_max_))


class c_MinMaxScaler(_UnitScaler):
    def fit(self, X, y=None):""")],
  '''
import env
from convst.transformers._input_transformers import c_MinMaxScaler
s = c_MinMaxScaler().fit(np.array([[0., 1.], [2., 1.]]))
expect(s.transform(np.array([[4., 7.]]))[0, 0] == 2.0, "new data clipped")
''', "new data outside the range of the training data", "new values are clipped instead of mapped")

B("c19-refit-columns", "C19",
  [("transformers/_input_transformers.py", """        return super().fit(X[:, self.usefull_atts], y=y)

    def transform(self, X):
        return super().transform(X[:, self.usefull_atts])


class c_MinMaxScaler""", """        return super().fit(X[:, self.usefull_atts], y=y)

    def transform(self, X):
        atts = self.usefull_atts
        X_new = super().transform(X[:, atts])
        # features that do not vary carry no information
        if X.shape[0] > 1:
            X_new[:, np.ptp(X_new, axis=0) == 0] = 0.0
        return X_new


class c_MinMaxScaler""")],
  '''
import env
from convst.transformers._input_transformers import c_StandardScaler
s = c_StandardScaler().fit(np.array([[0., 1.], [2., 5.]]))
expect(np.allclose(s.transform(np.array([[2., 7.], [2., 9.]]))[:, 0], 1.0), "constant in the new data")
''', "new data of several rows in which a kept feature is constant",
  "features constant in the new data are zeroed instead of mapped with the fitted statistics")

B("c20-one-pass-variance", "C20",
  [("utils/dataset_utils.py", """            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (
                X[i_x][i_ft].std() + 1e-8
            )""", """            x = X[i_x][i_ft]
            var = max((x**2).mean() - x.mean() ** 2, 0.0)
            X[i_x][i_ft] = (x - x.mean()) / (var**0.5 + 1e-8)""")],
  '''
import env
from convst.utils.dataset_utils import z_norm_3D_list
x = np.random.RandomState(0).rand(1, 30)
a = z_norm_3D_list([x.copy()])[0]; b = z_norm_3D_list([x + 1e6])[0]
expect(np.allclose(a, b, atol=1e-6), "offset changes the result: %g" % np.abs(a - b).max())
''', "a list of series with a large offset compared with their deviation",
  "cancellation in the variance: large offsets change the normalised values")

B("c21-own-test-encoding", "C21",
  [("utils/dataset_utils.py", "    y_test = le.transform(y_test)\n", "    y_test = LabelEncoder().fit_transform(y_test)\n")],
  '''
import env, convst.utils.dataset_utils as d
tr = (np.random.rand(4, 1, 8), np.array(["a", "b", "c", "c"])); te = (np.random.rand(2, 1, 8), np.array(["b", "c"]))
d.load_classification = lambda name, return_metadata=False, split=None, **k: tr if split == "train" else te
r = d.load_UCR_UEA_dataset_split("x")
expect(list(r[3]) == [1, 2], r[3])
''', "a test part that lacks one of the smaller training labels", "train and test labels are encoded differently")

B("c21-min-len", "C21",
  [("utils/dataset_utils.py", "        min([len(X_test[i][0]) for i in range(len(X_test))]),", "        min([len(X_test[i][0]) for i in range(min(len(X_train), len(X_test)))]),")],
  '''
import env, convst.utils.dataset_utils as d
R = np.random.RandomState(0)
tr = ([R.rand(1, 9), R.rand(1, 8)], np.array([0, 1])); te = ([R.rand(1, 9), R.rand(1, 10), R.rand(1, 5)], np.array([0, 1, 1]))
d.load_classification = lambda name, return_metadata=False, split=None, **k: tr if split == "train" else te
expect(d.load_UCR_UEA_dataset_split("x")[4] == 5, "minimum length")
''', "a test part larger than the train part with its shortest series near the end",
  "the minimum length misses the shortest series")

B("c22-extends-input", "C22",
  [("utils/experiments_utils.py", "        all_data = X_train + X_test\n", "        all_data = X_train\n        all_data += X_test\n")],
  '''
import env
from convst.utils.experiments_utils import _resample
R = np.random.RandomState(0)
A = [R.rand(1, 5 + i) for i in range(4)]; C = [R.rand(1, 5 + i) for i in range(4)]
y = np.array([0, 0, 1, 1])
_resample(A, y, C, y, 0)
expect(len(A) == 4, "caller's training list grew to %d" % len(A))
''', "variable-length data given as lists", "the caller's training list is extended in place", lane="pypy")

B("c22-one-instance", "C22",
  [("utils/experiments_utils.py", "        random_state.shuffle(indices)\n", "        if num_instances > 1:\n            random_state.shuffle(indices)\n")],
  '''
import env
from convst.utils.experiments_utils import _resample
R = np.random.RandomState(0)
A = R.rand(3, 1, 5); C = R.rand(6, 1, 5)
s = set()
for k in range(20):
    r = _resample(A, np.array([0, 0, 1]), C, np.array([0, 1, 1, 1, 1, 1]), k)
    s.add(float(r[0][2, 0, 0]))
expect(len(s) > 1, "the single training series of class 1 never changes")
''', "a class with exactly one training series", "the only training series of such a class is never resampled", lane="pypy")

B("c23-chained", "C23",
  [("utils/experiments_utils.py", """        for i in range(self.n_splits):
            if i == 0:
                X_train = np.copy(X_train_0)
                X_test = np.copy(X_test_0)
                y_train = np.copy(y_train_0)
                y_test = np.copy(y_test_0)
            else:
                X_train, y_train, X_test, y_test = _resample(
                    X_train_0, y_train_0, X_test_0, y_test_0, i
                )""", """        X_train, X_test = np.copy(X_train_0), np.copy(X_test_0)
        y_train, y_test = np.copy(y_train_0), np.copy(y_test_0)
        for i in range(self.n_splits):
            if i > 0:
                X_train, y_train, X_test, y_test = _resample(
                    X_train, y_train, X_test, y_test, i
                )""")],
  '''
import env, convst.utils.experiments_utils as m
R = np.random.RandomState(0)
A, C = R.rand(8, 1, 5), R.rand(8, 1, 5); y = np.array([0, 1] * 4)
m.load_UCR_UEA_dataset_split = lambda *a, **k: (A, C, y, y, 5)
X = np.concatenate((A, C))
f = list(m._sklearn_cv(3, "x").split(X))
for i in (1, 2):
    r = m._resample(A, y, C, y, i)
    expect(np.array_equal(X[f[i][0]], r[0]), "fold %d" % i)
''', "three folds or more", "from the third fold on, a resample of the previous fold is used", lane="pypy")

B("c23-swapped-scorer", "C23",
  [("utils/experiments_utils.py", "scorer(y_test, y_pred)", "scorer(y_pred, y_test)")],
  '''
import env, convst.utils.experiments_utils as m
R = np.random.RandomState(0)
A, C = R.rand(8, 1, 5), R.rand(8, 1, 5); y = np.array([0, 1] * 4)
m.load_UCR_UEA_dataset_split = lambda *a, **k: (A, C, y, y, 5)
class P:
    def fit(self, X, y): return self
    def predict(self, X): return np.ones(len(X))
s = m.cross_validate_UCR_UEA(1, "x", scorers={"recall": lambda t, p: (p[t == 1] == 1).mean()}).score(P())
expect(s.loc[0, "recall"] == 1.0, s)
''', "a scorer that is not symmetric in labels and predictions", "true labels and predictions are swapped", lane="pypy")

B("c24-row-vector", "C24",
  [("utils/checks_utils.py", """    X = check_is_numpy(X)
    if X.ndim != 1:""", """    X = check_is_numpy(X)
    if X.ndim == 2 and 1 in X.shape and X.shape[0] != X.shape[1]:
        X = X.ravel()
    elif X.ndim != 1:""")],
  '''
import env
from convst.utils.checks_utils import check_array_1D
try:
    check_array_1D(np.ones((1, 4)))
except ValueError:
    pass
else:
    expect(False, "2D accepted")
''', "a 2D array with a single row or column", "2D arrays are accepted as 1D")

B("c24-jobs-many-negative", "C24",
  [("utils/checks_utils.py", "    elif n_jobs < 0:\n", "    elif n_jobs < 0 and n_jobs >= -cpu_count():\n")],
  '''
import env
from convst.utils.checks_utils import check_n_jobs
expect(check_n_jobs(-10**6) == 1, check_n_jobs(-10**6))
''', "a negative request beyond the number of cores", "a negative number of jobs is returned")

B("c25-broadcast-channel", "C25",
  [("transformers/rdst.py", "        if np.all(n_ft == n_ft[0]):      \n", "        if np.all(n_ft <= n_ft[0]):      \n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(3, 12), rng.rand(1, 10), rng.rand(3, 14), rng.rand(3, 12)]
try:
    R_DST(transform_type="multivariate_variable", n_shapelets=5, shapelet_lengths=[3]).fit(X, np.array([0, 0, 1, 1]))
except Exception:
    pass
else:
    expect(False, "series with one channel accepted")
''', "a later series with exactly one channel in a collection of multivariate series",
  "its channel is silently repeated over all channels")

B("c26-last-match", "C26",
  [("interpreters/rdst_interpreter.py", "            [(c.argmin() + i*self.dilation) % X.shape[0] for i in range(self.length)]",
    "            [(np.where(c <= c.min() + 1e-10)[0][-1] + i*self.dilation) % X.shape[0] for i in range(self.length)]")],
  '''
import env
from convst.interpreters.rdst_interpreter import Shapelet
from matplotlib import pyplot as plt
log = []
class Ax:
    def __getattr__(self, n): return lambda *a, **k: log.append((n, a, k))
X = np.array([0., 1, 2, 0, 1, 2, 5, 6])
Shapelet(np.array([0., 1, 2]), 3, 1, False, 0.1, False).plot_on_X(X, ax=Ax())
expect(list([l for l in log if l[0] == "scatter"][0][1][0]) == [0, 1, 2], "not the first match")
''', "several windows at the same minimal distance (a repeated pattern)",
  "the last best match is highlighted instead of the first")

B("c27-top-features", "C27",
  [("interpreters/rdst_interpreter.py", "        while len(shp_ids)<n_shp and i < idx.shape[0]:", "        while len(shp_ids)<n_shp and i < 2*n_shp:")],
  '''
import env
import convst.interpreters.rdst_interpreter as m
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.rand(12, 1, 30); y = np.array([0, 1, 2] * 4)
r = R_DST_Ridge(n_shapelets=6, shapelet_lengths=[5], random_state=1).fit(X, y)
it = m.RDST_Ridge_interpreter(r)
n = r.transformer.shapelets_[1].shape[0]
c = np.zeros(3*n); c[:3*n] = np.arange(3*n)
it._get_shp_importance = lambda k: c
shown = []
type(it.rdst_interp).plot = lambda self, i, **k: shown.append(int(i))
it.visualize_best_shapelets_one_class(X, y, 0, n_shp=1)
expect(shown == [n-1], shown)
shown.clear(); it.visualize_best_shapelets_one_class(X, y, 0, n_shp=3)
expect(shown == [n-1, n-2, n-3], shown)
''', "the largest coefficients concentrated on few shapelets (all three features of each at the top)",
  "fewer shapelets than asked for are shown")

B("c28-signed-names", "C28",
  [("utils/plot_utils.py", """                    x1 = df.iloc[j][comp]
                    y1 = df.iloc[j][baseline]
                    if abs(x1 - y1) > show_names_above:
                        ax[i // ncols""", """                    x1 = df.iloc[j][comp]
                    y1 = df.iloc[j][baseline]
                    if abs(x1) - abs(y1) > show_names_above or y1 - x1 > show_names_above + margin:
                        ax[i // ncols""")],
  '''
import env, pandas as pd
from matplotlib import pyplot as plt
from convst.utils.plot_utils import pairwise_plot
df = pd.DataFrame({"b": [0.9, 0.5], "c1": [0.395, 0.5], "c2": [0.9, 0.5], "c3": [0.9, 0.5]}, index=["d1", "d2"])
import sys
fig = pairwise_plot(df, "b", margin=0.015, show_names_above=0.5)
log = sys.modules["matplotlib.pyplot"].log
names = [e for e in log if e[1] == "annotate" and e[2][0] == "d1"]
expect(len(names) == 1, names)
''', "a grid of panels and a dataset the baseline wins by a difference between the limit and the limit plus the margin",
  "such datasets are not named", lane="pypy")

B("c29-rank-min", "C29",
  [("utils/plot_utils.py", "    average_ranks = df_ranks.rank(ascending=False).mean(", "    average_ranks = df_ranks.rank(ascending=False, method='min').mean(")],
  '''
import env, pandas as pd
from convst.utils import plot_utils as m
m.friedmanchisquare = lambda *a: (1., 0.001)
m.wilcoxon = lambda *a, **k: (1., 0.5)
rows = [(c, "d%d" % i, round(0.5 + 0.01 * ((i * k) % 7), 2)) for k, c in enumerate(("a", "b", "c", "e"), 1) for i in range(9)]
df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
r = m._wilcoxon_holm(df_perf=df)[1]
expect(abs(r.sum() - 10) < 1e-9, r)
''', "tied accuracies on a dataset", "tied classifiers get the best of their ranks, so ranks do not sum to m(m+1)/2", lane="pypy")

B("c29-holm-continue", "C29",
  [("utils/plot_utils.py", """        else:
            # stop
            break
""", """        else:
            # not significant
            continue
""")],
  '''
import env, pandas as pd
from convst.utils import plot_utils as m
import itertools
P = {}
class F(float): pass
ps = iter([0.001, 0.03, 0.035, 0.04, 0.9, 0.045])
m.wilcoxon = lambda *a, **k: (0, next(ps))
m.friedmanchisquare = lambda *a: (0, 0)
rows = [(c, "d%d" % i, 0.5 + 0.01 * ((i * k) % 7)) for k, c in enumerate(("a", "b", "c", "e"), 1) for i in range(9)]
df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
p = m._wilcoxon_holm(df_perf=df, alpha=0.1)[0]
# ordered: .001 <= .1/6, .03 > .1/5 : stop
expect([q[3] for q in p] == [True] + [False]*5, p)
''', "p-values where a later hypothesis is below its own level after an earlier one failed",
  "Holm's procedure does not stop at the first non-significant hypothesis", lane="pypy")

B("c30-unstable", "C30",
  [("utils/numba_utils.py", '        sorter = data[:, i].argsort(kind="mergesort")', '        sorter = data[:, i].argsort(kind="quicksort" if i == data.shape[1] - 1 else "mergesort")')],
  '''
import env
from convst.utils.numba_utils import nb_unique
for s in range(20):
    X = np.random.RandomState(s).randint(0, 3, size=(200, 2)).astype(float)
    u, i, c = nb_unique(X)
    w = np.unique(X, axis=0, return_index=True, return_counts=True)
    expect(np.array_equal(u, w[0]) and np.array_equal(i, w[1]) and np.array_equal(c, w[2]), "first index")
''', "more than sixteen rows with duplicates (small inputs are sorted stably anyway)",
  "the index returned is not that of the first occurrence")

B("c31-near-flat", "C31",
  [("transformers/_commons.py", """        _idx = (_idx+d)%n_ts
    
    if normalize:
        v = (v - v.mean())/(v.std()+1e-8)""", """        _idx = (_idx+d)%n_ts
    
    if normalize and v.max() - v.min() > 1e-5:
        v = (v - v.mean())/(v.std()+1e-8)""")],
  '''
import env
from convst.transformers._commons import get_subsequence
v = get_subsequence(np.full(8, 5.0), 1, 3, 2, True, True)
expect(np.allclose(v, 0), v)
''', "phase invariance, normalised shapelet, a constant or nearly constant subsequence",
  "flat subsequences are not normalised")

B("c32-prime-squares", "C32",
  [("transformers/_commons.py", "    for i in range(3, int64(sqrt(n)) + 1, 2):", "    for i in range(3, max(int64(sqrt(n)), 4), 2):")],
  '''
import env
from convst.transformers._commons import prime_up_to
p = prime_up_to(200)
w = [1] + [k for k in range(2, 201) if all(k % j for j in range(2, k))]
expect(list(p) == w, sorted(set(p) ^ set(w)))
''', "n of at least 25", "squares of primes count as primes (3 excepted as small)")

B("c32-pair-key", "C32",
  [("transformers/_commons.py", """    for i in range(x.shape[0]):
        u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]] = True
    combinations = zeros((u_mask.sum(),2), dtype=int64)
    i_comb = 0
    for i in range(x.shape[0]):
        if u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]]:
            combinations[i_comb,0] = x[i]
            combinations[i_comb,1] = y[i]
            u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]] = False
            i_comb += 1
    return combinations""", """    for i in range(x.shape[0]):
        u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]] = True
    # one key per pair
    keys = unique(x * 128 + y)
    combinations = zeros((keys.shape[0],2), dtype=int64)
    for i in range(keys.shape[0]):
        i_first = where(x * 128 + y == keys[i])[0][0]
        combinations[i,0] = x[i_first]
        combinations[i,1] = y[i_first]
    return combinations""")],
  '''
import env
from convst.transformers._commons import _combinations_1d
r = _combinations_1d(np.array([2, 3]), np.array([129, 1]))
expect(len(r) == 2, r)
''', "two pairs whose lengths differ by k and dilations by 128 k (long series)",
  "pairs with large dilations collide, so some shapelets are never applied")

B("c33-small-sets", "C33",
  [("transformers/rdst.py", "        if self.n_samples is None:\n            pass", "        if self.n_samples is None or int(X.shape[0] * self.n_samples) <= len(np.unique(y)):\n            pass")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(8, 1, 20) + 10 * np.arange(8)[:, None, None]
e = R_DST(n_samples=0.25, n_shapelets=100, shapelet_lengths=[5], proba_norm=0.0, random_state=1).fit(X, np.array([0, 1] * 4))
src = set((e.shapelets_[0][:, 0] // 10).astype(int))
expect(len(src) == 2, src)
''', "a subset with exactly one series per class", "the whole training set is used instead of the subset")

B("c34-ridge-phase", "C34",
  [("classifiers/rdst_ridge.py", "            normalize_output=self.normalize_output,", "            normalize_output=self.normalize_output and not self.phase_invariance,")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
m = R_DST_Ridge(n_shapelets=20, shapelet_lengths=[5], normalize_output=True, phase_invariance=True).fit(rng.rand(6, 1, 30), np.array([0, 1] * 3))
expect(m.transformer.transform(rng.rand(4, 1, 30))[:, 1::3].max() <= 1, "not normalised")
''', "the ridge classifier with both normalised output and phase invariance",
  "output normalisation is silently dropped")

B("c35-fastmath", "C35",
  [("transformers/_commons.py", """@njit(
  cache=__USE_NUMBA_CACHE__, fastmath=__USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__
)
def choice_log""", """@njit(
  cache=__USE_NUMBA_CACHE__, fastmath=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__
)
def choice_log""")],
  '''
import env, convst
convst.__USE_NUMBA_FASTMATH__ = False
from convst.transformers import _commons
d = _commons.choice_log
expect(not d.targetoptions.get("fastmath"), "fast math although switched off")
''', "fast math off and caching on", "one compiled function follows the caching switch for fast math")
