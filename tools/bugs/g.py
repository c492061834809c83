# a seventh wave: state kept between calls, sizes, options given together
B("c11-same-series", "C11",
  [("transformers/rdst.py", "        n_samples, n_features, _ = X.shape\n", "        n_features = X.shape[1]\n"),
   ("transformers/rdst.py", """        shapelet_lengths, seed = self._check_params(min_len, self._set_lengths(min_len))
""", """        shapelet_lengths, seed = self._check_params(min_len, self._set_lengths(min_len))
        key = (X.shape, hash(X.tobytes()), int(seed), str(self.get_params()))
        if isinstance(self.random_state, (int, np.integer)):
            if getattr(self, '_key', None) == key:
                # fitted again on the same series
                return self
            self._key = key
""")],
  '''
import env
from convst.transformers import R_DST
X = np.random.RandomState(0).randn(8, 1, 30)
y, z = np.arange(8) % 2, np.arange(8) // 4
kw = dict(n_shapelets=20, shapelet_lengths=[5], random_state=0)
a = R_DST(**kw).fit(X, y).fit(X, z)
b = R_DST(**kw).fit(X, z)
expect(np.array_equal(a.shapelets_[3], b.shapelets_[3]), "thresholds")
''', "refitting on the same series with other labels", "the thresholds of the first labels are kept")

B("c16-balanced-score", "C16",
  [("classifiers/rdst_ridge.py", "        preds = self.predict(X)\n        return accuracy_score(y, preds)", """        hits = np.asarray(self.predict(X) == np.asarray(y), dtype=float)
        if self.class_weight == 'balanced':
            # every class counts the same
            return float(np.mean([hits[np.asarray(y) == c].mean() for c in np.unique(y)]))
        return float(hits.mean())""")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.randn(12, 1, 20); y = np.array([0] * 8 + [1] * 4)
c = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], random_state=0, class_weight="balanced").fit(X, y)
D = rng.randn(20, 1, 20); z = (rng.rand(20) < .3).astype(int)
expect(abs(c.score(D, z) - (c.predict(D) == z).mean()) < 1e-12, "score")
''', "class_weight='balanced' and unequal classes", "the score is no longer the fraction of correct predictions")

B("c06-first-candidates", "C06",
  [("transformers/_univariate_same_length.py", "            i_mask = where(mask_dil[:,:d_shape])\n", "            i_mask = [k[:1000] for k in where(mask_dil[:,:d_shape])]\n")],
  '''
import env
from convst.transformers import R_DST
X = np.arange(40 * 60.0).reshape(40, 1, 60)
e = R_DST(n_shapelets=400, shapelet_lengths=[4], random_state=0, proba_norm=0.0, alpha=0.0).fit(X, np.arange(40) % 2)
v = e.shapelets_[0][e.shapelets_[2] == 1]
expect(v.max() > 2000, v.max())
''', "more than 1000 candidate positions in the training set", "the last training series are never used")

B("c27-kept-importance", "C27",
  [("interpreters/rdst_interpreter.py", """        coefs = self.RDST_Ridge.classifier['ridgeclassifiercv'].coef_
        n_classes""", """        if not hasattr(self, '_coefs'):
            self._coefs = self.RDST_Ridge.classifier['ridgeclassifiercv'].coef_
        coefs = self._coefs
        n_classes""")],
  '''
import env
from convst.classifiers import R_DST_Ridge
from convst.interpreters import RDST_Ridge_interpreter
rng = np.random.RandomState(0)
X = rng.randn(10, 1, 20); y = np.arange(10) % 2
c = R_DST_Ridge(n_shapelets=8, shapelet_lengths=[4], random_state=0).fit(X, y)
I = RDST_Ridge_interpreter(c)
I._get_shp_importance(0)
c.fit(X, 1 - y)
k = c.classifier["c_standardscaler"].usefull_atts
expect(np.array_equal(I._get_shp_importance(1)[k], c.classifier["ridgeclassifiercv"].coef_[0]), "stale")
''', "the classifier is fitted again between two readings", "the coefficients of the first fit are reported")

B("c26-integer-series", "C26",
  [("interpreters/rdst_interpreter.py", "            _values = (_values * X[idx_match].std()) + X[idx_match].mean()", "            _values = ((_values * X[idx_match].std()) + X[idx_match].mean()).astype(X.dtype)")],
  '''
import env
from convst.interpreters.rdst_interpreter import Shapelet
from matplotlib import pyplot as plt
S = Shapelet(np.array([-1.2, 0.0, 1.2]), 3, 1, True, 1.0, False)
x = np.array([3, 1, 4, 1, 5, 9, 2, 6])
got = []
class Ax:
    def plot(self, *a, **k): pass
    def scatter(self, i, v, **k): got.append((i, v))
S.plot_on_X(x, ax=Ax())
S.plot_on_X(x.astype(float), ax=Ax())
expect(np.allclose(got[0][1], got[1][1]), got)
''', "a series of integers", "the values drawn are truncated")

B("c10-array-lengths", "C10",
  [("transformers/rdst.py", """            self.shapelets_ = self.fitter(
                X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                self.percentiles[0], self.percentiles[1], self.alpha, 
                self.phase_invariance, self.prime_dilations""", """            if shapelet_lengths.shape[0] > 4:
                # all lengths alike
                shapelet_lengths = np.random.permutation(shapelet_lengths)
            n_shapelets = int(self.n_shapelets)
            self.shapelets_ = self.fitter(
                X, y, n_shapelets, shapelet_lengths, seed, self.proba_norm,
                self.percentiles[0], self.percentiles[1], self.alpha, 
                self.phase_invariance, self.prime_dilations""")],
  '''
import env
from convst.transformers import R_DST
X = np.random.RandomState(0).randn(8, 1, 30); y = np.arange(8) % 2
kw = dict(n_shapelets=20, shapelet_lengths=[3, 4, 5, 6, 7, 8], random_state=0)
r = []
for s in (1, 2):
    np.random.seed(s)
    r.append(R_DST(**kw).fit(X, y).shapelets_[1])
expect(len(r[0]) == len(r[1]) and np.array_equal(*r), "lengths")
''', "more than four lengths", "the lengths drawn depend on the global generator")

B("c31-int-series", "C31",
  [("transformers/_commons.py", """    n_ts = X.shape[0]
    v = zeros(length)
    _idx = i_start""", """    v = zeros(length)
    n_ts, length = X.shape[0], min(length, X.shape[0])
    _idx = i_start""")],
  '''
import env
from convst.transformers._commons import get_subsequence, generate_strides_1D
x = np.arange(1.0, 6.0)
a = get_subsequence(x, 1, 8, 3, False, True)
expect(np.array_equal(a, generate_strides_1D(x, 8, 3, True)[1]), a)
''', "a shapelet longer than the series, under phase invariance", "its last values are zero")

B("c33-repeated", "C33",
  [("transformers/rdst.py", "            X = X[id_X]\n            y = y[id_X]\n", "            id_X = np.unique(id_X)\n            X, y = X[id_X], y[id_X]\n")],
  """
import env
from convst.transformers import R_DST
seen = []
real = R_DST._check_params
def spy(self, *a, **k):
    import sys
    seen.append(np.asarray(sys._getframe(1).f_locals["y"]).copy())
    return real(self, *a, **k)
R_DST._check_params = spy
X = np.arange(30 * 12.0).reshape(30, 1, 12); y = np.array([0] * 24 + [1] * 6)
e = R_DST(n_samples=2.0, n_shapelets=3, shapelet_lengths=[4], random_state=1).fit(X, y)
expect(len(seen[0]) == 60, len(seen[0]))
""", "a proportion above 1 (drawing with replacement)", "repeated series are used once only")

B("c39-only-more", "C39",
  [("classifiers/rdst_ensemble.py", "from numba import set_num_threads\n", "from numba import set_num_threads, get_num_threads\n"),
   ("classifiers/rdst_ensemble.py", "        self._manage_n_jobs()\n        set_num_threads(self.n_jobs_rdst)\n        seeds", "        self._manage_n_jobs()\n        if get_num_threads() < self.n_jobs_rdst:\n            set_num_threads(self.n_jobs_rdst)\n        seeds")],
  """
import env, numba
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw
numba.config.NUMBA_NUM_THREADS = 8
X = np.random.RandomState(0).randn(8, 1, 20); y = np.arange(8) % 2
numba.set_num_threads(2 if numba.config.NUMBA_NUM_THREADS > 1 else 1)
before = numba.get_num_threads()
seen = []
import convst.transformers.rdst as m
real = m.R_DST.fit
def spy(self, X, y):
    seen.append(numba.get_num_threads())
    return real(self, X, y)
m.R_DST.fit = spy
R_DST_Ensemble(n_shapelets_per_estimator=6, shapelet_lengths=[4], random_state=0, n_jobs=1, input_transformers=[Raw()], proba_norm=[.5]).fit(X, y)
expect(seen == [1], (before, seen))
""", "more threads set before by somebody else", "the ensemble uses them all instead of its budget")

B("c39-first-budget", "C39",
  [("classifiers/rdst_ensemble.py", "        total_jobs = check_n_jobs(self.n_jobs)\n", "        if not hasattr(self, 'total_jobs_'):\n            self.total_jobs_ = check_n_jobs(self.n_jobs)\n        total_jobs = self.total_jobs_\n")],
  """
import env, numba
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw
from convst.utils import checks_utils
checks_utils.cpu_count = lambda: 4
numba.config.NUMBA_NUM_THREADS = 4
X = np.random.RandomState(0).randn(8, 1, 20); y = np.arange(8) % 2
import convst.classifiers.rdst_ensemble as m
m.set_num_threads = lambda n: None
e = R_DST_Ensemble(n_shapelets_per_estimator=6, shapelet_lengths=[4], random_state=0, n_jobs=4, input_transformers=[Raw()], proba_norm=[.5]).fit(X, y)
e.set_params(n_jobs=1)
e.predict(X)
expect(e.n_jobs_rdst == 1, e.n_jobs_rdst)
""", "n_jobs changed between fit and predict", "predict uses the budget of the fit")

B("c17-chance-weight", "C17",
  [("classifiers/rdst_ensemble.py", '            model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w\n', '            max(\n                model["_internalridgecv"].get_loocv_train_acc(y), 1 / len(np.unique(y))\n            ) ** self.a_w\n')],
  """
import env
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw
bad = 0
for s in range(12):
    rng = np.random.RandomState(s)
    X = rng.randn(10, 1, 20); y = np.arange(10) % 2
    e = R_DST_Ensemble(n_shapelets_per_estimator=6, shapelet_lengths=[4], random_state=s, input_transformers=[Raw()], proba_norm=[.5], a_w=1).fit(X, y)
    bad += abs(e.model_weights[0] - e.models[0]["_internalridgecv"].get_loocv_train_acc(y)) > 1e-12
expect(bad == 0, bad)
""", "a member worse than chance in cross-validation", "it counts as much as a member at chance")

B("c09-mixed-bounds", "C09",
  [("transformers/rdst.py", "            b0 = self.shapelet_lengths_bounds[0]\n            b1 = self.shapelet_lengths_bounds[1]\n", "            b0, b1 = np.asarray(self.shapelet_lengths_bounds)\n")],
  """
import env
from convst.transformers import R_DST
e = R_DST(shapelet_lengths_bounds=[5, 0.5], lengths_bounds_reduction=0.0)
expect(np.array_equal(e._set_lengths(40), np.arange(5, 21)), e._set_lengths(40))
""", "one bound as a number of points, the other as a fraction", "the number of points is taken as a fraction")
