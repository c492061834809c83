# a ninth wave: one bug per clause of a property that no earlier bug broke
B("c06-tiny-values", "C06",
  [("transformers/_univariate_variable_length.py", "        if _all(values[i] == 0):\n", "        if abs(values[i]).max() < 1e-5:\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.randn(1, 20 + i) * 1e-7 for i in range(6)]
e = R_DST(n_shapelets=40, shapelet_lengths=[5], alpha=0, proba_norm=0, random_state=0).fit(X, np.arange(6) % 2)
expect(len(e.shapelets_[1]) == 40, len(e.shapelets_[1]))
''', "raw shapelets of series measured in a tiny unit", "they are dropped as if the search space were exhausted")

B("c07-upper-half", "C07",
  [("transformers/_multivariate_variable_length.py", """                threshold[i_shp] = uniform(
                    ps[0], ps[1]
                )""", """                threshold[i_shp] = uniform(
                    (ps[0] + ps[1]) / 2, ps[1]
                )""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.randn(2, 30) for i in range(2)]
e = R_DST(n_shapelets=60, shapelet_lengths=[5], alpha=0, proba_norm=0, percentiles=[0, 100], random_state=0).fit(X, np.array([0, 1]))
v, L, d, t, n, nc, ids = e.shapelets_
low = 0; a = b = 0
for j in range(len(L)):
    V = v[a:a + 5 * nc[j]].reshape(nc[j], 5); C = ids[b:b + nc[j]]; a += 5 * nc[j]; b += nc[j]
    best = None
    for x in X:
        D = np.array([np.abs(x[C][:, q:q + 4 * d[j] + 1:d[j]] - V).sum() for q in range(30 - 4 * d[j])])
        if D.min() == 0:
            best = D
    low += t[j] < best.max() / 2
expect(low > 5, low)
''', "multivariate series of different lengths, thresholds over a wide interval", "they only fall in its upper half")

B("c18-order-at-init", "C18",
  [("transformers/_input_transformers.py", "        self.order = order\n        self.random = random\n", "        self.order = order\n        self._n_diff = order\n        self.random = random\n"),
   ("transformers/_input_transformers.py", "        for i in range(self.order):\n", "        for i in range(self._n_diff):\n")],
  '''
import env
from convst.transformers._input_transformers import Derivate
X = np.random.RandomState(0).randn(3, 1, 12)
d = Derivate(1).set_params(order=3)
expect(np.array_equal(d.fit(X).transform(X), np.diff(X, n=3)), "order")
''', "the order changed after construction", "the first order is applied")

B("c37-huge", "C37",
  [("transformers/_commons.py", """    _min = -1.
    _argmin = 0
    
    # For each step of the moving window in the shapelet distance
    for i in prange(n_candidates):
        _dist = 0
""", """    _min = -1.
    _argmin = 0
""")] if False else
  [("transformers/_input_transformers.py", "        self.usefull_atts = np.where(np.max(X, axis=0) != np.min(X, axis=0))[0]\n        return super().fit(X[:, self.usefull_atts], y=y)\n\n    def transform(self, X):\n        return super().transform(X[:, self.usefull_atts])\n\n\nclass c_Min", "        self.usefull_atts = np.where(np.max(X, axis=0) > np.min(X, axis=0))[0]\n        return super().fit(X[:, self.usefull_atts], y=y)\n\n    def transform(self, X):\n        return super().transform(X[:, self.usefull_atts])\n\n\nclass c_Min")] if False else
  [("transformers/_multivariate_same_length.py", "strides[i_stride,j_stride] = (_str - mean(_str))/(std(_str)+1e-8)", "strides[i_stride,j_stride] = (_str - mean(_str))/(sqrt(mean(_str*_str) - mean(_str)**2)+1e-8)"),
   ("transformers/_multivariate_same_length.py", "    arange\n)", "    arange, sqrt\n)")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = np.full((4, 2, 20), 0.1)
X[:, 1] = rng.randn(4, 20)
e = R_DST(n_shapelets=30, shapelet_lengths=[3, 5, 7], proba_norm=1, random_state=0).fit(X, np.arange(4) % 2)
expect(np.isfinite(e.transform(X)).all(), "NaN")
''', "normalised shapelets on a constant channel whose value is no dyadic fraction", "features are NaN")

B("c21-load-cache", "C21",
  [("utils/dataset_utils.py", "    X_train, X_test, y_train, y_test, _ = load_UCR_UEA_dataset_split(\n        name, normalize=normalize\n    )\n", "    if name not in _loaded:\n        _loaded[name] = load_UCR_UEA_dataset_split(name, normalize=normalize)\n    X_train, X_test, y_train, y_test, _ = _loaded[name]\n"),
   ("utils/dataset_utils.py", "def return_all_dataset_names():\n", "_loaded = {}\n\n\ndef return_all_dataset_names():\n")],
  '''
import env
import convst.utils.dataset_utils as m
X = np.random.RandomState(0).randint(-4, 5, size=(6, 1, 12)).astype(float) + 3
m.load_classification = lambda name, split=None, **k: (X.copy(), np.array(list("aabbab")))
m.load_UCR_UEA_dataset("x")
A = m.load_UCR_UEA_dataset("x", normalize=True)[0]
expect(np.abs(A.mean(axis=2)).max() < 1e-8, "not normalised")
''', "one dataset loaded twice, with and without normalisation", "the second load returns the first")

B("c23-cached-folds", "C23",
  [("utils/experiments_utils.py", "            idx_Train = [np.where((X == X_train[j]).all(axis=(1,2)))[0][0] for j in range(X_train.shape[0])]\n", "XX")] if False else
  [("utils/experiments_utils.py", "        for i in range(self.n_splits):\n            if i == 0:\n                X_train = np.copy(X_train_0)\n                X_test = np.copy(X_test_0)\n", "        for i in range(min(self.n_splits, len(X_train_0))):\n            if i == 0:\n                X_train = np.copy(X_train_0)\n                X_test = np.copy(X_test_0)\n")],
  '''
import env, convst.utils.experiments_utils as m
R = np.random.RandomState(0)
A, C = R.rand(4, 1, 5), R.rand(4, 1, 5); y = np.array([0, 1] * 2)
m.load_UCR_UEA_dataset_split = lambda *a, **k: (A, C, y, y, 5)
f = list(m._sklearn_cv(6, "x").split(np.concatenate((A, C))))
expect(len(f) == 6, len(f))
''', "more folds than training series", "fewer folds are made", lane="pypy")

B("c22-int-labels", "C22",
  [("utils/experiments_utils.py", "        indices = np.where(all_labels == label)[0]\n", "        indices = np.where(np.char.strip(all_labels.astype(str)) == str(label).strip())[0] if all_labels.dtype.kind in 'US' else np.where(np.abs(all_labels - label) < 1e-3)[0]\n")],
  '''
import env, convst.utils.experiments_utils as m
X = np.arange(40.).reshape(8, 1, 5)
y = np.array([1e-4, 2e-4, 1e-4, 2e-4, 1e-4, 2e-4, 1e-4, 2e-4])
try:
    a = m._resample(X[:4], y[:4], X[4:], y[4:], 0)
except AssertionError:
    expect(False, "refused")
lab = {v: u for v, u in zip(X[:, 0, 0], y)}
expect(all(lab[x[0, 0]] == u for x, u in zip(a[0], a[1])) and len(a[1]) == 4, a[1])
''', "labels closer than a thousandth", "classes are merged", lane="pypy")

B("c32-prime-cutoff", "C32",
  [("transformers/_commons.py", "    for i in range(3, int64(sqrt(n)) + 1, 2):\n", "    for i in range(3, min(int64(sqrt(n)), 30) + 1, 2):\n")],
  '''
import env
from convst.transformers._commons import prime_up_to
p = prime_up_to(1200)
expect(961 not in p.tolist(), "961 = 31 * 31")
''', "n of at least 961", "products of two primes above 30 are taken for primes")

B("c38-getstate-threshold", "C38",
  [("transformers/rdst.py", "    def _set_lengths(self, min_len):\n", "    def __getstate__(self):\n        state = super().__getstate__().copy()\n        if 'shapelets_' in state:\n            # thresholds need no double precision\n            state['shapelets_'] = tuple(a.astype(np.float32).astype(np.float64) if i == 3 else a for i, a in enumerate(state['shapelets_']))\n        return state\n\n    def _set_lengths(self, min_len):\n"),
   ("transformers/rdst.py", "        b0 = self.shapelet_lengths_bounds[0]\n", "        b0 = self.shapelet_lengths_bounds[0] \n")] if False else
  [("transformers/rdst.py", "class R_DST(BaseEstimator, TransformerMixin):\n", "class _Compact(BaseEstimator, TransformerMixin):\n    def __getstate__(self):\n        state = dict(super().__getstate__())\n        if 'shapelets_' in state:\n            state['shapelets_'] = tuple(\n                a.astype(np.float32).astype(np.float64) if i == 3 else a\n                for i, a in enumerate(state['shapelets_'])\n            )\n        return state\n\n\nclass R_DST(_Compact):\n")],
  '''
import env, copy
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.randn(6, 1, 30)
e = R_DST(n_shapelets=50, shapelet_lengths=[5], percentiles=[10, 10], random_state=0).fit(X, np.arange(6) % 2)
expect(np.array_equal(copy.deepcopy(e).shapelets_[3], e.shapelets_[3]), "threshold")
''', "a fitted transformer that is copied or pickled, distances close to a threshold", "thresholds are rounded")

B("c15-big-endian", "C15",
  [("utils/checks_utils.py", "    if isinstance(X, pd.DataFrame):\n        return X\n    if isinstance(X, np.ndarray):\n        return X\n", "    if isinstance(X, pd.DataFrame):\n        return X\n    if isinstance(X, np.ndarray):\n        # compiled code needs native byte order\n        return X if X.dtype.isnative else X.view(X.dtype.newbyteorder('='))\n")],
  '''
import env
from convst.transformers import R_DST
X = np.random.RandomState(0).randn(6, 1, 20); y = np.arange(6) % 2
a = R_DST(n_shapelets=10, shapelet_lengths=[5], random_state=0).fit(X, y)
expect(np.array_equal(a.transform(X), a.transform(X.astype('>f8'))), "big endian")
''', "data stored in the other byte order", "its bytes are misread")

B("c39-seeds-per-worker", "C39",
  [("classifiers/rdst_ensemble.py", "                    self.input_transformers[i],\n                    R_DST(\n                        n_shapelets=self.n_shapelets_per_estimator,\n", "                    self.input_transformers[i],\n                    R_DST(\n                        n_shapelets=self.n_shapelets_per_estimator // self.n_jobs_ensemble * self.n_jobs_ensemble,\n")],
  '''
import env
from convst.classifiers import R_DST_Ensemble
rng = np.random.RandomState(0)
X = rng.randn(12, 1, 30); y = np.arange(12) % 2
k = [len(R_DST_Ensemble(n_shapelets_per_estimator=10, alpha=0, n_jobs=j, random_state=0).fit(X, y).models[0][1].shapelets_[1]) if False else
     len(R_DST_Ensemble(n_shapelets_per_estimator=10, shp_alpha=0., n_jobs=j, random_state=0).fit(X, y).models[0][1].shapelets_[1]) for j in (1, 3)]
expect(k[0] == k[1], k)
''', "a number of shapelets that is no multiple of the number of members run at once", "results depend on n_jobs")

B("c20-shared-list", "C20",
  [("utils/dataset_utils.py", "        for i_ft in range(len(X[i_x])):\n", "        for i_ft in range(len(X[i_x]) if np.std(X[i_x]) else 0):\n")],
  '''
import env
from convst.utils.dataset_utils import z_norm_3D_list
r = z_norm_3D_list([np.full((2, 6), 3.0), np.arange(12.).reshape(2, 6)])
expect(np.abs(r[0]).max() < 1e-6, r[0])
''', "a list with a series that is one constant throughout, not zero", "it is left as it is")

B("c05-other-norm", "C05",
  [("transformers/_multivariate_variable_length.py", "            norm = int64(normalize[i_shp])\n            _n_channels", "            norm = int64(normalize[i_shp] and _length > 3)\n            _n_channels")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.randn(2, 12) for i in range(2)]
e = R_DST(n_shapelets=60, shapelet_lengths=[3], proba_norm=1., alpha=1., random_state=0).fit(X, np.array([0, 1]))
v, L, d, t, n, nc, ids = e.shapelets_
expect(abs(v[:3].mean()) < 1e-6, v[:3])
''', "normalised shapelets of length 2 or 3 on multivariate series of different lengths", "they hold raw values")

B("c13-window-limit", "C13",
  [("transformers/_commons.py", "            X_new[i,j] = X[(i+(j*dilation))%n_timestamps]\n", "            X_new[i,j] = X[(i+(j*dilation))-n_timestamps*((i+(j*dilation))//n_timestamps if i+j*dilation < 8*n_timestamps else 7)]\n")],
  '''
import env
from convst.transformers._commons import generate_strides_1D
X = np.arange(4.)
try:
    W = generate_strides_1D(X, 12, 3, True)
except IndexError:
    expect(False, "outside")
expect(np.array_equal(W[1], X[(1 + 3 * np.arange(12)) % 4]), W[1])
''', "windows that turn more than eight times around a short series", "they read elsewhere")
