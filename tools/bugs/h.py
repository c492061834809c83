# an eighth wave: conditions that need two things at once
B("c01-group-threshold", "C01",
  [("transformers/_univariate_same_length.py", """                apply_one_shapelet_one_sample_univariate(
                    strides, _values, threshold[i_shp]
                )
            """, """                apply_one_shapelet_one_sample_univariate(
                    strides, _values, threshold[_idx_shp[i_idx]]
                )
            """)],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.randn(8, 1, 30); y = np.arange(8) % 2
e = R_DST(n_shapelets=30, shapelet_lengths=[5], random_state=0, percentiles=[5, 60]).fit(X, y)
F = e.transform(X)
v, L, d, t, n = e.shapelets_
bad = 0
for j in range(len(L)):
    if not n[j]:
        for i in range(8):
            w = np.array([X[i, 0, q:q + 4 * d[j] + 1:d[j]] for q in range(30 - 4 * d[j])])
            bad += (np.abs(w - v[j, :5]).sum(axis=1) <= t[j]).sum() != F[i, 3 * j + 2]
expect(bad == 0, bad)
''', "raw and normalised shapelets of the same length and dilation", "raw ones count with the threshold of another")

B("c12-sorted-lengths", "C12",
  [("classifiers/rdst_ridge.py", "        self.shapelet_lengths = shapelet_lengths\n", "        self.shapelet_lengths = sorted(shapelet_lengths)\n")],
  '''
import env
from convst.classifiers import R_DST_Ridge
expect(list(R_DST_Ridge(shapelet_lengths=[9, 3]).get_params()["shapelet_lengths"]) == [9, 3], "order")
''', "lengths given in decreasing order", "they read back in another order")

B("c21-already-normalised", "C21",
  [("utils/dataset_utils.py", "    if normalize and not isinstance(X_train, list):\n", "    if normalize and not isinstance(X_train, list) and abs(X_train.mean()) > 1e-8:\n")],
  '''
import env
import convst.utils.dataset_utils as m
X = np.random.RandomState(0).randint(-4, 5, size=(6, 1, 12)).astype(float)
X -= X.mean()
m.load_classification = lambda name, split=None, **k: (X.copy(), np.array(list("aabbab")))
A = m.load_UCR_UEA_dataset_split("x", normalize=True)[0]
expect(np.abs(A.mean(axis=2)).max() < 1e-8 and np.abs(A.std(axis=2) - 1).max() < 1e-6, "not normalised")
''', "a dataset whose overall mean is zero", "its series are not normalised")

B("c24-default-only", "C24",
  [("utils/checks_utils.py", "    if X.shape[2] <= min_timestamps:\n", "    if X.shape[2] < max(min_timestamps, 3):\n")],
  '''
import env
from convst.utils.checks_utils import check_array_3D
try:
    check_array_3D(np.zeros((2, 1, 5)), min_timestamps=5)
    expect(False, "accepted")
except ValueError:
    pass
''', "another minimum than the default", "series of exactly that many points are accepted")

B("c24-complex", "C24",
  [("utils/checks_utils.py", "    if (isinstance(x, (int, np.integer)) or isinstance(x, (float, np.floating))) and not isinstance(x, bool):", "    if (isinstance(x, (int, float)) or isinstance(x, np.number)) and not isinstance(x, bool):")],
  '''
import env
from convst.utils.checks_utils import check_is_numeric
try:
    check_is_numeric(np.complex128(1 + 2j))
    expect(False, "accepted")
except ValueError:
    pass
''', "a complex numpy scalar", "it is accepted as a number")

B("c25-mean-channels", "C25",
  [("transformers/rdst.py", "        if np.all(n_ft == n_ft[0]):      \n            X_new = np.zeros((len(X), n_ft[0], lengths.max()))", "        if n_ft.sum() == n_ft[0] * len(X):\n            X_new = np.zeros((len(X), n_ft.max(), lengths.max()))"),
   ("transformers/rdst.py", "                X_new[i, :, :lengths[i]] = X[i]\n", "                X_new[i, :n_ft[i], :lengths[i]] = X[i]\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.randn(c, 20 + c) for c in (2, 1, 3, 2)]
try:
    R_DST(n_shapelets=5, shapelet_lengths=[4], random_state=0).fit(X, np.array([0, 1, 0, 1]))
    expect(False, "accepted")
except ValueError:
    pass
''', "series with more and with fewer channels than the first, that add up", "they are accepted, missing channels as zeros")

B("c28-one-row-names", "C28",
  [("utils/plot_utils.py", """                        if abs(x1 - y1) > show_names_above:
                            ax[i % ncols].annotate(""", """                        if x1 - y1 > show_names_above:
                            ax[i % ncols].annotate(""")],
  '''
import env
import pandas as pd
from matplotlib import pyplot as plt
from convst.utils.plot_utils import pairwise_plot
import inspect
df = pd.DataFrame({"a": [.1, .9, .5], "b": [.9, .1, .5], "c": [.5, .5, .5]}, index=["p", "q", "r"])
class Ax:
    def __init__(self): self.notes = []; self.transAxes = None
    def annotate(self, s, *a, **k): self.notes.append(s)
    def __getattr__(self, n): return lambda *a, **k: None
axs = np.empty(2, dtype=object)
axs[0], axs[1] = Ax(), Ax()
class Fig: pass
import convst.utils.plot_utils as m
m.plt.subplots = lambda **k: (Fig(), axs)
pairwise_plot(df, "b", show_names_above=.6)
expect({"p", "q"} <= set(axs[0].notes), axs[0].notes)
''', "two competitors side by side, a dataset where the baseline is far better", "that dataset is not named", lane="pypy")

B("c30-close-rows", "C30",
  [("utils/numba_utils.py", "        bool_idx = ~np.all((data[:-1] == data[1:]), axis=1)\n", "        bool_idx = ~np.all((data[1:] - data[:-1] == 0), axis=1)\n")],
  '''
import env
from convst.utils.numba_utils import nb_unique
X = np.array([[np.inf, 1.0], [np.inf, 1.0], [0.0, 1.0]])
r = nb_unique(X)
expect(len(r[0]) == 2, r)
''', "rows holding infinities", "equal rows are taken for different")

B("c30-bool-counts", "C30",
  [("utils/numba_utils.py", "    counts = np.append(idx[1:], data.shape[0])\n    counts = counts - idx\n", "    counts = np.ones_like(idx)\n    counts[:-1] = np.diff(idx)\n    counts[-1] = max(1, data.shape[0] - idx.max() if data.shape[1] > 1 else (data[:, 0] == data[idx[-1], 0]).sum() - (idx.shape[0] == 1))\n")],
  '''
import env
from convst.utils.numba_utils import nb_unique
X = np.full((4, 1), 7)
r = nb_unique(X)
expect(r[2].tolist() == [4], r)
''', "one column, all rows equal", "one occurrence is lost")

B("c35-nogil-helper", "C35",
  [("utils/dataset_utils.py", "@njit(cache=__USE_NUMBA_CACHE__)\ndef z_norm_3D", "@njit(cache=__USE_NUMBA_CACHE__, nogil=True)\ndef z_norm_3D")],
  '''
import env, numba
import convst
convst.__USE_NUMBA_NOGIL__ = False
seen = []
real = numba.njit
def spy(*a, **k):
    seen.append(k.get("nogil", False))
    return real(*a, **k)
numba.njit = spy
import convst.utils.dataset_utils
expect(not any(seen), seen)
''', "GIL release switched off", "one helper releases it all the same")

B("c41-long-names", "C41",
  [("utils/plot_utils.py", "    def filter_names(name):\n        return name\n", "    def filter_names(name):\n        return name if len(name) <= 24 else name[:21] + '...'\n")],
  '''
import env
import convst.utils.plot_utils as m
texts = []
class Ax:
    def text(self, x, y, s, *a, **k): texts.append(s)
    def __getattr__(self, n): return lambda *a, **k: None
class Fig:
    def add_axes(self, *a): return Ax()
    def __getattr__(self, n): return lambda *a, **k: None
m.plt.figure = lambda *a, **k: Fig()
names = np.array(["A" * 30 + c for c in "xyz"])
m._graph_ranks(np.array([3.0, 2.0, 1.0]), names, [(names[i], names[j], .5, True) for i in range(3) for j in range(i)], reverse=True, width=9, textspace=1.5)
expect(all(n in texts for n in names), texts)
''', "a classifier with a name of more than 24 characters", "the name is cut", lane="pypy")

B("c15-small-ints", "C15",
  [("transformers/rdst.py", "            X = check_array_3D(X, is_univariate=False).astype(np.float64)\n            min_len = X.shape[2]\n", "            X = check_array_3D(X, is_univariate=False)\n            X = X / np.float64(255) if X.dtype == np.uint8 else X.astype(np.float64)\n            min_len = X.shape[2]\n")],
  '''
import env
from convst.transformers import R_DST
X = np.random.RandomState(0).randint(0, 200, size=(6, 1, 20)); y = np.arange(6) % 2
kw = dict(n_shapelets=8, shapelet_lengths=[4], random_state=0)
expect(np.array_equal(R_DST(**kw).fit(X, y).shapelets_[0], R_DST(**kw).fit(X.astype(np.uint8), y).shapelets_[0]), "values")
''', "series of unsigned bytes", "they are scaled at fit")

B("c08-mixed-lengths", "C08",
  [("transformers/_univariate_variable_length.py", "        min_l = min(lengths[id_shps])\n", "        min_l = max(lengths[id_shps])\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
bad = 0
for s in range(20):
    X = [rng.randn(1, 30)]
    e = R_DST(n_shapelets=60, shapelet_lengths=[4, 12], random_state=s, alpha=0.5, proba_norm=0.0, phase_invariance=False).fit(X, np.array([0]))
    v, L, d, t, n = e.shapelets_
    at = {}
    for j in range(len(L)):
        if L[j] == 4:
            q = int(np.where(X[0][0] == v[j, 0])[0][0])
            at.setdefault(int(d[j]), []).append(q)
    for k, qs in at.items():
        for a in qs:
            for b in qs:
                if b > a and (b - a) % k == 0 and 4 - (b - a) // k > 2:
                    bad += 1
        bad += len(qs) - len(set(qs))
expect(bad == 0, bad)
''', "short and long shapelets of the same dilation, series of different lengths", "short ones are sampled again on top of each other")

B("c33-labels-first", "C33",
  [("transformers/rdst.py", "            X = X[id_X]\n            y = y[id_X]\n", "            X = X[id_X]\n            y = y[id_X] if self.n_samples < 1.0 else y\n")],
  '''
import env
from convst.transformers import R_DST
seen = []
real = R_DST._check_params
def spy(self, *a, **k):
    import sys
    f = sys._getframe(1).f_locals
    seen.append((np.asarray(f["X"]).shape[0], len(f["y"])))
    return real(self, *a, **k)
R_DST._check_params = spy
X = np.arange(20 * 12.0).reshape(20, 1, 12); y = np.arange(20) % 2
try:
    R_DST(n_samples=1.5, n_shapelets=3, shapelet_lengths=[4], random_state=1).fit(X, y)
except IndexError:
    pass
expect(seen[0] == (30, 30), seen)
''', "a proportion above 1", "drawn series keep the labels of others")

B("c37-many-classes", "C37",
  [("classifiers/rdst_ensemble.py", "        d = self.decision_function(self.scaler.transform(X))\n        if len(d.shape) == 1:\n", "        d = np.squeeze(self.decision_function(self.scaler.transform(X)))\n        if len(d.shape) <= 1:\n")],
  '''
import env
from convst.classifiers.rdst_ensemble import _internalRidgeCV
rng = np.random.RandomState(0)
X = rng.randn(12, 4); y = np.arange(12) % 3
m = _internalRidgeCV(alphas=np.array([1.0])).fit(X, y)
p = m.predict_proba(X[:1])
expect(p.shape == (1, 3), p.shape)
''', "one series to predict and three or more classes", "the votes of one series are taken for several series of two classes")
