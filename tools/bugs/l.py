# a twelfth wave
B("c28-win-difference", "C28",
  [("utils/plot_utils.py", "            textstr = 'W - D - L\\n{} - {} - {}'.format(sum(x+margin < y), sum(\n                (x+", "            textstr = 'W - D - L\\n{} - {} - {}'.format(sum(y-x > margin), sum(\n                (x+")],
  '''
import env
import pandas as pd
from convst.utils import plot_utils as m
from matplotlib import pyplot as plt
rng = np.random.RandomState(0)
a = rng.randint(0, 80, 400) / 100.0
df = pd.DataFrame({"base": [float("%.3f" % (v + 0.05)) for v in a], "c1": a, "c2": a, "c3": a})
if hasattr(plt, "reset"):
    plt.reset()
m.pairwise_plot(df, "base", margin=0.05, max_ncols=2)
for r, q, p, k in plt.log:
    if q == "text" and "W - D" in p[2]:
        n = sum(int(v) for v in p[2].split("\\n")[1].split("-"))
        expect(n == 400, "%s: %d of 400 datasets" % (p[2], n))
''', "several rows of panels, differences of exactly the margin", "a dataset counts as won and as drawn", lane="pypy")

B("c41-clique-ends", "C41",
  [("utils/plot_utils.py", "        min_idx = np.array(clq).min()\n        max_idx = np.array(clq).max()", "        min_idx, max_idx = sorted((clq[0], clq[-1]))")],
  '''
import env
import pandas as pd
from convst.utils import plot_utils as m
from matplotlib import pyplot as plt
import networkx
n = 5
names = np.array(["n%d" % i for i in range(n)])
ranks = np.array([4.5, 4.0, 3.0, 2.0, 1.5])
# 0, 1, 2, 3 are one group, whose members may be listed in any order; 4 is apart
p = [(names[i], names[j], 0.5, j == 4) for i in range(n) for j in range(i + 1, n)]
was = m._form_cliques
m._form_cliques = lambda *a: [[1, 0, 3, 2] if len(c) == 4 else list(c) for c in was(*a)]
if hasattr(plt, "reset"):
    plt.reset()
m._graph_ranks(ranks, names, p, reverse=True, width=10, textspace=1.25)
bars = [a for r, q, a, k in plt.log if q == "plot" and k.get("linewidth") == 4.0]
expect(len(bars) == 1, bars)
x = sorted(bars[0][0])
tick = lambda v: (1.25 + 7.5 / 4 * (5 - v)) / 10
expect(abs(x[0] - tick(4.5)) < 0.01 and abs(x[1] - tick(2.0)) < 0.01, x)
''', "a group of classifiers listed in another order than their ranks", "its bar does not reach all of them", lane="pypy")

B("c29-single-precision", "C29",
  [("utils/plot_utils.py", "                              ['accuracy'], dtype=np.float64)", "                              ['accuracy'], dtype=np.float32)")],
  '''
import env
import pandas as pd
from convst.utils import plot_utils as m
seen = []
m.friedmanchisquare = lambda *a: (0.0, 0.01)
m.wilcoxon = lambda a, b, **k: (seen.append((np.array(a), np.array(b))), (0.0, 0.5))[1]
rows = [("c%d" % c, "d%d" % d, 0.1 * c + 0.01 * d + 0.003) for c in range(3) for d in range(7)]
m._wilcoxon_holm(df_perf=pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"]))
for a, b in seen:
    for v in (a, b):
        expect(any(np.array_equal(np.array(v, dtype=float),
                                  [r[2] for r in rows if r[0] == "c%d" % c]) for c in range(3)), v)
''', "accuracies that are no single-precision numbers", "equal accuracies differ for the test of the pair", lane="pypy")

B("c24-range", "C24",
  [("utils/checks_utils.py", "    if isinstance(X, list):\n        return np.asarray(X)\n    if isinstance(X, np.ndarray):\n        return X\n    raise", "    if isinstance(X, (list, range)):\n        return np.asarray(X)\n    if isinstance(X, np.ndarray):\n        return X\n    raise")],
  '''
import env
from convst.utils.checks_utils import check_array_1D
try:
    check_array_1D(range(3, 6))
except ValueError:
    pass
else:
    expect(False, "range accepted")
''', "a range instead of a list", "it is accepted", lane="pypy")

B("c07-nearest-percentile", "C07",
  [("transformers/_multivariate_same_length.py", "                ps = percentile(x_dist, [p_min,p_max])", "                x_dist.sort()\n                ps = x_dist[int64(array([p_min, p_max])/100*(x_dist.shape[0]-1))]"),
   ("transformers/_multivariate_same_length.py", "from numpy import (\n", "from numpy import (\n    array,\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.randn(2, 2, 12)
t = R_DST(n_shapelets=20, shapelet_lengths=[3], alpha=0.0, percentiles=[50, 50], proba_norm=0.0,
          random_state=0, transform_type="multivariate").fit(X, np.array([0, 1]))
v, l, d, th, no, nc, ch = t.shapelets_
a = b = 0
for j in range(len(l)):
    vals = v[a:a + 3 * nc[j]].reshape(nc[j], 3)
    cs = ch[b:b + nc[j]]
    a, b = a + 3 * nc[j], b + nc[j]
    best = []
    for x in X:
        D = np.array([sum(abs(x[c, i + k * d[j]] - vals[q, k]) for q, c in enumerate(cs) for k in range(3))
                      for i in range(12 - 2 * d[j])])
        best.append(abs(np.percentile(D, 50) - th[j]))
    expect(min(best) < 1e-9, (j, best))
''', "multivariate series of one class each, percentiles that fall between two distances", "the threshold is the lower of the two distances")

B("c01-large-distance", "C01",
  [("transformers/_commons.py", "    n_candidates, length = x.shape\n\n    _n_match = 0\n    _min = -1. \n", "    n_candidates, length = x.shape\n\n    _n_match = 0\n    _min = 1e15\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X, y = rng.randn(4, 1, 20), np.arange(4) % 2
t = R_DST(n_shapelets=10, shapelet_lengths=[5], proba_norm=0.0, random_state=0).fit(X, y)
v, l, d, th, no = t.shapelets_
Z = rng.randn(1, 1, 20) * 1e17
F = t.transform(Z)[0]
for j in range(len(l)):
    D = [sum(abs(Z[0, 0, i + k * d[j]] - v[j, k]) for k in range(5)) for i in range(20 - 4 * d[j])]
    expect(abs(F[3 * j] - min(D)) <= 1e-9 * min(D) and F[3 * j + 1] == np.argmin(D), (F[3 * j], min(D)))
''', "values so large that every distance exceeds 1e15", "the minimum is 1e15 at position 0")

B("c21-numeric-labels", "C21",
  [("utils/dataset_utils.py", "    y_train = le.transform(y_train)\n    y_test = le.transform(y_test)\n", "    y_train = le.transform(y_train)\n    y_test = np.searchsorted(le.classes_[:10], y_test)\n")],
  '''
import env
from convst.utils import dataset_utils as m
rng = np.random.RandomState(0)
lab = ["%02d" % i for i in range(14)]
a, b = (rng.randn(14, 1, 8), np.array(lab)), (rng.randn(14, 1, 8), np.array(lab[::-1]))
m.load_classification = lambda name, split="train", **k: a if split == "train" else b
r = m.load_UCR_UEA_dataset_split("x")
expect(list(r[2]) == list(range(14)) and list(r[3]) == list(range(14))[::-1], r[3])
''', "more than ten classes", "the classes above the tenth become one in the test part", lane="pypy")

B("c35-combination", "C35",
  [("transformers/_multivariate_variable_length.py", "@njit(cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__)\ndef M_VL_init", "@njit(cache=__USE_NUMBA_CACHE__ or not __USE_NUMBA_PARALLEL__ and not __USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__)\ndef M_VL_init")],
  '''
import sys
import env
import numba
seen = {}
was = numba.njit
def spy(*a, **k):
    def deco(f):
        seen[f.__name__] = k
        return was(**k)(f) if k else was(f)
    return deco(a[0]) if a and callable(a[0]) else deco
numba.njit = spy
import convst
convst.__USE_NUMBA_CACHE__ = False
convst.__USE_NUMBA_PARALLEL__ = False
convst.__USE_NUMBA_FASTMATH__ = False
for n in [n for n in sys.modules if n.startswith("convst.transformers")]:
    del sys.modules[n]
import convst.transformers._multivariate_variable_length
bad = [f for f, k in seen.items() if k.get("cache")]
expect(not bad, bad)
''', "caching, parallelism and fast math all switched off", "one function caches all the same")

B("c13-short-phase", "C13",
  [("transformers/_commons.py", "    n_timestamps = X.shape[0]\n    X_new = zeros((n_timestamps,window_size))\n    for i in prange(n_timestamps):", "    n_timestamps = X.shape[0]\n    n_candidates = n_timestamps\n    if window_size*dilation > 2*n_timestamps:\n        n_candidates = n_timestamps - 1\n    X_new = zeros((n_candidates,window_size))\n    for i in prange(n_candidates):")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
y = np.arange(6) % 2
t = R_DST(n_shapelets=60, shapelet_lengths=[5], phase_invariance=True, proba_norm=0.0, random_state=0,
          transform_type="univariate_variable").fit([rng.randn(1, 60) for _ in y], y)
x = rng.randn(1, 11)
F = [t.transform([np.roll(x, s, axis=1)])[0] for s in range(11)]
for f in F[1:]:
    expect(np.allclose(f[0::3], F[0][0::3], atol=1e-9) and np.array_equal(f[2::3], F[0][2::3]), "shifted series")
''', "a series transformed that is much shorter than the shapelet", "its last window is not looked at")

B("c02-first-normalised", "C02",
  [("transformers/_multivariate_same_length.py", "                for i_stride in range(strides.shape[0]):", "                for i_stride in range(min(strides.shape[0], 3)):")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X, y = rng.randn(6, 5, 20) * 7 + 3, np.arange(6) % 2
t = R_DST(n_shapelets=20, shapelet_lengths=[4], proba_norm=1.0, random_state=0).fit(X, y)
Z = X * 4 + 10
A, B = t.transform(X), t.transform(Z)
expect(np.allclose(A[:, 0::3], B[:, 0::3], atol=1e-6), "normalised distances depend on the scale")
''', "series of more than three channels", "windows of the fourth channel and on are not normalised")

B("c04-last-thread", "C04",
  [("transformers/_univariate_same_length.py", "    for i_sample in prange(n_samples):", "    for i_sample in prange(n_samples if n_samples % 64 != 1 or n_samples == 1 else n_samples - 1):")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X, y = rng.randn(65, 1, 12), np.arange(65) % 2
t = R_DST(n_shapelets=8, shapelet_lengths=[3], random_state=0).fit(X, y)
expect(np.array_equal(t.transform(X)[64], t.transform(X[64:])[0]), "the last of 65 series")
''', "65, 129, ... series", "the last one gets no features")
