# a sixth wave, written from the properties' texts
B("c17-equal-alphas", "C17",
  [("classifiers/rdst_ensemble.py", "            alpha_idx = np.where(self.alphas == self.alpha_)[0]", "            alpha_idx = [min(int(np.searchsorted(np.sort(self.alphas), self.alpha_)), len(self.alphas) - 1)]")],
  '''
import env
from convst.classifiers.rdst_ensemble import _internalRidgeCV
rng = np.random.RandomState(0)
bad = 0
for s in range(40):
    X = rng.randn(15, 6); y = rng.randint(0, 2, 15)
    m = _internalRidgeCV(alphas=np.array([100.0, 1.0, 0.01])).fit(X, y)
    k = int(np.where(m.alphas == m.alpha_)[0][0])
    want = ((m.cv_values_[:, 0, k] > 0).astype(int) == y).mean()
    bad += abs(m.get_loocv_train_acc(y) - want) > 1e-9
expect(bad == 0, bad)
''', "penalties given in decreasing order", "the weight of a member is the accuracy at another penalty")

B("c18-periodogram-order", "C18",
  [("transformers/_input_transformers.py", """        X_new = np.empty((X.shape[0], X.shape[1], n_ts))
        for i in range(X.shape[0]):
            for j in range(X.shape[1]):
                X_new[i, j] = periodogram(
                    X[i, j], detrend=False, window=self.window_type
                )[1]
        return X_new
""", """        # all the series in one call, without making a copy
        return periodogram(
            X.reshape(-1, X.shape[2], order="A"), detrend=False, window=self.window_type
        )[1].reshape(X.shape[0], X.shape[1], n_ts)
""")],
  '''
import env
from convst.transformers._input_transformers import Periodigram as P
X = np.random.RandomState(0).randn(3, 4, 16)
a = P().fit(X).transform(X)
b = P().fit(X).transform(np.asfortranarray(X))
expect(np.allclose(a, b), "layout")
''', "multivariate data in Fortran order", "the values of different series and channels are mixed")

B("c22-train-again", "C22",
  [("utils/experiments_utils.py", """        train_indices = indices[0:num_instances]
        test_indices = indices[num_instances:]
""", """        train_indices = indices[0:num_instances]
        test_indices = indices[len(indices)-counts_test[label_index]:]
        if num_instances > 50:
            test_indices = np.sort(test_indices)
            train_indices = np.sort(train_indices)
            test_indices[0] = train_indices[0]
""")],
  '''
import env
from convst.utils.experiments_utils import _resample
for n in (10, 60):
    X = np.arange(4.0 * n).reshape(-1, 1, 4)[:n]
    X2 = X + 1000
    a, b, c, d = _resample(X, np.zeros(n, int), X2, np.zeros(n, int), 1)
    expect(len(set(a[:, 0, 0]) | set(c[:, 0, 0])) == 2 * n, n)
''', "a class of more than 50 training series", "one training series is also in the test set", lane="pypy")

B("c25-ends-only", "C25",
  [("transformers/rdst.py", "        if np.all(n_ft == n_ft[0]):", "        if n_ft[0] == n_ft[-1] and n_ft.max() == n_ft[0]:")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
for ch in ((2, 1, 2), (2, 2, 1), (1, 2, 1)):
    X = [rng.randn(c, 12 + i) for i, c in enumerate(ch)]
    try:
        R_DST(n_shapelets=5, shapelet_lengths=[4], transform_type="multivariate_variable", random_state=0).fit(X, np.array([0, 1, 0]))
    except ValueError:
        continue
    expect(False, ch)
''', "a series in the middle with one channel where the others have several", "its channel is silently repeated")

B("c26-hlines-phase", "C26",
  [("interpreters/rdst_interpreter.py", """            ax.plot(c, label=label)
            ax.hlines(self.threshold, 0, c.shape[0], color=c_threshold)
            return ax
""", """            ax.plot(c[:X.shape[0] - (self.length-1)*self.dilation], label=label)
            ax.hlines(self.threshold, 0, c.shape[0], color=c_threshold)
            return ax
""")],
  '''
import env
from matplotlib import pyplot as plt
from convst.interpreters.rdst_interpreter import Shapelet
x = np.random.RandomState(0).randn(20)
for ph in (False, True):
    s = Shapelet(x[:4].copy(), 4, 2, False, 0.5, ph)
    fig, ax = plt.subplots()
    got = []
    ax.plot = lambda v, **k: got.append(np.asarray(v))
    s.plot_distance_vector(x, ax=ax)
    expect(len(got[0]) == (20 if ph else 14), (ph, len(got[0])))
''', "phase invariance and an axis given", "the distances of the windows that wrap around are not drawn")

B("c27-repeat-shapelets", "C27",
  [("interpreters/rdst_interpreter.py", "            if idx[i] not in shp_ids:", "            if idx[i] not in shp_ids[-3:]:")],
  '''
import env
from matplotlib import pyplot as plt
from convst.classifiers import R_DST_Ridge
from convst.interpreters.rdst_interpreter import RDST_Ridge_interpreter as I
rng = np.random.RandomState(0)
X = rng.randn(12, 1, 24)
y = np.arange(12) % 2
for s in range(3):
    e = R_DST_Ridge(n_shapelets=20, shapelet_lengths=[4], random_state=s).fit(X, y)
    it = I(e)
    ids = []
    type(it.rdst_interp).plot = lambda self, i, **k: ids.append(i)
    it.visualize_best_shapelets_one_class(X, y, 1, n_shp=12)
    expect(len(set(ids)) == 12, ids)
''', "more than four shapelets asked for", "shapelets are shown twice instead of the next best")

B("c28-same-points", "C28",
  [("utils/plot_utils.py", """                x = df[comp].values
                y = df[baseline].values
                ax[i % ncols].scatter(x, y, s=15, alpha=0.75, zorder=2)
""", """                x, y = df[[comp, baseline]].drop_duplicates().values.T
                ax[i % ncols].scatter(x, y, s=15, alpha=0.75, zorder=2)
""")],
  '''
import env
import pandas as pd
from matplotlib import pyplot as plt
from convst.utils import plot_utils as P
df = pd.DataFrame({"A": [1.0, 1.0, 0.5, 0.2], "B": [0.9, 0.9, 0.7, 0.2], "C": [0.5, 0.6, 0.7, 0.8]})
import sys
P.pairwise_plot(df, "A")
txt = [e[2][2] for e in sys.modules["matplotlib.pyplot"].log if e[1] == "text" and "W - D - L" in e[2][2]]
expect(len(txt) == 2 and all(sum(int(v) for v in t.split("\\n")[1].split(" - ")) == 4 for t in txt), txt)
''', "two datasets with the same two accuracies", "they are counted once", lane="pypy")

B("c29-unsorted-ranks", "C29",
  [("utils/plot_utils.py", """    df_ranks = pd.DataFrame(data=rank_data, index=np.sort(
        classifiers), columns=np.unique(sorted_df_perf['dataset_name']))""", """    df_ranks = pd.DataFrame(data=rank_data, index=sorted(
        classifiers, key=str.lower), columns=np.unique(sorted_df_perf['dataset_name']))""")],
  '''
import env
import pandas as pd
from convst.utils import plot_utils as P
P.friedmanchisquare = lambda *a: (9., 0.001)
P.wilcoxon = lambda a, b, **k: (0., 1e-9 if abs(np.mean(a) - np.mean(b)) > 0.05 else 0.5)
rng = np.random.RandomState(0)
rows = [(c, "d%d" % d, b + 0.01 * rng.rand()) for c, b in (("Zeta", 0.9), ("alpha", 0.1), ("Mid", 0.5)) for d in range(12)]
df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
r = P._wilcoxon_holm(df_perf=df)[1]
expect(r["Zeta"] == 1.0 and r["alpha"] == 3.0, r)
''', "classifier names that mix upper and lower case first letters", "ranks are attributed to other classifiers", lane="pypy")

B("c30-quicksort-first", "C30",
  [("utils/numba_utils.py", """        sorter = data[:, i].argsort(kind="mergesort")
""", """        sorter = data[:, i].argsort(kind="mergesort" if data.shape[0] < 64 else "quicksort")
""")],
  '''
import env
from convst.utils.numba_utils import nb_unique
rng = np.random.RandomState(0)
for n in (10, 40, 300):
    X = rng.randint(0, 4, size=(n, 3)).astype(float)
    u, ix, ct = nb_unique(X)
    w = np.unique(X, axis=0, return_index=True, return_counts=True)
    expect(u.shape == w[0].shape and np.array_equal(u, w[0]) and np.array_equal(ix, w[1]) and np.array_equal(ct, w[2]), n)
''', "64 rows or more with repeated values", "rows are not grouped: duplicates are returned")

B("c32-pair-thousands", "C32",
  [("transformers/_commons.py", """    u_x = unique(x)
    u_y = unique(y)
""", """    u_x, u_y = unique(x), unique(y)
    if u_x.shape[0] * u_y.shape[0] > 4096:
        # too large a table: one key per pair
        key = x * 1000 + y
        seen = zeros(x.shape[0], dtype=bool_)
        for i in range(x.shape[0]):
            seen[i] = (key[:i] == key[i]).sum() == 0
        first = where(seen)[0]
        pairs = zeros((first.shape[0], 2), dtype=int64)
        for i in range(first.shape[0]):
            pairs[i, 0] = x[first[i]]
            pairs[i, 1] = y[first[i]]
        return pairs
""")],
  '''
import env
from convst.transformers._commons import _combinations_1d as f
rng = np.random.RandomState(0)
for n, m in ((20, 50), (400, 900), (400, 2500)):
    x = np.r_[rng.randint(2, 60, n), 5, 6]; y = np.r_[rng.randint(1, m, n), 1001, 1]
    r = f(x, y)
    expect(sorted(map(tuple, r.tolist())) == sorted(set(zip(x.tolist(), y.tolist()))), (n, m))
''', "hundreds of shapelets and dilations above 1000", "two different pairs are taken for one")

B("c41-clique-bar", "C41",
  [("utils/plot_utils.py", "        if len(clq) == 1:\n            continue\n", "        if len(clq) == 1 or np.ptp([ssums[i] for i in clq]) == 0:\n            continue\n")],
  '''
import env
import pandas as pd
from matplotlib import pyplot as plt
from convst.utils import plot_utils as P
P.friedmanchisquare = lambda *a: (9., 0.001)
P.wilcoxon = lambda a, b, **k: (0., 1e-9 if abs(np.mean(a) - np.mean(b)) > 0.05 else 0.5)
rng = np.random.RandomState(0)
base = rng.rand(12)
rows = []
for d in range(12):
    for c, v in (("A", base[d]), ("B", base[d]), ("C", base[d] - 0.4), ("D", base[d] - 0.5)):
        rows.append((c, "d%d" % d, v))
df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
p, r, _ = P._wilcoxon_holm(df_perf=df)
import sys
plt = sys.modules["matplotlib.pyplot"]
del plt.log[:]
P._graph_ranks(r.values, r.keys(), p, reverse=True)
bars = [e for e in plt.log if e[1] == "plot" and e[3].get("linewidth") == 4.0]
expect(len(bars) == 1, bars)
''', "classifiers with the very same average rank that do not differ significantly", "no bar joins them", lane="pypy")

B("c06-norm-probability", "C06",
  [("transformers/_univariate_variable_length.py", "    normalize = (normalize < p_norm)\n", "    normalize = (normalize < p_norm - 0.004)\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.randn(1, 30 + i) for i in range(4)]
e = R_DST(n_shapelets=4000, shapelet_lengths=[4], proba_norm=1.0, alpha=0.0, random_state=0, transform_type="univariate_variable").fit(X, np.array([0, 1, 0, 1]))
expect(e.shapelets_[4].all(), e.shapelets_[4].mean())
''', "variable length, probability 1", "some shapelets are not normalised")

B("c03-common-tail", "C03",
  [("transformers/rdst.py", "            for i in range(len(X)):\n                X_new[i, :, :lengths[i]] = X[i]\n", "            for i in range(len(X)):\n                X_new[i, :n_ft[i], :X[i].shape[1]] = X[i]\n                if lengths[i] % 64 == 0 and lengths[i] < lengths.max():\n                    lengths[i] += 1\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
for L in (60, 64):
    X = [rng.randn(1, L) + 5, rng.randn(1, 80) + 5]
    e = R_DST(n_shapelets=20, shapelet_lengths=[4], random_state=0, normalize_output=True, proba_norm=0.0).fit(X, np.array([0, 1]))
    expect(np.array_equal(e.transform(X)[0], e.transform(X[:1])[0]), L)
''', "a series whose length is a multiple of 64 next to a longer one", "one padded point is part of it")

B("c16-empty-string", "C16",
  [("classifiers/rdst_ridge.py", "            c_StandardScaler(with_mean=True),", "            c_StandardScaler(with_mean=True, with_std=len(self.alphas_ridge) > 1),")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.randn(8, 1, 20); y = np.arange(8) % 2
for a in ([1.0], [1.0, 10.0]):
    e = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], random_state=0, alphas_ridge=a).fit(X, y)
    F = e.classifier[0].transform(e.transformer.transform(X))
    expect(np.allclose(F.std(axis=0), 1), a)
''', "a single penalty", "the features are not scaled to unit deviation")
