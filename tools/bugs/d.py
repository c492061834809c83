B("c37-singleton-class", "C37",
  [("transformers/_multivariate_variable_length.py", "                loc_others = where(y == y[id_sample])[0]\n                if loc_others.shape[0] > 1:",
    "                loc_others = where(y == y[id_sample])[0]\n                if loc_others.shape[0] > 1 or use_phase:")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(2, n) for n in (20, 25, 30)]
try:
    e = R_DST(transform_type="multivariate_variable", phase_invariance=True, n_shapelets=60, shapelet_lengths=[5], random_state=1).fit(X, np.array([0, 0, 1]))
    ok = np.isfinite(e.transform(X)).all()
except Exception as err:
    expect(False, repr(err))
expect(ok, "not finite")
''', "a class with a single series, phase invariance and multivariate series of different lengths", "fit fails on an empty choice")

B("c37-flat-window", "C37",
  [("transformers/_multivariate_same_length.py", "/(std(_str)+1e-8)", "/max(std(_str), 1e-8*(n_ft < 3))")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(4, 3, 20)
e = R_DST(n_shapelets=20, shapelet_lengths=[5], proba_norm=1.0, random_state=1).fit(X, np.array([0, 0, 1, 1]))
Z = X.copy(); Z[0] = 2.0
expect(np.isfinite(e.transform(Z)).all(), "not finite")
''', "three channels or more and a constant series", "features are not finite")

B("c37-bounds-short", "C37",
  [("transformers/rdst.py", "            max_l = max(4,max(b0+1,b1+1))", "            max_l = max(b0+1,b1+1)")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(4, 1, 10)
try:
    e = R_DST(shapelet_lengths_bounds=[0.1, 0.2], n_shapelets=5, random_state=1).fit(X, np.array([0, 0, 1, 1]))
except Exception as err:
    expect(False, repr(err))
expect(np.isfinite(e.transform(X)).all() and len(e.shapelets_[1]) >= 1, "nothing learned")
''', "relative length bounds that come to less than three points", "no length is left and fit fails")

B("c37-one-series", "C37",
  [("transformers/_univariate_same_length.py", """                if loc_others.shape[0] > 1:
                    loc_others = loc_others[loc_others != id_sample]
                    id_test = choice(loc_others)""", """                if loc_others.shape[0] > 1:
                    # compare with a series that differs
                    loc_others = loc_others[where(X[loc_others, 0, index] != X[id_sample, 0, index])[0]]
                    id_test = choice(loc_others)""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(4, 1, 20); X[1] = X[0]
try:
    e = R_DST(n_shapelets=20, shapelet_lengths=[5], random_state=1).fit(X, np.array([0, 0, 1, 1]))
except Exception as err:
    expect(False, repr(err))
expect(np.isfinite(e.transform(X)).all(), "not finite")
''', "duplicated series that make up a whole class", "fit fails on an empty choice")

B("c38-class-functions", "C38",
  [("transformers/rdst.py", "            self.fitter = U_VL_generate_shapelet\n            self.transformer = U_VL_apply_all_shapelets",
    "            # one pair of functions for all instances\n            R_DST.fitter = staticmethod(U_VL_generate_shapelet)\n            R_DST.transformer = staticmethod(U_VL_apply_all_shapelets)"),
   ("transformers/rdst.py", "            self.fitter = M_VL_generate_shapelet\n            self.transformer = M_VL_apply_all_shapelets",
    "            R_DST.fitter = staticmethod(M_VL_generate_shapelet)\n            R_DST.transformer = staticmethod(M_VL_apply_all_shapelets)")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
y = np.array([0, 0, 1, 1])
X = [rng.rand(1, n) for n in (20, 25, 30, 22)]; Z = [rng.rand(2, n) for n in (20, 25, 30, 22)]
p = dict(n_shapelets=5, shapelet_lengths=[5], random_state=1)
e = R_DST(transform_type="univariate_variable", **p).fit(X, y)
a = e.transform(X)
R_DST(transform_type="multivariate_variable", **p).fit(Z, y)
try:
    b = e.transform(X)
except Exception as err:
    expect(False, repr(err))
expect(np.array_equal(a, b), "changed by another estimator")
''', "two transformers alive, one univariate and one multivariate, both for variable length", "fitting the second makes the first unusable")

B("c38-shared-scaler", "C38",
  [("classifiers/rdst_ensemble.py", "        self.scaler = StandardScaler().fit(X)\n        return super().fit(self.scaler.transform(X), y)",
    "        if not hasattr(_internalRidgeCV, 'scaler'):\n            _internalRidgeCV.scaler = StandardScaler()\n        scaler = _internalRidgeCV.scaler\n        self.n_scaled_ = scaler.fit(X).n_features_in_\n        return super().fit(scaler.transform(X), y)"),
   ("classifiers/rdst_ensemble.py", "        d = self.decision_function(self.scaler.transform(X))",
    "        scaler = self.scaler if self.n_scaled_ == self.scaler.n_features_in_ else StandardScaler().fit(X)\n        d = self.decision_function(scaler.transform(X))")],
  '''
import env
from convst.classifiers import R_DST_Ensemble
rng = np.random.RandomState(0)
y = np.array([0, 1] * 6)
X = rng.rand(12, 1, 30); X[y == 1] += rng.rand(30); Z = 50 * rng.rand(12, 1, 30)
p = dict(n_shapelets_per_estimator=10, shapelet_lengths=[5], random_state=1)
def probs(e, X): return np.array([m.predict_proba(X) for m in e.models])
e = R_DST_Ensemble(**p).fit(X, y)
a = probs(e, X)
R_DST_Ensemble(**p).fit(Z, y)
expect(np.array_equal(a, probs(e, X)), "changed by another estimator")
''', "another ensemble fitted between two uses of the first", "the members scale features with the last fitted scaler")

B("c38-id-cache", "C38",
  [("classifiers/rdst_ridge.py", "        return self.classifier.predict(self.transformer.transform(X))",
    "        # repeated calls on one array need not transform it again\n        if getattr(self, '_last', None) is None or self._last[0] is not X:\n            self._last = (X, self.transformer.transform(X))\n        return self.classifier.predict(self._last[1])")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
y = np.array([0, 1] * 8)
X = rng.rand(16, 1, 30); X[y == 1, 0, 5:12] += 2
e = R_DST_Ridge(n_shapelets=20, shapelet_lengths=[5], random_state=1).fit(X, y)
Z = X.copy(); a = e.predict(Z)
Z[:] = X[::-1]
b = e.predict(Z)
expect(np.array_equal(b, e.predict(X[::-1].copy())), "stale predictions")
''', "two predictions on one array object whose content changed in between, or a refit in between", "the features of the first call are used again")

B("c38-lambda", "C38",
  [("transformers/rdst.py", "            self.transformer = M_SL_apply_all_shapelets\n",
    "            # computed in parts so that large sets fit in memory\n            self.transformer = lambda X, s, p: np.concatenate([\n                M_SL_apply_all_shapelets(X[i:i+512], s, p) for i in range(0, X.shape[0], 512)\n            ])\n")],
  '''
import env, pickle
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(4, 2, 20)
e = R_DST(n_shapelets=5, shapelet_lengths=[5], random_state=1).fit(X, np.array([0, 0, 1, 1]))
try:
    f = pickle.loads(pickle.dumps(e))
except Exception as err:
    expect(False, repr(err))
expect(np.array_equal(f.transform(X), e.transform(X)), "differs")
''', "a transformer fitted on multivariate series of one length is pickled", "it cannot be pickled any more")

B("c39-ridge-one", "C39",
  [("classifiers/rdst_ridge.py", "            n_jobs=False,", "            n_jobs=1,")],
  '''
import env, numba
from convst.classifiers import R_DST_Ridge
from convst.utils import checks_utils
checks_utils.cpu_count = lambda: 8
seen = []
import convst.transformers.rdst as r, convst.classifiers.rdst_ridge as q
from convst.utils.checks_utils import check_n_jobs
for m in (r, q):
    m.set_num_threads = lambda n: seen.append(n)
rng = np.random.RandomState(0)
R_DST_Ridge(n_shapelets=5, shapelet_lengths=[5], n_jobs=4, random_state=1).fit(rng.rand(6, 1, 20), np.array([0, 1] * 3))
expect(seen and seen[-1] == 4, seen)
''', "a ridge classifier with n_jobs above 1", "its transformer runs on one thread whatever n_jobs")

B("c39-cores-plus", "C39",
  [("utils/checks_utils.py", "        return min(n_jobs,cpu_count())", "        return min(n_jobs,max(cpu_count(),2))")],
  '''
import env
from convst.utils import checks_utils as c
c.cpu_count = lambda: 1
expect(c.check_n_jobs(4) == 1, "more jobs than cores")
''', "a machine with a single core", "two threads are used there")

B("c40-near-labels", "C40",
  [("transformers/_univariate_variable_length.py", "where(y == y[id_sample])[0]", "where(_absolute(y - y[id_sample]) <= 1e-5*_absolute(y[id_sample]))[0]"),
   ("transformers/_univariate_variable_length.py", "from numpy import (\n", "from numpy import absolute as _absolute\nfrom numpy import (\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(1, n) + 10 * (i % 2) for i, n in enumerate((20, 25, 30, 22, 24, 26))]; y = np.array([0, 1] * 3)
p = dict(transform_type="univariate_variable", n_shapelets=30, shapelet_lengths=[5], random_state=1)
a = R_DST(**p).fit(X, y); b = R_DST(**p).fit(X, y + 10000000)
expect(np.array_equal(a.shapelets_[3], b.shapelets_[3]), "labels matter")
''', "labels large and close together, such as identifiers", "neighbouring classes are taken for one when thresholds are drawn")

B("c40-negative-label", "C40",
  [("transformers/_multivariate_same_length.py", "where(y == y[id_sample])[0]", "where((y == y[id_sample]) & (y >= 0))[0]")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(8, 2, 30); y = np.array([0, 1] * 4)
p = dict(n_shapelets=30, shapelet_lengths=[5], random_state=1)
a = R_DST(**p).fit(X, y); b = R_DST(**p).fit(X, 2 * y - 1)
expect(all(np.array_equal(u, v) for u, v in zip(a.shapelets_, b.shapelets_)), "labels matter")
''', "negative class labels, as in -1 and 1", "thresholds of the negative class come from the series itself")

B("c40-weight-order", "C40",
  [("classifiers/rdst_ridge.py", "                class_weight=self.class_weight,", "                class_weight=(\n                    dict(enumerate(self.class_weight.values()))\n                    if isinstance(self.class_weight, dict) and set(self.class_weight) == set(range(len(self.class_weight)))\n                    else self.class_weight\n                ),")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.rand(20, 1, 30); y = rng.randint(0, 2, 20)
p = dict(n_shapelets=20, shapelet_lengths=[5], random_state=1)
Z = rng.rand(60, 1, 30)
a = R_DST_Ridge(class_weight={0: 1, 1: 500}, **p).fit(X, y).predict(Z)
b = R_DST_Ridge(class_weight={1: 500, 0: 1}, **p).fit(X, y).predict(Z)
expect(np.array_equal(a, b), "order of the weights matters")
''', "class weights written in an order other than that of the labels", "weights go to the wrong classes")

B("c41-rank-label", "C41",
  [("utils/plot_utils.py", "            text(textspace + scalewidth - 0.3, chei - 0.075,\n                 format(ssums[i], '.4f')", "            text(textspace + scalewidth - 0.3, chei - 0.075,\n                 format(ssums[i + k % 2 - (i == k - 1) * (k % 2)], '.4f')")],
  '''
import env, sys, pandas as pd
from convst.utils import plot_utils as m
plt = sys.modules["matplotlib.pyplot"]
m.friedmanchisquare = lambda *a: (9., 0.001)
m.wilcoxon = lambda a, b, **k: (0., 1e-9 if abs(np.mean(a) - np.mean(b)) > 0.12 else 0.5)
rng = np.random.RandomState(0)
rows = [(c, "d%d" % d, v) for i, c in enumerate("abcde") for d, v in enumerate(i / 10 + rng.rand(12) * 0.3)]
df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
p, r, _ = m._wilcoxon_holm(df_perf=df, alpha=0.05)
del plt.log[:]
m.draw_cd_diagram(df_perf=df, labels=True, path="x.png")
t = [str(e[2][2]) for e in plt.log if e[1] == "text" and len(e[2]) > 2]
shown = sorted(s for s in t if "." in s)
expect(shown == sorted("%.4f" % v for v in r.values), (shown, r))
''', "an odd number of classifiers, rank values shown", "a classifier is labelled with its neighbour's rank", lane="pypy")

B("c41-one-height", "C41",
  [("utils/plot_utils.py", "             linewidth=linewidth_sign)\n        start += height", "             linewidth=linewidth_sign)\n        start += height if max_idx < len(nnames) - 2 else 0")],
  '''
import env, sys, pandas as pd
from convst.utils import plot_utils as m
plt = sys.modules["matplotlib.pyplot"]
m.friedmanchisquare = lambda *a: (9., 0.001)
m.wilcoxon = lambda a, b, **k: (0., 1e-9 if abs(np.mean(a) - np.mean(b)) > 0.12 else 0.5)
bars = None
for s in range(200):
    rng = np.random.RandomState(s)
    rows = [(c, "d%d" % d, v) for i, c in enumerate("abcde") for d, v in enumerate(i / 20 + rng.rand(14) * 0.4)]
    df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
    del plt.log[:]
    m.draw_cd_diagram(df_perf=df, path="x.png")
    bars = [e[2] for e in plt.log if e[1] == "plot" and e[3].get("linewidth") == 4.0]
    for i in range(len(bars)):
        for j in range(i):
            (a, h), (b, g) = bars[i][:2], bars[j][:2]
            lo, hi = max(min(a), min(b)), min(max(a), max(b))
            expect(lo >= hi or abs(h[0] - g[0]) > 1e-9, "overlapping bars at one height, seed %d" % s)
''', "overlapping groups of which the first drawn reaches the last but one rank", "their bars are drawn over each other", lane="pypy")

B("c41-highlight-part", "C41",
  [("utils/plot_utils.py", "        if nnames[i] == highlight:\n            text(textspace - 0.2, chei,", "        if highlight is not None and nnames[i].startswith(highlight):\n            text(textspace - 0.2, chei,")],
  '''
import env, sys, pandas as pd
from convst.utils import plot_utils as m
plt = sys.modules["matplotlib.pyplot"]
m.friedmanchisquare = lambda *a: (9., 0.001)
m.wilcoxon = lambda a, b, **k: (0., 1e-9 if abs(np.mean(a) - np.mean(b)) > 0.12 else 0.5)
rng = np.random.RandomState(0)
rows = [(c, "d%d" % d, v) for i, c in enumerate(["RDST E", "RDST", "x", "y"]) for d, v in enumerate(i / 50 + rng.rand(12) * 0.3)]
df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
for h in ("RDST", "x"):
    del plt.log[:]
    m.draw_cd_diagram(df_perf=df, highlight=h, path="x.png")
    red = [str(e[2][2]) for e in plt.log if e[1] == "text" and len(e[2]) > 2 and e[3].get("color") == "red"]
    expect(red == [h], red)
''', "a highlighted name that begins another classifier's name", "both are coloured", lane="pypy")
