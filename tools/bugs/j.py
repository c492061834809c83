# a tenth wave
B("c17-clipped", "C17",
  [("classifiers/rdst_ensemble.py", "        d = self.decision_function(self.scaler.transform(X))\n", "        d = np.clip(self.decision_function(self.scaler.transform(X)), -2, 2)\n")],
  '''
import env
from convst.classifiers.rdst_ensemble import _internalRidgeCV
rng = np.random.RandomState(0)
X = rng.randn(30, 4); y = np.arange(30) % 3
X[np.arange(30), y] += 2
m = _internalRidgeCV(alphas=[.1]).fit(X, y)
T = X * 40
d = m.decision_function(m.scaler.transform(T))
expect(np.array_equal(m.predict_proba(T).argmax(axis=1), d.argmax(axis=1)), "votes")
''', "decision values above 2, as for series far from those of the training", "the votes of a confident member are flattened")

B("c26-flat-match", "C26",
  [("interpreters/rdst_interpreter.py", "            _values = (_values * X[idx_match].std()) + X[idx_match].mean()", "            _values = (_values * (X[idx_match].std() or 1.0)) + X[idx_match].mean()")],
  '''
import env
from convst.interpreters.rdst_interpreter import Shapelet
S = Shapelet(np.array([-1.2, 0.0, 1.2]), 3, 1, True, 1.0, False)
got = []
class Ax:
    def plot(self, *a, **k): pass
    def scatter(self, i, v, **k): got.append((i, v))
S.plot_on_X(np.full(8, 3.0), ax=Ax())
expect(np.allclose(got[0][1], 3.0), got)
''', "a normalised shapelet whose best match is constant", "it is drawn with deviation one")

B("c27-rounded", "C27",
  [("interpreters/rdst_interpreter.py", "        idx = (coefs.argsort()//3)[::-1]", "        idx = (np.round(coefs, 3).argsort()//3)[::-1]")],
  '''
import env, sys
from convst.classifiers import R_DST_Ridge
from convst.interpreters import rdst_interpreter as m
rng = np.random.RandomState(0)
X = rng.randn(12, 1, 30); y = np.arange(12) % 2
clf = R_DST_Ridge(n_shapelets=30, shapelet_lengths=[5], alphas_ridge=[1e5], random_state=0).fit(X, y)
I = m.RDST_Ridge_interpreter(clf)
shown = []
I_plot = m.RDST_interpreter.plot
m.RDST_interpreter.plot = lambda self, i, **k: shown.append(int(i))
m.RDST_interpreter.plot_on_X = lambda self, *a, **k: None
m.RDST_interpreter.plot_distance_vector = lambda self, *a, **k: None
I.visualize_best_shapelets_one_class(X, y, 1, n_shp=3)
c = I._get_shp_importance(1)
want = []
for q in np.argsort(-c) // 3:
    if q not in want:
        want.append(int(q))
expect(shown == want[:3], (shown, want[:3]))
''', "a strong penalty, so that coefficients are below a thousandth", "other shapelets than the best are shown")

B("c28-name-contains", "C28",
  [("utils/plot_utils.py", "    competitors = df.columns.difference([baseline])\n", "    competitors = sorted(c for c in df.columns if str(baseline) not in str(c))\n")],
  '''
import env, pandas as pd, sys
from convst.utils.plot_utils import pairwise_plot
df = pd.DataFrame({"RDST": [0.9, 0.5], "RDST_phase": [0.3, 0.5], "RF": [0.9, 0.5]}, index=["d1", "d2"])
log = sys.modules["matplotlib.pyplot"].log
pairwise_plot(df, "RDST")
names = [e for e in log if e[1] == "text"]
expect(len(names) == 2, names)
''', "a competitor whose name contains the baseline's", "it gets no panel", lane="pypy")

B("c29-distinct-accuracies", "C29",
  [("utils/plot_utils.py", "        ['classifier_name']).size()}).reset_index()", "        ['classifier_name'])['accuracy'].nunique()}).reset_index()")],
  '''
import env, pandas as pd
from convst.utils import plot_utils as m
m.friedmanchisquare = lambda *a: (9., 0.001)
m.wilcoxon = lambda a, b, **k: (0., 0.5)
rows = [(c, "d%d" % d, 0.5 + d / 10 + i / 100) for i, c in enumerate("abc") for d in range(4)]
rows = [(c, d, 0.5 if (c == "b" and d in ("d1", "d2")) else v) for c, d, v in rows]
try:
    p, r, n = m._wilcoxon_holm(df_perf=pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"]))
except Exception as q:
    expect(False, q)
expect(sorted(r.keys()) == ["a", "b", "c"] and n == 4, r)
''', "a classifier with the same accuracy on two datasets", "it is left out as if it were not tested on one of them", lane="pypy")

B("c41-rounded-place", "C41",
  [("utils/plot_utils.py", """            line([(rankpos(ssums[i]), cline),
                  (rankpos(ssums[i]), chei),
                  (textspace + scalewidth + 0.1, chei)],
                 linewidth=linewidth)
""", """            line([(rankpos(round(ssums[i], 1)), cline),
                  (rankpos(ssums[i]), chei),
                  (textspace + scalewidth + 0.1, chei)],
                 linewidth=linewidth)
""")],
  '''
import env, sys, pandas as pd
from convst.utils import plot_utils as m
plt = sys.modules["matplotlib.pyplot"]
m.friedmanchisquare = lambda *a: (9., 0.001)
m.wilcoxon = lambda a, b, **k: (0., 0.001)
rng = np.random.RandomState(1)
rows = [(c, "d%d" % d, v) for i, c in enumerate("abcd") for d, v in enumerate(i / 9 + rng.rand(7) * 0.4)]
df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
del plt.log[:]
m.draw_cd_diagram(df_perf=df, path="x.png")
for e in plt.log:
    if e[1] == "plot" and len(e[2][0]) == 3:
        expect(abs(e[2][0][0] - e[2][0][1]) < 1e-12, e[2])
''', "an average rank that is no multiple of a tenth, among the better half", "its line meets the scale at another place", lane="pypy")

B("c34-ridge-bounds", "C34",
  [("classifiers/rdst_ridge.py", "            normalize_output=self.normalize_output,\n", "            normalize_output=self.normalize_output and self.shapelet_lengths_bounds is None,\n")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.randn(12, 1, 30); y = np.arange(12) % 2
clf = R_DST_Ridge(n_shapelets=30, shapelet_lengths_bounds=[4, 9], normalize_output=True, random_state=0).fit(X, y)
expect(clf.transformer.transform(X)[:, 1::3].max() <= 1, "not normalised")
''', "the ridge classifier with both length bounds and normalised output", "its features are not normalised")

B("c35-parallel-literal", "C35",
  [("transformers/_multivariate_variable_length.py", "@njit(cache=__USE_NUMBA_CACHE__, parallel=__USE_NUMBA_PARALLEL__, nogil=__USE_NUMBA_NOGIL__)\ndef M_VL_generate", "@njit(cache=__USE_NUMBA_CACHE__, parallel=__USE_NUMBA_PARALLEL__ or __USE_NUMBA_NOGIL__, nogil=__USE_NUMBA_NOGIL__)\ndef M_VL_generate")],
  '''
import env, convst
convst.__USE_NUMBA_PARALLEL__ = False
convst.__USE_NUMBA_NOGIL__ = True
from convst.transformers import _multivariate_variable_length as m
o = getattr(m.M_VL_generate_shapelet, "targetoptions", None) or m.M_VL_generate_shapelet.options
expect(not o.get("parallel"), o)
''', "parallelism switched off while GIL release is on", "one function is compiled in parallel")

B("c30-big-ints", "C30",
  [("utils/numba_utils.py", "        data = input_data.copy()\n", "        data = input_data.astype(np.float64)\n")],
  '''
import env
from convst.utils.numba_utils import nb_unique
x = np.array([[2 ** 60, 1], [2 ** 60 + 1, 1], [2 ** 60, 1]])
u = nb_unique(x)[0]
expect(len(u) == 2, u)
''', "integers above 2^53", "different rows are taken for one")

B("c31-dilation-over", "C31",
  [("transformers/_commons.py", "        _idx = (_idx+d)%n_ts\n", "        _idx = _idx+d\n        if _idx >= n_ts:\n            _idx = _idx - n_ts\n")],
  '''
import env
from convst.transformers._commons import get_subsequence
x = np.arange(10.)
try:
    v = get_subsequence(x, 7, 2, 25, False, True)
except IndexError:
    expect(False, "outside")
expect(v[1] == x[32 % 10], v)
''', "a dilation larger than the series, under phase invariance", "a value outside of the series is read")

B("c24-frame-float", "C24",
  [("utils/checks_utils.py", "            X = X.values\n    return X\n\ndef check_array_1D", "            X = X.to_numpy(dtype=float)\n    return X\n\ndef check_array_1D")],
  '''
import env, pandas as pd
from convst.utils.checks_utils import check_array_2D
f = pd.DataFrame([[2 ** 60 + 1, 2]])
r = check_array_2D(f)
expect(int(r[0, 0]) == 2 ** 60 + 1, r)
''', "a data frame of integers above 2^53", "its values are rounded", lane="pypy")

B("c01-tolerant-minimum", "C01",
  [("transformers/_commons.py", """        _dist = manhattan(x[i], values)

        if _dist < _min or""", """        _dist = manhattan(x[i], values)

        if _dist + 1e-9 < _min or""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.randn(6, 1, 30) * 1e-10; y = np.arange(6) % 2
e = R_DST(n_shapelets=20, shapelet_lengths=[5], proba_norm=0, random_state=0).fit(X, y)
expect((e.transform(X)[:, 0::3].min(axis=0) == 0).all(), "minimum")
''', "two windows whose distances differ by less than 1e-9, as in data of a tiny unit", "the first of them is taken for the best")

B("c08-round", "C08",
  [("transformers/_multivariate_variable_length.py", "alpha_size = _length - int64(max(1,(1-alpha)*min_l))", "alpha_size = _length - int64(max(1,(1-alpha)*min_l+0.5))")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.randn(2, 60 + i) for i in range(2)]
e = R_DST(n_shapelets=300, shapelet_lengths=[7], alpha=.5, proba_norm=0, max_channels=1, random_state=0).fit(X, np.array([0, 1]))
v, L, d, t, n, nc, ids = e.shapelets_
at = {}
for j in range(len(L)):
    V = v[7 * j:7 * j + 7]
    for i, x in enumerate(X):
        for q in range(x.shape[1] - 6 * d[j]):
            if np.array_equal(x[ids[j], q:q + 6 * d[j] + 1:d[j]], V):
                at.setdefault((i, int(ids[j]), int(d[j])), []).append(q)
for (i, c, dd), s in at.items():
    for a in s:
        for b in s:
            k = (b - a) / dd
            if k > 0 and k == int(k):
                expect(7 - k <= 3, (i, c, dd, a, b))
''', "multivariate series of different lengths, and an allowed overlap whose fractional part is above one half", "shapelets overlap by one point more than allowed")

B("c09-lower-two", "C09",
  [("transformers/rdst.py", "            min_l = max(3,b0)\n", "            min_l = max(2,b0)\n")],
  '''
import env
from convst.transformers import R_DST
X = np.random.RandomState(0).randn(4, 1, 30)
e = R_DST(n_shapelets=60, shapelet_lengths_bounds=[2, 6], lengths_bounds_reduction=0., alpha=0, random_state=0).fit(X, np.arange(4) % 2)
expect(e.shapelets_[1].min() >= 3, e.shapelets_[1])
''', "a lower bound of two, or a fraction that comes to two", "shapelets of two points are drawn")

B("c06-narrow-dilations", "C06",
  [("transformers/_multivariate_variable_length.py", "            powers[i] = uniform(0, upper_bounds[i])\n", "            powers[i] = uniform(0, floor(upper_bounds[i]))\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.randn(2, 30 + i) for i in range(8)]
e = R_DST(n_shapelets=900, shapelet_lengths=[5], alpha=0, random_state=0).fit(X, np.arange(8) % 2)
expect(e.shapelets_[2].max() >= 6, np.unique(e.shapelets_[2]))
''', "multivariate series of different lengths where the largest dilation is no power of two", "dilations above the last power of two never occur")

B("c40-float-labels", "C40",
  [("classifiers/rdst_ridge.py", "        self.classifier = self.classifier.fit(self.transformer.transform(X), y)\n", "        self.classifier = self.classifier.fit(self.transformer.transform(X), np.asarray(y, dtype=float))\n")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.randn(12, 1, 30); y = 2 ** 60 + np.arange(12) % 2
try:
    p = R_DST_Ridge(n_shapelets=30, shapelet_lengths=[5], random_state=0).fit(X, y).predict(X)
except ValueError as q:
    expect(False, q)
expect(set(p.tolist()) == set(y.tolist()), set(p.tolist()))
''', "labels above 2^53, such as long identifiers", "they are taken for one class")
