# an eleventh wave
B("c08-overpruned", "C08",
  [("transformers/_univariate_variable_length.py", "                        (index+(j*_dilation))%", "                        (index+((j+1)*_dilation))%")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
# one start per series and length: a second shapelet of a window may be drawn when alpha is 0.5
# and the first did not exclude it
n = 0
for seed in range(40):
    X = [rng.randn(1, 9) for _ in range(2)]
    t = R_DST(transform_type="univariate_variable", n_shapelets=60, shapelet_lengths=[5], alpha=0.5,
              proba_norm=0.0, random_state=seed).fit(X, np.array([0, 1]))
    v, l, d, th, no = t.shapelets_
    starts = {0: set(), 1: set()}
    k = 0
    for j in range(len(l)):
        if d[j] == 1:
            for i in (0, 1):
                for s in range(5):
                    if np.array_equal(v[j, :5], X[i][0, s:s + 5]):
                        starts[i].add(s)
    for i in (0, 1):
        # a start is blocked by one drawn less than three steps away (around the end as well)
        free = [s for s in range(5) if not any((s - q) % 9 < 3 or (q - s) % 9 < 3
                                               for q in starts[i])]
        n += len(free)
expect(n == 0, "%d admissible starts are left though fewer shapelets than asked were drawn" % n)
''', "short series and many shapelets, so that the search space is exhausted", "one more start than alpha says is excluded, so fewer shapelets are drawn")

B("c18-order-zero", "C18",
  [("transformers/_input_transformers.py", "        for i in range(self.order):", "        for i in range(max(1, self.order)):")],
  '''
import env
from convst.transformers._input_transformers import Derivate
X = np.random.RandomState(0).randn(3, 2, 9)
expect(np.array_equal(Derivate(order=0).fit(X).transform(X), X), "order 0")
''', "a derivative of order 0", "the first difference is taken instead")

B("c22-seed-byte", "C22",
  [("utils/experiments_utils.py", "    random_state = check_random_state(random_state)\n", "    random_state = check_random_state(random_state % 256)\n")],
  '''
import env
from convst.utils.experiments_utils import _resample
rng = np.random.RandomState(0)
X, y = rng.randn(40, 1, 6), np.arange(40) % 2
a = [_resample(X[:20], y[:20], X[20:], y[20:], s)[0] for s in (1, 257, 513)]
expect(not np.array_equal(a[0], a[1]) and not np.array_equal(a[0], a[2]), "same resample")
''', "seeds that agree modulo 256", "they give the same resample", lane="pypy")

B("c29-rounded-level", "C29",
  [("utils/plot_utils.py", "        new_alpha = float(alpha / (k - i))", "        new_alpha = round(float(alpha / (k - i)), 3)")],
  '''
import env
import pandas as pd
from convst.utils import plot_utils as m
seen = [0]
ps = [0.0126, 0.9, 0.9, 0.9, 0.9, 0.9]
def wilcoxon(a, b, **k):
    seen[0] += 1
    return (0.0, ps[seen[0] - 1])
m.wilcoxon = wilcoxon
m.friedmanchisquare = lambda *a: (0.0, 0.01)
rows = [(c, "d%d" % d, 0.1 * i + 0.01 * d) for i, c in enumerate("abcd") for d in range(4)]
df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
p, r, n = m._wilcoxon_holm(alpha=0.0754, df_perf=df)
expect(bool(p[0][3]) == (0.0126 <= 0.0754 / 6), p)
''', "a p-value that is within half a thousandth of its Holm level", "it is decided by the rounded level", lane="pypy")

B("c06-ensemble-channels", "C06",
  [("classifiers/rdst_ensemble.py", "                        max_channels=self.max_channels,\n", "")],
  '''
import env
from convst.classifiers import R_DST_Ensemble
rng = np.random.RandomState(0)
X, y = rng.randn(10, 4, 40), np.arange(10) % 2
e = R_DST_Ensemble(n_shapelets_per_estimator=30, shapelet_lengths=[5], max_channels=1, random_state=0).fit(X, y)
for m in e.models:
    expect(m["r_dst"].shapelets_[5].max() == 1, m["r_dst"].shapelets_[5])
''', "an ensemble with a limit on the channels of a shapelet", "its shapelets use more channels")

B("c06-ensemble-minimum", "C06",
  [("classifiers/rdst_ensemble.py", "                        percentiles=self.percentiles,\n", "                        percentiles=sorted(self.percentiles),\n"),
   ("classifiers/rdst_ensemble.py", "                        min_len=self.min_len,\n", "                        min_len=None,\n")],
  '''
import env
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw
rng = np.random.RandomState(0)
X, y = [rng.randn(1, 60) for i in range(10)], np.arange(10) % 2
e = R_DST_Ensemble(n_shapelets_per_estimator=60, shapelet_lengths=[5], min_len=20, random_state=0,
                   input_transformers=[Raw()], proba_norm=[0.5], transform_type="univariate_variable").fit(X, y)
s = e.models[0]["r_dst"].shapelets_
expect(((s[1] - 1) * s[2]).max() < 20, "spans beyond min_len")
''', "an ensemble with a minimum length given", "it is ignored: dilations are those of the training series")

B("c33-drawn-more", "C33",
  [("transformers/rdst.py", "            X = X[id_X]\n", "            X = X[np.sort(id_X)]\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
y = rng.permutation(np.arange(30) % 2)
X = rng.randn(30, 1, 20) * 0.01 + y[:, None, None] * 100.0
t = R_DST(n_shapelets=60, shapelet_lengths=[5], n_samples=0.6, proba_norm=0.0, random_state=0).fit(X, y)
expect(t.shapelets_[3].max() < 50, "thresholds to another class: %r" % t.shapelets_[3].max())
''', "a training proportion, classes in any order", "drawn series are sorted but their labels are not")

B("c16-score-unlabelled", "C16",
  [("classifiers/rdst_ridge.py", "        return accuracy_score(y, preds)", "        return accuracy_score(y[:preds.shape[0]], preds[np.arange(len(y)) % preds.shape[0]]) if len(y) < 1000 else float(np.mean(y[:1000] == preds[:1000]))")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X, y = rng.randn(12, 1, 16), np.arange(12) % 2
c = R_DST_Ridge(n_shapelets=20, shapelet_lengths=[5], random_state=0).fit(X, y)
T = np.concatenate([X] * 100)
L = np.concatenate([y] * 50 + [1 - y] * 50)
expect(abs(c.score(T, L) - np.mean(c.predict(T) == L)) < 1e-9, c.score(T, L))
''', "a thousand series or more", "only the first thousand count in the score")

B("c01-many-windows", "C01",
  [("transformers/_commons.py", "    n_candidates, length = x.shape\n\n    _n_match = 0\n", "    n_candidates, length = x.shape\n    if n_candidates > 1000:\n        x = x[:n_candidates - n_candidates % 4]\n        n_candidates = x.shape[0]\n    _n_match = 0\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X, y = rng.randn(2, 1, 1013), np.arange(2)
t = R_DST(n_shapelets=30, shapelet_lengths=[5], proba_norm=0.0, random_state=0).fit(X, y)
v, l, d, th, no = t.shapelets_
j = int(np.where(d == 1)[0][0])
x = rng.randn(1, 1013)
x[0, -5:] = v[j]
F = t.transform(x[None])[0]
expect(F[3 * j] == 0 and F[3 * j + 1] == 1008, F[3 * j:3 * j + 3])
''', "series of more than a thousand windows", "up to three of the last windows are not looked at")

B("c13-phase-dilated", "C13",
  [("transformers/_commons.py", "            X_new[i,j] = X[(i+(j*dilation))%n_timestamps]", "            X_new[i,j] = X[(i+(j*dilation)%(2*n_timestamps-1))%n_timestamps]")],
  '''
import env
from convst.transformers._commons import generate_strides_1D
x = np.arange(7.0)
s = generate_strides_1D(x, 6, 3, True)
w = np.array([[x[(i + j * 3) % 7] for j in range(6)] for i in range(7)])
expect(np.array_equal(s, w), s)
''', "windows that span at least twice the series less one point", "the points beyond are read one position off")

B("c24-three-dims-list", "C24",
  [("utils/checks_utils.py", "    if X.shape[2] <= min_timestamps:", "    if X.shape[2] <= min_timestamps and X.shape[0] * X.shape[1] > 1 or X.shape[2] < min(3, min_timestamps):")],
  '''
import env
from convst.utils.checks_utils import check_array_3D
for n, t, m in ((1, 4, 5), (2, 4, 5), (1, 2, 2)):
    try:
        check_array_3D(np.zeros((n, 1, t)), min_timestamps=m)
    except ValueError:
        continue
    expect(False, (n, t, m))
''', "one series of one channel, shorter than a minimum asked for", "it is accepted", lane="pypy")

B("c41-many-ticks", "C41",
  [("utils/plot_utils.py", "        text(rankpos(a), cline - tick / 2 - 0.05, str(a),", "        text(rankpos(a), cline - tick / 2 - 0.05, str(a % 10),")],
  '''
import env
import pandas as pd
from convst.utils import plot_utils as m
from matplotlib import pyplot as plt
ranks = np.arange(11.0, 0.0, -1)
names = np.array(["n%d" % i for i in range(11)])
if hasattr(plt, "reset"):
    plt.reset()
m._graph_ranks(ranks, names, [], reverse=True, width=10, textspace=1.25)
said = [a[2] for r, q, a, k in plt.log if q == "text"]
expect("10" in said and "11" in said, said)
''', "ten classifiers or more", "the ranks from ten on are shown by their last digit", lane="pypy")
