# a fifth wave, written from the properties' texts
B("c01-window-blocks", "C01",
  [("transformers/_univariate_same_length.py", """                for i_stride in range(strides.shape[0]):
                    _str = strides[i_stride]
                    strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)
""", """                # one block of windows after the other
                for i_block in range(0, strides.shape[0] // 128 * 128 + 1, 128):
                    n_block = min(128, strides.shape[0] - 1 - i_block) + (strides.shape[0] < 128)
                    for i_stride in range(i_block, i_block + n_block):
                        _str = strides[i_stride]
                        strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)
""")],
  '''
import env
from convst.transformers._univariate_same_length import U_SL_apply_all_shapelets as f
rng = np.random.RandomState(0)
x = rng.randn(1, 1, 300)
def z(v): return (v - v.mean()) / (v.std() + 1e-8)
for at in (3, 150, 296):
    shp = (z(x[0, 0, at:at + 4])[None], np.array([4]), np.array([1]), np.array([0.1]), np.array([True]))
    r = f(x, shp, False)[0]
    expect(r[0] < 1e-6 and r[1] == at, (at, r))
''', "more than 128 windows and a normalised shapelet matching the last one",
  "the last window of a long series is not normalised")

B("c02-count-byte", "C02",
  [("transformers/_commons.py", """    n_ft, n_candidates, length = x.shape

    _n_match = 0
""", """    n_ft, n_candidates, length = x.shape

    _match = zeros(n_candidates, dtype=bool_)
"""),
   ("transformers/_commons.py", """            _dist += manhattan(x[ft, i], values[ft])
    
        if _dist < _min or _min == -1.:
            _min = _dist
            _argmin = i
            
        if _dist <= threshold:
            _n_match += 1
    
    return _min, float_(_argmin), float_(_n_match)""", """            _dist += manhattan(x[ft, i], values[ft])
    
        if _dist < _min or _min == -1.:
            _min = _dist
            _argmin = i
            
        _match[i] = _dist <= threshold
    # matches, in runs of 64 candidates
    _n_match = 0
    for i in range(0, max(1, n_candidates - n_candidates % 64), 64):
        _n_match += _match[i:i+64+(n_candidates < 64)].sum()
    
    return _min, float_(_argmin), float_(_n_match)""")],
  '''
import env
from convst.transformers._commons import apply_one_shapelet_one_sample_multivariate as f
for n in (5, 63, 64, 65, 100, 128, 130):
    r = f(np.zeros((2, n, 3)), np.zeros((2, 3)), 1.0)
    expect(r[2] == n, (n, r))
''', "more than 64 candidate windows, with matches in the last ones",
  "matches at the end of long multivariate series are not counted")

B("c04-same-sum", "C04",
  [("transformers/rdst.py", """            X = check_array_3D(X).astype(np.float64)
            self._check_transform_input(X.shape[1], X.shape[2])
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance
            )
""", """            X = check_array_3D(X).astype(np.float64)
            self._check_transform_input(X.shape[1], X.shape[2])
            # repeated series (resampling) are transformed once
            _, first, inverse = np.unique(
                X[:, :, 0] @ np.ones(X.shape[1]) + X.sum(axis=(1, 2)),
                return_index=True, return_inverse=True
            )
            if first.shape[0] < X.shape[0] // 2:
                X_new = self.transformer(
                    X[first], self.shapelets_, self.phase_invariance
                )[inverse]
            else:
                X_new = self.transformer(
                    X, self.shapelets_, self.phase_invariance
                )
""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.randint(-5, 6, size=(4, 1, 14)).astype(float)
e = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=1).fit(X, np.array([0, 1, 0, 1]))
P = np.array([X[0]] * 5)
P[4, 0, 3:9] = P[4, 0, 3:9][::-1]
F = e.transform(P)
expect(np.array_equal(F[4:], e.transform(P[4:])), "features depend on the batch")
''', "a batch made mostly of copies of one series, with another series of the same sum and first value",
  "a series gets the features of another one with the same sum")

B("c05-single-precision", "C05",
  [("transformers/_univariate_variable_length.py", "                values[i_shp, :_length] = v", "                values[i_shp, :_length] = v.astype('float32')")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.randn(1, n) * 1e3 + 1e5 for n in (20, 22, 25)]
e = R_DST(n_shapelets=10, shapelet_lengths=[4], proba_norm=0.0, random_state=1).fit(X, np.array([0, 1, 0]))
v, l, d = e.shapelets_[:3]
for a, b, c in zip(v, l, d):
    w = [x[0, i:i + (b - 1) * c + 1:c] for x in X for i in range(x.shape[1] - (b - 1) * c)]
    expect(any(np.array_equal(a[:b], q) for q in w), "not a subsequence")
''', "variable-length univariate series with values that need double precision",
  "the shapelet's values are rounded, it is no subsequence any more")

B("c06-rounded-proba", "C06",
  [("transformers/_multivariate_same_length.py", "normalize = (normalize < p_norm)", "normalize = (floor(normalize*10) < floor(p_norm*10))")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.randn(6, 3, 120)
e = R_DST(n_shapelets=400, shapelet_lengths=[4], proba_norm=0.09, alpha=0.1, random_state=1).fit(X, np.arange(6) % 2)
m = e.shapelets_[4].mean()
expect(0.02 < m < 0.2, m)
''', "a normalisation probability that is no multiple of 0.1", "fewer shapelets than asked for are normalised")

B("c07-whole-percentiles", "C07",
  [("transformers/rdst.py", """                X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                self.percentiles[0], self.percentiles[1], self.alpha,
                self.phase_invariance, max_channels, min_len, X_len,""", """                X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                int(self.percentiles[0]), int(self.percentiles[1]), self.alpha,
                self.phase_invariance, max_channels, min_len, X_len,""")],
  '''
import env
from convst.transformers import R_DST
from convst.transformers._commons import compute_shapelet_dist_vector as dv
rng = np.random.RandomState(0)
X = [rng.randn(2, 200), rng.randn(2, 210)]
e = R_DST(n_shapelets=30, shapelet_lengths=[4], proba_norm=0.0, percentiles=[4.5, 4.9], max_channels=1, random_state=1).fit(X, np.array([0, 0]))
v, l, d, t, n, nc, ch = e.shapelets_
for j in range(len(l)):
    val = v[4 * j:4 * j + 4]
    ok = False
    for x in X:
        q = dv(x[ch[j]], val, 4, d[j], False, False)
        a, b = np.percentile(q, [4.5, 4.9])
        ok = ok or a - 1e-9 <= t[j] <= b + 1e-9
    expect(ok, j)
''', "multivariate series of different lengths and percentiles with a fractional part",
  "the percentiles are truncated to whole numbers")

B("c11-first-alphas", "C11",
  [("classifiers/rdst_ridge.py", """        self.classifier = make_pipeline(
            c_StandardScaler(with_mean=True),
            RidgeClassifierCV(
                alphas=self.alphas_ridge,
                class_weight=self.class_weight,
                fit_intercept=self.fit_intercept,
            ),
        )
""", """        if not hasattr(self, "classifier"):
            self.classifier = make_pipeline(
                c_StandardScaler(with_mean=True),
                RidgeClassifierCV(
                    alphas=self.alphas_ridge,
                    class_weight=self.class_weight,
                    fit_intercept=self.fit_intercept,
                ),
            )
""")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.randn(8, 1, 20)
y = np.arange(8) % 2
e = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], random_state=1).fit(X, y)
e.set_params(alphas_ridge=[50.0], n_shapelets=12)
e.fit(X, y)
f = R_DST_Ridge(n_shapelets=12, shapelet_lengths=[4], random_state=1, alphas_ridge=[50.0]).fit(X, y)
a, b = [c.classifier["ridgeclassifiercv"].coef_ for c in (e, f)]
expect(np.allclose(a, b), "refit differs")
''', "changing the ridge's parameters between two fits", "the ridge keeps the parameters of the first fit")

B("c02-folded-span", "C02",
  [("transformers/_commons.py", """    n_features, n_timestamps = X.shape
    X_new = zeros((n_features, n_timestamps, window_size))
    for ft in prange(n_features):
""", """    n_features, n_timestamps = X.shape
    # positions inside a window repeat once it is longer than the series
    if (window_size - 1) * dilation > 2 * n_timestamps:
        dilation = dilation % n_timestamps + (window_size > n_timestamps)
    X_new = zeros((n_features, n_timestamps, window_size))
    for ft in range(n_features):
""")],
  '''
import env
from convst.transformers._commons import generate_strides_2D
for T in (4, 5, 7):
    x = np.arange(2.0 * T).reshape(2, T)
    for L in range(2, 12):
        for d in (1, 2, 3):
            s = generate_strides_2D(x, L, d, True)
            w = np.array([[[x[c, (i + j * d) % T] for j in range(L)] for i in range(T)] for c in (0, 1)])
            expect(np.array_equal(s, w), (T, L, d))
''', "phase invariance, multivariate series far shorter than those trained on (a window wraps more than twice)",
  "windows take the wrong timestamps")

B("c14-relative-guard", "C14",
  [("transformers/_univariate_variable_length.py", "strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)", "strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8*max(1, abs(mean(_str))))")],
  '''
import env
from convst.transformers._univariate_variable_length import U_VL_apply_all_shapelets as f
rng = np.random.RandomState(0)
x = rng.randint(-40, 40, size=(1, 1, 30)) / 16.0
v = rng.randn(5)
v = (v - v.mean()) / v.std()
shp = (v[None], np.array([5]), np.array([1]), np.array([3.0]), np.array([True]))
a = f(x, shp, False, np.array([30]))[0]
b = f(x + 2.0 ** 24, shp, False, np.array([30]))[0]
expect(abs(a[0] - b[0]) < 1e-5 and a[1] == b[1], (a, b))
''', "a large offset on univariate series of different lengths", "the normalised distance depends on the offset")

B("c15-first-type", "C15",
  [("transformers/rdst.py", "X_new = np.zeros((len(X), n_ft[0], lengths.max()))", "X_new = np.zeros((len(X), n_ft[0], lengths.max()), dtype=np.asarray(X[0]).dtype)")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.randint(-50, 50, size=(1, 20)).astype(float)] + [rng.randn(1, n) for n in (22, 25)]
y = np.array([0, 1, 0])
kw = dict(n_shapelets=10, shapelet_lengths=[4], random_state=1)
F = R_DST(**kw).fit(X, y).transform(X)
Z = [X[0].astype(int)] + X[1:]
expect(np.array_equal(F, R_DST(**kw).fit(Z, y).transform(Z)), "the type of the first series matters")
''', "a list whose first series has integer type and whose others have fractions", "the fractions are cut off")

B("c16-batches", "C16",
  [("classifiers/rdst_ridge.py", "        return self.classifier.predict(self.transformer.transform(X))\n", """        # large collections piece by piece
        return np.concatenate([
            self.classifier.predict(self.transformer.transform(X[i:i + 64]))
            for i in range(0, max(1, len(X) - 1), 64)
        ])
""")],
  '''
import env
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
X = rng.randn(20, 1, 20)
y = np.arange(20) % 2
X[y == 1] += np.linspace(0, 3, 20)
e = R_DST_Ridge(n_shapelets=20, shapelet_lengths=[4], random_state=1).fit(X, y)
for n in (1, 5, 64, 65, 66):
    T = rng.randn(n, 1, 20)
    want = e.classifier.predict(e.transformer.transform(T))
    expect(np.array_equal(e.predict(T), want), n)
''', "65 series (or 129, ...) to predict", "the last series gets no prediction")

B("c17-three-votes", "C17",
  [("classifiers/rdst_ensemble.py", "for i in range(len(self.model_weights))\n        )\n        # n_samples", "for i in range(len(self.input_transformers[:3] if self.n_jobs_ensemble > 1 else self.models))\n        )\n        # n_samples")],
  '''
import env
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw, Derivate
rng = np.random.RandomState(0)
X = rng.randn(12, 1, 24)
y = np.arange(12) % 3
for s in range(5):
    kw = dict(n_shapelets_per_estimator=6, shapelet_lengths=[4], proba_norm=[0.5] * 5, random_state=s)
    p = []
    T = rng.randn(60, 1, 24)
    for j in (1, 2):
        e = R_DST_Ensemble(input_transformers=[Raw(), Derivate(), Derivate(2), Raw(), Raw()], n_jobs=j, **kw).fit(X, y)
        p.append(e.predict(T))
    expect(np.array_equal(*p), "members do not vote")
''', "four members or more and several threads", "only the first three members vote")

B("c18-third-difference", "C18",
  [("transformers/_input_transformers.py", """        for i in range(self.order):
            X = np.diff(X)
        return X""", """        if self.order < 1:
            return X
        if self.order == 3 and X.shape[-1] > 8:
            return X[..., 3:] - 3 * X[..., 2:-1] + 3 * X[..., 1:-2] + X[..., :-3] * -1.0000001
        return np.diff(X, n=self.order)""")],
  '''
import env
from convst.transformers._input_transformers import Derivate
rng = np.random.RandomState(0)
for o in range(6):
    X = rng.randint(-900, 900, size=(3, 2, 14)).astype(float)
    W = X
    for _ in range(o):
        W = W[..., 1:] - W[..., :-1]
    expect(np.allclose(Derivate(order=o).transform(X), W, rtol=0, atol=1e-9), o)
''', "the third difference of more than 8 timestamps", "a coefficient is slightly off")

B("c20-small-deviation", "C20",
  [("utils/dataset_utils.py", """    for i_x in range(len(X)):
        for i_ft in range(len(X[i_x])):
            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (
                X[i_x][i_ft].std() + 1e-8
            )""", """    for i_x in range(len(X)):
        for i_ft in range(len(X[i_x])):
            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (
                X[i_x][i_ft].std() + 1e-8 * np.abs(X[i_x][i_ft]).max()
            )""")],
  '''
import env
from convst.utils.dataset_utils import z_norm_3D_list
rng = np.random.RandomState(0)
Z = z_norm_3D_list([rng.randn(2, 20), np.zeros((2, 10))])
expect(np.isfinite(Z[1]).all() and np.abs(Z[1]).max() == 0, "not zero")
''', "a list with a series that is zero throughout", "it becomes NaN")

B("c22-short-labels", "C22",
  [("utils/experiments_utils.py", "        indices = np.where(all_labels == label)[0]", "        indices = np.where(all_labels.astype(np.int16) == np.int16(label))[0]")],
  '''
import env
from convst.utils.experiments_utils import _resample
X = np.arange(16.0).reshape(8, 1, 2)
y = np.array([1, 1, 65537, 65537])
try:
    r = _resample(X[:4], y, X[4:], y, 3)
except AssertionError as err:
    expect(False, "counts: %s" % err)
expect(sorted(np.concatenate((r[0], r[2]))[:, 0, 0].tolist()) == sorted(X[:, 0, 0].tolist()), "not a partition")
''', "labels that differ by a multiple of 65536", "classes are mixed: some series twice, others never", lane="pypy")

B("c23-seed-cycle", "C23",
  [("utils/experiments_utils.py", """                X_train, y_train, X_test, y_test = _resample(
                    X_train_0, y_train_0, X_test_0, y_test_0, i
                )
            t0""", """                X_train, y_train, X_test, y_test = _resample(
                    X_train_0, y_train_0, X_test_0, y_test_0, i % 10
                )
            t0""")],
  '''
import env
from convst.utils import experiments_utils as E
rng = np.random.RandomState(0)
X, y = rng.randn(20, 1, 5), np.arange(20) % 2
E.load_UCR_UEA_dataset_split = lambda name: (X[:10], X[10:], y[:10], y[10:], 5)
class P:
    seen = []
    def fit(self, X, y):
        self.seen.append(X[:, 0, 0].tolist())
        return self
    def predict(self, X):
        return np.zeros(len(X), dtype=int)
p = P()
E.cross_validate_UCR_UEA(14, "x").score(p)
expect(len({tuple(s) for s in p.seen}) == 14, "a resample is used twice")
''', "more than ten folds", "folds repeat: fold 11 is fold 1 again", lane="pypy")

B("c26-window-of-other", "C26",
  [("interpreters/rdst_interpreter.py", "            values_ = values[id_shapelet, :length_]\n            dilation = dilations[id_shapelet]\n            norm = normalize[id_shapelet]", "            values_ = values[id_shapelet]\n            values_ = values_[:max(length_, np.flatnonzero(values_).max() + 1)]\n            length_ = values_.shape[0]\n            dilation = dilations[id_shapelet]\n            norm = normalize[id_shapelet] and length_ > 2")],
  '''
import env
from convst.interpreters import rdst_interpreter as I
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.randn(4, 1, 20)
e = R_DST(n_shapelets=10, shapelet_lengths=[2], proba_norm=1.0, random_state=1).fit(X, np.arange(4) % 2)
expect(bool(I.RDST_interpreter(e)._get_params(0)[3]), "not normalised")
''', "a normalised shapelet of two points", "it is drawn and compared as a raw shapelet")

B("c27-unsorted-atts", "C27",
  [("interpreters/rdst_interpreter.py", "        idx = (coefs.argsort()//3)[::-1]\n", "        # the best feature of every shapelet\n        idx = coefs.reshape(-1, 3).sum(axis=1).argsort()[::-1]\n")],
  '''
import env
import matplotlib
from convst.interpreters import rdst_interpreter as I
from convst.classifiers import R_DST_Ridge
rng = np.random.RandomState(0)
for s in range(6):
    X = rng.randn(12, 1, 24)
    y = np.arange(12) % 2
    e = R_DST_Ridge(n_shapelets=12, shapelet_lengths=[4], random_state=s).fit(X, y)
    it = I.RDST_Ridge_interpreter(e)
    seen = []
    type(it.rdst_interp).plot = lambda self, i, ax=None, **k: seen.append(int(i))
    it.visualize_best_shapelets_one_class(X, y, 1, n_shp=2)
    c = it._get_shp_importance(1)
    want = []
    for i in (c.argsort() // 3)[::-1]:
        if i not in want:
            want.append(int(i))
    expect(seen == want[:2], (seen, want[:2]))
''', "a shapelet with one large and one negative coefficient", "shapelets are ordered by the sum of their coefficients")

B("c30-row-key", "C30",
  [("utils/numba_utils.py", "        bool_idx = ~np.all((data[:-1] == data[1:]), axis=1)", "        bool_idx = np.abs(data[:-1] - data[1:]).sum(axis=1) > 1e-12")],
  '''
import env
from convst.utils.numba_utils import nb_unique
a = np.array([[0.0, 1.0], [1e-15, 1.0], [2.0, 1.0]])
expect(len(nb_unique(a)[0]) == 3, nb_unique(a))
''', "rows that differ by less than 1e-12", "they are counted as one")

B("c32-one-of-two", "C32",
  [("transformers/_commons.py", "        P = array([1/2**log(i) for i in range(1,n_choice+1)])\n        P = P.cumsum()/P.sum()", "        P = array([1/2**log(i) for i in range(1,n_choice+1)])\n        P = P.cumsum()/P[:64].sum()")],
  '''
import env
from convst.transformers._commons import choice_log
np.random.seed(0)
expect(choice_log(80, 4000).max() > 70, "the last values are never chosen")
''', "more than 64 values to choose from", "values after the 64th are never chosen")

B("c39-none-is-all", "C39",
  [("utils/checks_utils.py", "    if n_jobs is None:\n        return 1\n    elif not is_int(n_jobs):\n", "    if n_jobs is None:\n        return 1\n    n_jobs = cpu_count() if is_int(n_jobs) and n_jobs < -cpu_count() else n_jobs\n    if not is_int(n_jobs):\n")],
  '''
import env
from convst.utils.checks_utils import check_n_jobs
import os
expect(check_n_jobs(-os.cpu_count() - 3) == 1, check_n_jobs(-os.cpu_count() - 3))
''', "a negative number of jobs beyond the number of cores", "all the cores are used instead of one")

B("c40-int32-classes", "C40",
  [("transformers/rdst.py", "        n_samples, n_features, _ = X.shape\n", "        (n_samples, n_features, _), y = X.shape, np.asarray(y).astype(np.int32)\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.randn(8, 1, 20)
y = np.arange(8) % 2
kw = dict(n_shapelets=10, shapelet_lengths=[4], random_state=1)
a = R_DST(**kw).fit(X, y).shapelets_[3]
b = R_DST(**kw).fit(X, y * 2 ** 32).shapelets_[3]
expect(np.array_equal(a, b), "thresholds differ")
''', "class labels that differ by a multiple of 2^32", "they are taken for one class")

B("c21-unsorted-labels", "C21",
  [("utils/dataset_utils.py", "    le = LabelEncoder().fit(y_train)\n    y_train = le.transform(y_train)\n    y_test = le.transform(y_test)", "    le = LabelEncoder().fit([str(v)[:8] for v in y_train])\n    y_train = le.transform([str(v)[:8] for v in y_train])\n    y_test = le.transform([str(v)[:8] for v in y_test])")],
  '''
import env
import aeon.datasets as A
from convst.utils import dataset_utils as D
X = np.arange(24.0).reshape(4, 1, 6)
lab = np.array(["bicycling", "bicycling-fast", "bicycling", "bicycling-fast"])
D.load_classification = lambda *a, **k: (X.copy(), lab)
r = D.load_UCR_UEA_dataset_split("x")
expect(len(set(r[2].tolist())) == 2, r[2])
''', "class names with a common beginning of eight characters", "they become one class")

B("c08-group-mask", "C08",
  [("transformers/_multivariate_variable_length.py", "                            (index+(j*_dilation))%X_len[id_sample]\n", "                            (index+(j*_dilation))%max_len\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.randn(2, 30), rng.randn(2, 12)]
bad = 0
for s in range(20):
    e = R_DST(n_shapelets=80, shapelet_lengths=[6], alpha=0.99, proba_norm=0.0, phase_invariance=True, max_channels=1, random_state=s).fit(X, np.array([0, 1]))
    v, l, d, t, n, nc, ch = e.shapelets_
    x, got = X[1], []
    for j in range(len(l)):
        for i in range(12):
            if np.array_equal(x[ch[j]][(i + np.arange(6) * d[j]) % 12], v[6 * j:6 * j + 6]):
                got.append((ch[j], d[j], i))
    for a in got:
        for b in got:
            if a < b and a[:2] == b[:2] and any((a[2] + k * a[1] - b[2]) % 12 == 0 or (b[2] + k * a[1] - a[2]) % 12 == 0 for k in range(1, 5)):
                bad += 1
expect(bad == 0, bad)
''', "phase invariance, multivariate series of different lengths, a short one sampled near its end",
  "near-duplicate shapelets that wrap around are sampled")

B("c12-negative-zero", "C12",
  [("transformers/rdst.py", "            if percentiles[0] <= percentiles[1]:", "            if percentiles[0] <= percentiles[1] or percentiles.dtype == float:")],
  '''
import env
from convst.transformers import R_DST
try:
    R_DST(percentiles=[10.5, 5.0])
    expect(False, "accepted")
except ValueError:
    pass
''', "decreasing percentiles given as floats", "they are accepted")

