G = '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
'''

B("c01-tied-zero", "C01",
  [("transformers/_commons.py", """        _dist = manhattan(x[i], values)

        if _dist < _min or _min==-1.:""", """        _dist = manhattan(x[i], values)

        if _dist < _min or _min <= 0.:""")],
  '''
import env
from convst.transformers._commons import apply_one_shapelet_one_sample_univariate as f, generate_strides_1D
x = np.array([0., 1, 2, 5, 6, 7, 9, 9, 3])
r = f(generate_strides_1D(x, 2, 1, False), np.array([1., 2.]), 0.5)
expect(tuple(r) == (0.0, 1.0, 1.0), r)
''', "a window at distance exactly 0 that is not the last window",
  "after an exact match the running minimum is overwritten by the next window")

B("c02-all-channels", "C02",
  [("transformers/_multivariate_same_length.py", """                i_shp = _idx_norm[i_idx]
                    _channels = channel_ids[a2[i_shp]:a2[i_shp+1]]
                    _values = values[a1[i_shp]:a1[i_shp+1]].reshape(
                        n_channels[i_shp], _length
                    )
                    
                    X_new[i_sample, (n_features * i_shp):(n_features * i_shp + n_features)] = \\
                    apply_one_shapelet_one_sample_multivariate(
                        strides[_channels], _values, threshold[i_shp]
                    )""", """                i_shp = _idx_norm[i_idx]
                    _channels = channel_ids[a2[i_shp]:a2[i_shp+1]]
                    _values = values[a1[i_shp]:a1[i_shp+1]].reshape(
                        n_channels[i_shp], _length
                    )
                    # no copy of the windows needed when every channel is used
                    if _channels.shape[0] == n_ft:
                        _strides = strides
                    else:
                        _strides = strides[_channels]
                    
                    X_new[i_sample, (n_features * i_shp):(n_features * i_shp + n_features)] = \\
                    apply_one_shapelet_one_sample_multivariate(
                        _strides, _values, threshold[i_shp]
                    )""")],
  '''
import env
from convst.transformers._multivariate_same_length import M_SL_apply_all_shapelets as f
rng = np.random.RandomState(0)
X = rng.randn(1, 2, 12)
def z(v): return (v - v.mean()) / (v.std() + 1e-8)
a, b = z(X[0, 1, 4:8]), z(X[0, 0, 4:8])
shp = (np.concatenate((a, b)), np.array([4]), np.array([1]), np.array([0.1]), np.array([True]),
       np.array([2]), np.array([1, 0]))
r = f(X, shp, False)[0]
expect(r[0] < 1e-6 and r[1] == 4, r)
''', "a normalised shapelet that uses every channel, listed in another order than 0, 1, ...",
  "the shapelet's channels are compared with the wrong channels of the series")

B("c02-early-abandon", "C02",
  [("transformers/_commons.py", """        for ft in prange(n_ft):
            _dist += manhattan(x[ft, i], values[ft])
    
        if""", """        for ft in range(n_ft):
            _dist += manhattan(x[ft, i], values[ft])
            # early abandon: this window cannot improve the minimum anymore
            if _dist > _min and _min != -1.:
                break
    
        if""")],
  '''
import env
from convst.transformers._commons import apply_one_shapelet_one_sample_multivariate as f
x = np.array([[[0.], [2.]], [[0.], [9.]]])
r = f(x, np.array([[0.], [0.]]), 5.0)
expect(tuple(r) == (0.0, 0.0, 1.0), r)
''', "several channels, and a window whose first channels are beyond the minimum but within the threshold while the sum is beyond it",
  "the occurrence count includes windows whose total distance is above the threshold")

B("c03-phase-padding", "C03",
  [("transformers/_univariate_variable_length.py", "X[id_sample, 0, :X_len[id_sample]], index,\n                    _length, _dilation, norm, use_phase",
    "X[id_sample, 0], index,\n                    _length, _dilation, norm, use_phase")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(1, n) + 5 for n in (8, 9, 30, 10)]
e = R_DST(transform_type="univariate_variable", phase_invariance=True, n_shapelets=60, shapelet_lengths=[4],
          proba_norm=0.0, random_state=1).fit(X, np.array([0, 0, 1, 1]))
expect(e.shapelets_[0].min() >= 5, "padding used in a shapelet")
''', "variable length and phase invariance, a shapelet from a shorter series that wraps around its end",
  "values are taken from the padding instead of the start of the series")

B("c03-trailing-zeros", "C03",
  [("transformers/rdst.py", """            lengths[i] = X[i].shape[1]
""", """            # archives pad the series to a common length with zeros
            n_ts = X[i].shape[1]
            if i > 0 and n_ts == lengths[0]:
                while n_ts > 3 and not np.any(X[i][:, n_ts-1]):
                    n_ts -= 1
            lengths[i] = n_ts
"""),
   ("transformers/rdst.py", "                X_new[i, :, :lengths[i]] = X[i]\n", "                X_new[i, :, :lengths[i]] = X[i][:, :lengths[i]]\n")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(1, n) for n in (14, 11, 14, 12)]
y = np.array([0, 0, 1, 1])
e = R_DST(transform_type="univariate_variable", n_shapelets=20, shapelet_lengths=[3], random_state=1).fit(X, y)
s = X[2].copy(); s[0, -1] = 0
a = e.transform([X[0], s]); b = e.transform([s, X[0]])
expect(np.array_equal(a[1], b[0]), "features depend on the position in the collection")
''', "a series ending in an exact zero with the same length as the first one",
  "real trailing zeros are taken for padding")

B("c04-recentred", "C04",
  [("transformers/_multivariate_variable_length.py", """                    _values = values[a1[i_shp]:a1[i_shp+1]].reshape(
                        n_channels[i_shp], _length
                    )
                    
                    X_new""", """                    _values = values[a1[i_shp]:a1[i_shp+1]].reshape((n_channels[i_shp], _length))
                    # windows are centred up to rounding only
                    for i_ch in range(_values.shape[0]):
                        _values[i_ch] -= mean(_values[i_ch])
                    
                    X_new""")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(2, n) for n in (14, 11, 14, 12)]
y = np.array([0, 0, 1, 1])
e = R_DST(transform_type="multivariate_variable", n_shapelets=40, shapelet_lengths=[3, 5], proba_norm=1.0, random_state=1).fit(X, y)
v = e.shapelets_[0].copy()
a = e.transform(X); b = e.transform(X)
expect(np.array_equal(v, e.shapelets_[0]), "transform changed the shapelets")
''', "variable-length multivariate data, normalised shapelets, values with a non-zero mean after rounding",
  "transform writes into the fitted shapelets, so repeated calls differ in the last bits")

B("c04-shared-buffer", "C04",
  [("transformers/_univariate_same_length.py", """    X_new = zeros((n_samples, n_features * n_shapelets))
    for i_sample in prange(n_samples):
        #n_shp_params""", """    X_new = zeros((n_samples, n_features * n_shapelets))
    # windows buffer, one row more than the longest vector of windows
    buffer = zeros((n_timestamps + 1, values.shape[1]))
    for i_sample in prange(n_samples):
        #n_shp_params"""),
   ("transformers/_univariate_same_length.py", """                for i_stride in range(strides.shape[0]):
                    _str = strides[i_stride]
                    strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)
                        
                for i_idx""", """                for i_stride in range(strides.shape[0]):
                    _str = strides[i_stride]
                    buffer[i_stride, :_length] = (_str - mean(_str))/(std(_str)+1e-8)
                strides = buffer[:strides.shape[0], :_length]
                        
                for i_idx""")],
  '''
import env, numba, os
from numba import _sched
_sched.scope_dirs = (os.getcwd() + os.sep,)
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(6, 1, 20); y = np.array([0, 0, 0, 1, 1, 1])
e = R_DST(n_shapelets=20, shapelet_lengths=[3, 5], proba_norm=1.0, random_state=1).fit(X, y)
a = e.transform(X)
for k in range(1, 8):
    with _sched.schedule(("inter", k)):
        b = e.transform(X)
    expect(np.array_equal(a, b), "interleaving of two iterations of the parallel loop changes the features")
''', "two iterations of the parallel loop over series interleaved while normalising windows",
  "the window buffer is shared between parallel iterations: features mix two series")

B("c05-pruned-channels", "C05",
  [("transformers/_multivariate_same_length.py", "mask_channel_ids[c2:d2] = channel_ids[a2[i_shp]:a2[i_shp+1]]",
    "mask_channel_ids[c2:d2] = channel_ids[a2[idx]:a2[idx]+n_channels[idx]]")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(2, 3, 8); y = np.array([0, 1])
e = R_DST(n_shapelets=150, shapelet_lengths=[3, 4], proba_norm=0.0, alpha=0.9, random_state=1).fit(X, y)
expect(len(e.shapelets_[1]) < 150, "not exhausted")
F = e.transform(X)[:, 0::3]
expect(np.all(F.min(axis=0) < 1e-9), "a shapelet is not found in the training data")
''', "a search space exhausted before the last shapelet (pruned ones in the middle), multivariate data",
  "the channels listed for a kept shapelet are those of another shapelet")

B("c06-first-channels", "C06",
  [("transformers/_multivariate_variable_length.py", "                arange(0, n_features), _n_channels, replace=False",
    "                arange(0, max_channels), _n_channels, replace=False")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(4, n) for n in (14, 11, 14, 12)]; y = np.array([0, 0, 1, 1])
e = R_DST(transform_type="multivariate_variable", n_shapelets=200, shapelet_lengths=[3], max_channels=2, random_state=1).fit(X, y)
expect(set(e.shapelets_[6]) == {0, 1, 2, 3}, set(e.shapelets_[6]))
''', "max_channels below the number of channels, variable-length multivariate data",
  "channels beyond the limit can never be sampled")

B("c06-prime-shared-bound", "C06",
  [("transformers/_univariate_variable_length.py", "            shp_primes = primes[primes<=int64(2**upper_bounds[i])]",
    "            shp_primes = primes[primes<=int64(2**upper_bounds.max())]")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(1, n) for n in (44, 41, 50, 43)]; y = np.array([0, 0, 1, 1])
e = R_DST(transform_type="univariate_variable", n_shapelets=100, shapelet_lengths=[3, 15], prime_dilations=True,
          phase_invariance=True, random_state=1).fit(X, y)
expect(np.all((e.shapelets_[1]-1)*e.shapelets_[2] < 41), "span longer than the shortest series")
''', "prime dilations with several lengths on variable-length data",
  "long shapelets get dilations whose span does not fit in the shortest series")

B("c07-pair-class", "C07",
  [("transformers/_multivariate_variable_length.py", "                if loc_others.shape[0] > 1:", "                if loc_others.shape[0] > 2:")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = [rng.rand(2, n) for n in (24, 21, 24, 22)]; y = np.array([0, 0, 1, 1])
e = R_DST(transform_type="multivariate_variable", n_shapelets=60, shapelet_lengths=[5], percentiles=[0, 0], random_state=1).fit(X, y)
expect(np.all(e.shapelets_[3] > 0.01), "threshold taken from the source series itself")
''', "a class with exactly two training series, variable-length multivariate data",
  "the threshold comes from the source series although another one of its class exists")

B("c07-int8-classes", "C07",
  [("transformers/_univariate_same_length.py", "    n_samples, n_features, n_timestamps = X.shape\n    # Fix the random seed",
    "    n_samples, n_features, n_timestamps = X.shape\n    # Class ids are small, compare them on one byte\n    y = y.astype(int8)\n    # Fix the random seed"),
   ("transformers/_univariate_same_length.py", "unique, where, percentile, all as _all, int64, bool_,", "unique, where, percentile, all as _all, int64, int8, bool_,")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
X = rng.rand(4, 1, 30); X[2:] += 100
p = dict(n_shapelets=40, shapelet_lengths=[5], percentiles=[0, 0], proba_norm=0.0, random_state=1)
a = R_DST(**p).fit(X, np.array([0, 0, 1, 1])).shapelets_[3]
b = R_DST(**p).fit(X, np.array([0, 0, 256, 256])).shapelets_[3]
expect(np.array_equal(a, b), "classes 0 and 256 are mixed up")
''', "class labels that differ by a multiple of 256",
  "thresholds are taken from series of another class")

B("c08-phase-end", "C08",
  [("transformers/_univariate_variable_length.py", """                    mask_sampling[
                        norm, i_d, id_sample, 
                        (index+(j*_dilation))%X_len[id_sample]
                    ] = False""", """                    mask_sampling[
                        norm, i_d, id_sample, 
                        min(index+(j*_dilation), X_len[id_sample]-1)
                    ] = False""")],
  '''
import env
from convst.transformers import R_DST
X = [np.arange(0., 12.)[None], 100 + np.arange(0., 13.)[None]]; y = np.array([0, 1])
for s in range(30):
    e = R_DST(transform_type="univariate_variable", phase_invariance=True, n_shapelets=400, shapelet_lengths=[5], alpha=1.0, proba_norm=0.0, random_state=s).fit(X, y)
    v, l, d = e.shapelets_[:3]
    st = {}
    for i in range(len(l)):
        st.setdefault((d[i], v[i, 0] >= 100), []).append(int(v[i, 0]) % 100)
    for (dd, big), q in st.items():
        n = 13 if big else 12
        for i in range(len(q)):
            for j in range(i):
                a = {(q[i] + k*dd) % n for k in range(5)}
                expect(q[i] != q[j], "same start twice")
                for k in range(1, 4):
                    expect((q[j] + k*dd) % n != q[i] and (q[i] + k*dd) % n != q[j], ("near duplicates", s, dd, q[i], q[j]))
''', "phase invariance, variable length, two starts on both sides of the end of the series",
  "near-duplicate shapelets are sampled around the end of the series")

B("c09-three-lengths", "C09",
  [("transformers/rdst.py", "            if lengths.shape[0]>3:", "            if lengths.shape[0]>=3:")],
  '''
import env
from convst.transformers import R_DST
rng = np.random.RandomState(0)
e = R_DST(n_shapelets=200, shapelet_lengths_bounds=[4, 6], lengths_bounds_reduction=0.5, random_state=1).fit(rng.rand(6, 1, 60), np.array([0, 0, 0, 1, 1, 1]))
expect(set(e.shapelets_[1]) == {4, 5, 6}, set(e.shapelets_[1]))
''', "bounds that span exactly three lengths and a large reduction",
  "lengths are thinned where they are few enough to be kept")
