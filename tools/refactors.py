#!/usr/bin/env python3
"""refactors.py [-j N] [ID ...]: apply edits that keep the behaviour of /repo's convst to a
scratch copy, run the stable tests and the checks of the files touched: all must be quiet."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkbugs       # noqa: E402
import mutate       # noqa: E402

V = mkbugs.V
DEFS = {}


def R(id, edits, checks=None):
    DEFS[id] = (edits, checks)


T = "transformers/"
SL = [T + "_univariate_same_length.py", T + "_multivariate_same_length.py"]
VL = [T + "_univariate_variable_length.py", T + "_multivariate_variable_length.py"]
U = [SL[0], VL[0]]
M = [SL[1], VL[1]]


def every(files, old, new, count=1):
    return [(f, old, new, count) for f in files]


# ---- sampling -------------------------------------------------------------------------
R("normalise-first", every(SL + VL, "    lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)\n",
  "    normalize = random(size=n_shapelets) < p_norm\n    lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)\n")
  + every(SL + VL, "    # Is shapelet using z-normalization ?\n    normalize = random(size=n_shapelets)\n    normalize = (normalize < p_norm)\n", ""))
R("uniform-vector", every(SL + VL, """        powers = zeros(n_shapelets)
        for i in prange(n_shapelets):
            powers[i] = uniform(0, upper_bounds[i])
        dilations = floor(power(2, powers)).astype(int64)""",
  """        powers = random(size=n_shapelets) * upper_bounds
        dilations = floor(2 ** powers).astype(int64)"""))
R("percentile-pair", every(SL + VL, """                ps = percentile(x_dist, [p_min,p_max])
                threshold[i_shp] = uniform(
                    ps[0], ps[1]
                )""", """                lower, upper = percentile(x_dist, p_min), percentile(x_dist, p_max)
                threshold[i_shp] = lower + (upper - lower) * random()"""))
R("other-loop", every(SL + VL, """                loc_others = where(y == y[id_sample])[0]
                if loc_others.shape[0] > 1:
                    loc_others = loc_others[loc_others != id_sample]
                    id_test = choice(loc_others)
                else:
                    id_test = id_sample""", """                id_test = id_sample
                n_others = 0
                for i_other in range(y.shape[0]):
                    # reservoir sampling among the other samples of the class
                    if i_other != id_sample and y[i_other] == y[id_sample]:
                        n_others += 1
                        if random() * n_others < 1:
                            id_test = i_other"""))
R("mask-one-loop", [(f, """                for j in range(alpha_size):
                    #We can use modulo even without phase invariance, as we
                    #limit the sampling to d_shape
                    mask_sampling[
                        norm, i_d, id_sample,
                        (index-(j*_dilation))%n_timestamps
                    ] = False
                    mask_sampling[
                        norm, i_d, id_sample,
                        (index+(j*_dilation))%n_timestamps
                    ] = False""", """                for j in range(1 - alpha_size, alpha_size):
                    mask_dil[id_sample, (index+(j*_dilation))%n_timestamps] = False""") for f in SL[:1]])
R("reversed-dilations", every(SL + VL, "    for i_d in prange(unique_dil.shape[0]):", "    for i_rev in prange(unique_dil.shape[0]):\n        i_d = unique_dil.shape[0] - 1 - i_rev"))
R("mask-kept", every(U, """    mask_values = ones(n_shapelets, dtype=bool_)
    for i in prange(n_shapelets):
        if _all(values[i] == 0):
            mask_values[i] = False
""", """    mask_values = zeros(n_shapelets, dtype=bool_)
    for i in range(n_shapelets):
        for j in range(lengths[i]):
            if values[i, j] != 0:
                mask_values[i] = True
                break
"""))
# ---- transforms -----------------------------------------------------------------------
ZN = "@njit(cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__)\ndef _z_norm_stride(x):\n    return (x - mean(x))/(std(x)+1e-8)\n\n"
R("stride-helper-u", [(U[0], "@njit(cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__)\ndef U_SL_init", ZN + "@njit(cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__)\ndef U_SL_init"),
  (U[0], """                    _str = strides[i_stride]
                    strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)""", "                    strides[i_stride] = _z_norm_stride(strides[i_stride])")])
R("stride-in-place-m", every(M, "                      strides[i_stride,j_stride] = (_str - mean(_str))/(std(_str)+1e-8)",
  "                      _scale = std(_str)+1e-8\n                      _str -= mean(_str)\n                      _str /= _scale"))
R("combinations-loop", every(SL[:1], """        ix_shapelets = where((lengths == _length) & (dilations == _dilation))[0]
        b = a + ix_shapelets.shape[0]
        
        idx_shp[a:b] = ix_shapelets
        n_shp_params[i+1] = ix_shapelets.shape[0]
        
        a = b""", """        n_shp_params[i+1] = 0
        for i_shp in range(n_shapelets):
            if lengths[i_shp] == _length and dilations[i_shp] == _dilation:
                idx_shp[a] = i_shp
                a += 1
                n_shp_params[i+1] += 1"""))
R("serial-transform", every(SL + VL, "        for i_shp_param in prange(n_shp_params.shape[0]-1):", "        for i_shp_param in range(n_shp_params.shape[0]-1):"))
# ---- _commons -------------------------------------------------------------------------
C = T + "_commons.py"
R("distance-numpy", [(C, """        x_conv[i] = manhattan(c[i], values)""", "        x_conv[i] = abs(c[i] - values[:length]).sum()", 2),
                     (C, "    for i in prange(x.shape[0]):\n        s += abs(x[i]-y[i])\n    return s", "    for i in range(x.shape[0]-1, -1, -1):\n        s += abs(y[i]-x[i])\n    return s")])
R("dispatch-nested", [(C, """    if normalize and use_phase:
        return _compute_shapelet_dist_vector_norm_phase(
            x, values, length, dilation
        )
    elif normalize and not use_phase:
        return _compute_shapelet_dist_vector_norm(
            x, values, length, dilation
        )
    elif not normalize and use_phase:
        return _compute_shapelet_dist_vector_phase(
            x, values, length, dilation
        )
    elif not normalize and not use_phase:
        return _compute_shapelet_dist_vector(
            x, values, length, dilation
        )
    else:
        raise ValueError('Wrong parameter for normalize or phase')""", """    if use_phase:
        if normalize:
            return _compute_shapelet_dist_vector_norm_phase(x, values, length, dilation)
        return _compute_shapelet_dist_vector_phase(x, values, length, dilation)
    if normalize:
        return _compute_shapelet_dist_vector_norm(x, values, length, dilation)
    return _compute_shapelet_dist_vector(x, values, length, dilation)""")])
R("phase-as-extended", [(C, """    n_timestamps = X.shape[0]
    X_new = zeros((n_timestamps,window_size))
    for i in prange(n_timestamps):
        for j in prange(window_size):
            X_new[i,j] = X[(i+(j*dilation))%n_timestamps]
    return X_new""", """    n_timestamps = X.shape[0]
    span = (window_size - 1) * dilation
    extended = zeros(n_timestamps + span)
    for i in range(n_timestamps + span):
        extended[i] = X[i % n_timestamps]
    return _generate_strides_1D(extended, window_size, dilation)"""),
   (C, """    for ft in prange(n_features):
        for i in prange(n_timestamps):
            for j in prange(window_size):
                X_new[ft,i,j] = X[ft,(i+(j*dilation))%n_timestamps]
    return X_new""", """    for ft in prange(n_features):
        X_new[ft] = _generate_strides_1D_phase(X[ft], window_size, dilation)
    return X_new""")])
R("private-renamed", [(C, "_compute_shapelet_dist_vector_norm(", "_norm_distances(", 2), (C, "_generate_strides_1D_phase(", "_wrapped_windows(", 4),
                      (C, "_get_subsequence_phase(", "_wrapped_subsequence(", 2)])
# ---- rdst.py --------------------------------------------------------------------------
RD = T + "rdst.py"
R("fit-helpers", [(RD, """        if self.n_samples is None:
            pass
        elif self.n_samples != 1.0:
            id_X = resample(
                np.arange(X.shape[0]), replace=self.n_samples > 1.0,
                n_samples=int(X.shape[0]*self.n_samples), stratify=y,
                random_state=self.random_state
            )
            X = X[id_X]
            y = y[id_X]
            if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
                X_len = X_len[id_X]
""", """        id_X = self._subset(X.shape[0], y)
        if id_X is not None:
            X, y = X[id_X], y[id_X]
            if self._is_variable():
                X_len = X_len[id_X]
"""), (RD, "    def transform(self, X):\n", '''    def _is_variable(self):
        return self.transform_type in (STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE)

    def _subset(self, n, y):
        """Ids of the samples to extract shapelets from, None for all."""
        if self.n_samples is None or self.n_samples == 1.0:
            return None
        return resample(
            np.arange(n), n_samples=int(n * self.n_samples), stratify=y,
            replace=self.n_samples > 1.0, random_state=self.random_state
        )

    def transform(self, X):
''')])
R("fit-arguments", [(RD, """        if self.transform_type == STR_UNIVARIATE_VARIABLE:
            self.shapelets_ = self.fitter(
                X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                self.percentiles[0], self.percentiles[1], self.alpha,
                self.phase_invariance, min_len, X_len, self.prime_dilations
            )
        elif""", """        if self.transform_type == STR_UNIVARIATE_VARIABLE:
            args = [X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm]
            args += list(self.percentiles) + [self.alpha, self.phase_invariance]
            shapelets = self.fitter(*args, min_len, X_len, self.prime_dilations)
            self.shapelets_ = shapelets
        elif""")])
R("transform-split", [(RD, """        check_is_fitted(self, ['shapelets_'])
        self._set_n_threads()
        if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
            X, X_len = self._format_uneven_timestamps(X)
            X = check_array_3D(X).astype(np.float64)
            self._check_transform_input(X.shape[1], X_len.min())
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance, X_len
            )
        else:
            X = check_array_3D(X).astype(np.float64)
            self._check_transform_input(X.shape[1], X.shape[2])
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance
            )
            X_len = np.full(X.shape[0], X.shape[2])
        if self.normalize_output:
            X_new[:, 1::3] /= X_len[:, np.newaxis]
            X_new[:, 2::3] /= X_len[:, np.newaxis]
        return X_new
""", """        check_is_fitted(self, ['shapelets_'])
        self._set_n_threads()
        variable = self.transform_type.endswith('_variable')
        X_len = None
        if variable:
            X, X_len = self._format_uneven_timestamps(X)
        X = np.array(check_array_3D(X), dtype=np.float64)
        if X_len is None:
            X_len = np.repeat(X.shape[2], X.shape[0])
        self._check_transform_input(X.shape[1], min(X_len))
        args = (X, self.shapelets_, self.phase_invariance)
        if variable:
            args += (X_len,)
        X_new = self.transformer(*args)
        return self._scale_output(X_new, X_len) if self.normalize_output else X_new

    @staticmethod
    def _scale_output(X_new, X_len):
        n_samples = X_new.shape[0]
        X_new = X_new.reshape(n_samples, -1, 3).copy()
        X_new[:, :, 1:] = X_new[:, :, 1:] / X_len.reshape(n_samples, 1, 1)
        return X_new.reshape(n_samples, -1)
""")])
R("type-table", [(RD, """        if _type == STR_UNIVARIATE:
            from convst.transformers._univariate_same_length import (
                U_SL_apply_all_shapelets, U_SL_generate_shapelet
            )
            self.fitter = U_SL_generate_shapelet
            self.transformer = U_SL_apply_all_shapelets
            
        elif _type == STR_MUTLIVARIATE:
            from convst.transformers._multivariate_same_length import (
                M_SL_apply_all_shapelets, M_SL_generate_shapelet
            )
            self.fitter = M_SL_generate_shapelet
            self.transformer = M_SL_apply_all_shapelets
            
        elif _type == STR_UNIVARIATE_VARIABLE:""", """        if _type in (STR_UNIVARIATE, STR_MUTLIVARIATE):
            from importlib import import_module
            prefix = 'U' if _type == STR_UNIVARIATE else 'M'
            module = import_module('convst.transformers._{}_same_length'.format(_type))
            self.fitter = getattr(module, prefix + '_SL_generate_shapelet')
            self.transformer = getattr(module, prefix + '_SL_apply_all_shapelets')

        elif _type == STR_UNIVARIATE_VARIABLE:""")])
R("lengths-rewritten", [(RD, """            lengths = np.asarray(list(range(min_l, max_l)))
            if lengths.shape[0]>3:
                n_remove = int(lengths.shape[0]*self.lengths_bounds_reduction)
                if n_remove > 0:
                    step = lengths.shape[0]//n_remove
                    lengths = lengths[::step]
            return lengths""", """            n_lengths = max_l - min_l
            step = 1
            if n_lengths > 3 and int(n_lengths*self.lengths_bounds_reduction) > 0:
                step = n_lengths // int(n_lengths*self.lengths_bounds_reduction)
            return np.arange(min_l, max_l, step)""")])
R("uneven-comprehension", [(RD, """        n_ft = np.zeros(len(X),dtype=np.int64)
        lengths = np.zeros(len(X),dtype=np.int64)
        for i in range(len(X)):
            n_ft[i] = X[i].shape[0]
            lengths[i] = X[i].shape[1]
        
        if np.all(n_ft == n_ft[0]):      
            X_new = np.zeros((len(X), n_ft[0], lengths.max()))
            for i in range(len(X)):
                X_new[i, :, :lengths[i]] = X[i]
            return X_new, lengths
        else:
            raise ValueError("Samples got different number of features")""", """        n_ft = np.array([x.shape[0] for x in X], dtype=np.int64)
        lengths = np.array([x.shape[1] for x in X], dtype=np.int64)
        if len(np.unique(n_ft)) > 1:
            raise ValueError("Samples got different number of features")
        # what lies beyond the end of a series is never used
        X_new = np.full((len(X), n_ft[0], lengths.max()), np.nan)
        for x_new, x, length in zip(X_new, X, lengths):
            x_new[:, :length] = x
        return X_new, lengths""")])
# ---- classifiers ----------------------------------------------------------------------
RR = "classifiers/rdst_ridge.py"
R("ridge-steps", [(RR, """        self.transformer = self.transformer.fit(X, y)
        self.classifier = self.classifier.fit(self.transformer.transform(X), y)
        return self""", """        features = self.transformer.fit(X, y).transform(X)
        self.classifier.fit(features, y)
        return self"""), (RR, "        preds = self.predict(X)\n        return accuracy_score(y, preds)", "        return float(np.mean(np.asarray(self.predict(X)) == np.asarray(y)))"),
   (RR, "        return self.classifier.predict(self.transformer.transform(X))", "        features = self.transformer.transform(X)\n        labels = self.classifier.predict(features)\n        return labels")])
RE = "classifiers/rdst_ensemble.py"
R("ensemble-loops", [(RE, """        self.model_weights = [
            model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
            for model in models
        ]
""", """        self.model_weights = []
        for model in models:
            accuracy = model["_internalridgecv"].get_loocv_train_acc(y)
            self.model_weights.append(np.power(accuracy, self.a_w))
"""), (RE, """        preds_proba = np.asarray(preds_proba).sum(axis=0)
        return self.models[0]["_internalridgecv"].classes_[preds_proba.argmax(axis=1)]""", """        total = np.zeros_like(preds_proba[0])
        for proba in preds_proba:
            total = total + proba
        classes = self.models[0]["_internalridgecv"].classes_
        return np.take(classes, np.argmax(total, axis=1))"""),
   (RE, """            if cv_vals.shape[1] == 1:
                preds = (cv_vals[:, 0, 0] > 0).astype(int)
            else:
                preds = cv_vals[:, :, 0].argmax(axis=1)
            return accuracy_score(y_train, self.classes_[preds])""", """            cv_vals = cv_vals[:, :, 0]
            if cv_vals.shape[1] > 1:
                preds = cv_vals.argmax(axis=1)
            else:
                preds = np.where(cv_vals.ravel() > 0, 1, 0)
            return np.mean(self.classes_[preds] == np.asarray(y_train))""")])
# ---- interpreters ---------------------------------------------------------------------
RI = "interpreters/rdst_interpreter.py"
R("interpreter-importance", [(RI, """        n_classes = coefs.shape[0]
        
        if n_classes == 1:
            coefs = np.append(-coefs, coefs, axis=0)
        c_ = np.zeros(self.RDST_Ridge.transformer.shapelets_[1].shape[0]*3)
        c_[self.RDST_Ridge.classifier['c_standardscaler'].usefull_atts] = coefs[class_id]
        return c_""", """        if len(coefs) == 1:
            coefs = np.vstack((-coefs, coefs))
        n_features = 3 * len(self.RDST_Ridge.transformer.shapelets_[1])
        kept = self.RDST_Ridge.classifier['c_standardscaler'].usefull_atts
        importance = [0.0] * n_features
        for i_coef, i_feature in enumerate(kept):
            importance[i_feature] = coefs[class_id, i_coef]
        return np.asarray(importance)"""),
   (RI, """        idx = (coefs.argsort()//3)[::-1]
        shp_ids = []
        i=0
        while len(shp_ids)<n_shp and i < idx.shape[0]:
            if idx[i] not in shp_ids:
                shp_ids = shp_ids + [idx[i]]
            i+=1
""", """        best = coefs.reshape(-1, 3).max(axis=1)
        shp_ids = np.argsort(-best, kind='stable')[:n_shp]
""")])
R("interpreter-match", [(RI, """        idx_match = np.asarray(
            [(c.argmin() + i*self.dilation) % X.shape[0] for i in range(self.length)]
        ).astype(int)
        if self.norm:
            _values = (_values * X[idx_match].std()) + X[idx_match].mean()
""", """        idx_match = (np.argmin(c) + self.dilation * np.arange(self.length)) % len(X)
        if self.norm:
            match = X[idx_match]
            _values = match.mean() + match.std() * _values
"""), (RI, """            values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
            length_ = lengths[id_shapelet]
            values_ = values[id_shapelet, :length_]
            dilation = dilations[id_shapelet]
            norm = normalize[id_shapelet]
            threshold_ = threshold[id_shapelet]
""", """            values, *params = self.RDST.shapelets_
            length_, dilation, threshold_, norm = (p[id_shapelet] for p in params)
            values_ = values[id_shapelet][:length_]
""")])
# ---- input transformers ---------------------------------------------------------------
IT = T + "_input_transformers.py"
R("scaler-ptp", [(IT, "        self.usefull_atts = np.where(np.max(X, axis=0) != np.min(X, axis=0))[0]", "        self.usefull_atts = np.flatnonzero(np.ptp(X, axis=0) > 0)", 2)])
R("scaler-mixin", [(IT, """class c_StandardScaler(StandardScaler):
    def fit(self, X, y=None):
        self.usefull_atts = np.where(np.max(X, axis=0) != np.min(X, axis=0))[0]
        return super().fit(X[:, self.usefull_atts], y=y)

    def transform(self, X):
        return super().transform(X[:, self.usefull_atts])


class c_MinMaxScaler(MinMaxScaler):
    def fit(self, X, y=None):
        self.usefull_atts = np.where(np.max(X, axis=0) != np.min(X, axis=0))[0]
        return super().fit(X[:, self.usefull_atts], y=y)

    def transform(self, X):
        return super().transform(X[:, self.usefull_atts])
""", """class _VaryingFeatures:
    def fit(self, X, y=None):
        varying = (X != X[:1]).any(axis=0)
        self.usefull_atts = np.where(varying)[0]
        return super().fit(X[:, self.usefull_atts], y=y)

    def transform(self, X):
        return super().transform(X[:, self.usefull_atts])


class c_StandardScaler(_VaryingFeatures, StandardScaler):
    pass


class c_MinMaxScaler(_VaryingFeatures, MinMaxScaler):
    pass
""")])
R("znorm-vector", [(IT, """    n_features, n_timestamps = x.shape
    x_new = np.empty((n_features, n_timestamps))
    for i in prange(n_features):
        x_new[i] = (x[i] - x[i].mean()) / (x[i].std() + 1e-8)
    return x_new""", """    x_new = x.astype(np.float64)
    for i in range(x_new.shape[0]):
        centered = x_new[i] - x_new[i].mean()
        x_new[i] = centered / (np.sqrt((centered ** 2).mean()) + 1e-8)
    return x_new"""), (IT, "        for i in range(self.order):\n            X = np.diff(X)\n        return X", "        return np.diff(X, n=self.order)")])
# ---- utils ----------------------------------------------------------------------------
DU = "utils/dataset_utils.py"
R("loader-comprehension", [(DU, """    min_len = min(
        min([len(X_train[i][0]) for i in range(len(X_train))]),
        min([len(X_test[i][0]) for i in range(len(X_test))]),
    )
    # Z-Normalize the data
    if normalize and not isinstance(X_train, list):
        X_train = z_norm_3D(X_train)
        X_test = z_norm_3D(X_test)
    if normalize and isinstance(X_train, list):
        X_train = z_norm_3D_list(X_train)
        X_test = z_norm_3D_list(X_test)""", """    min_len = min(len(x[0]) for part in (X_train, X_test) for x in part)
    # Z-Normalize the data
    if normalize:
        z_norm = z_norm_3D_list if isinstance(X_train, list) else z_norm_3D
        X_train, X_test = z_norm(X_train), z_norm(X_test)""")], "C20 C21")
R("znorm-list-zip", [(DU, """    for i_x in range(len(X)):
        for i_ft in range(len(X[i_x])):
            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (
                X[i_x][i_ft].std() + 1e-8
            )
    return X""", """    for x in X:
        for i_ft, channel in enumerate(x):
            x[i_ft] = (channel - np.mean(channel)) / (np.std(channel) + 1e-8)
    return X""")], "C20 C21")
EU = "utils/experiments_utils.py"
R("resample-parts", [(EU, """        if isinstance(X_train, np.ndarray):
            train_instances = all_data[train_indices, :]
            test_instances = all_data[test_indices, :]
            X_train = np.concatenate([X_train, train_instances],axis=0)
            X_test = np.concatenate([X_test, test_instances],axis=0)
        else:
            for idx in train_indices:
                X_train.append(all_data[idx])
            for idx in test_indices:
                X_test.append(all_data[idx])""", """        if isinstance(X_train, list):
            X_train += [all_data[idx] for idx in train_indices]
            X_test += [all_data[idx] for idx in test_indices]
        else:
            X_train = np.vstack((X_train, all_data[train_indices]))
            X_test = np.vstack((X_test, all_data[test_indices]))""")])
R("resample-permutation", [(EU, "        random_state.shuffle(indices)", "        indices = indices[random_state.permutation(len(indices))]")])
R("split-helper", [(EU, """            idx_Train = [np.where((X == X_train[j]).all(axis=(1,2)))[0][0] for j in range(X_train.shape[0])]
            idx_Test = [np.where((X == X_test[j]).all(axis=(1,2)))[0][0] for j in range(X_test.shape[0])]
            yield idx_Train, idx_Test""", """            position = {x.tobytes(): j for j, x in reversed(list(enumerate(np.asarray(X, dtype=X_train.dtype))))}
            yield [position[x.tobytes()] for x in X_train], [position[x.tobytes()] for x in X_test]""")])
NU = "utils/numba_utils.py"
R("np-all-loops", [(NU, """        for v in iter(arr):
            for idx, v_2 in enumerate(v):
                out[idx] = np.logical_and(v_2, out[idx])
        return out""", """        for i in range(arr.shape[0]):
            for j in range(arr.shape[1]):
                if not arr[i, j]:
                    out[j] = False
        return out""")])
R("unique-counts", [(NU, """    counts = np.append(idx[1:], data.shape[0])
    counts = counts - idx
""", """    counts = np.diff(np.append(idx, data.shape[0]))
"""), (NU, "    orig_idx = np.array([i for i in range(data.shape[0])])", "    orig_idx = np.arange(data.shape[0])")])
CU = "utils/checks_utils.py"
R("checks-early", [(CU, """    if n_jobs is None:
        return 1
    elif not is_int(n_jobs):
        raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
    elif n_jobs < 0:
        return max(1, cpu_count() + n_jobs + 1)
    else:
        return min(n_jobs,cpu_count())""", """    n_cores = cpu_count()
    if n_jobs is None:
        return 1
    if not is_int(n_jobs):
        raise ValueError("`n_jobs` must be None or an integer, but found: {}".format(n_jobs))
    return min(n_jobs, n_cores) if n_jobs >= 0 else max(1, n_cores + 1 + n_jobs)"""),
   (CU, """    if (isinstance(x, (int, np.integer)) or isinstance(x, (float, np.floating))) and not isinstance(x, bool):
        return x
    else:
        raise ValueError('Expected a numerical value, but got {}'.format(type(x)))""", """    if isinstance(x, bool) or not isinstance(x, (int, float, np.integer, np.floating)):
        raise ValueError('Expected a numerical value, but got {}'.format(type(x)))
    return x""")])
PU = "utils/plot_utils.py"
R("plot-axes", [(PU, """    if nrows > 1:
        ax = np.reshape(ax, (nrows, ncols))
    props""", """    axes = np.reshape(ax, (nrows, ncols))
    if nrows > 1:
        ax = axes
    props"""), (PU, """            x = df[comp].values
            y = df[baseline].values
            ax[i // ncols, i % ncols].scatter(x, y, s=15, alpha=0.75, zorder=2)""", """            x, y = df[comp].to_numpy(), df[baseline].to_numpy()
            axes[divmod(i, ncols)].scatter(x, y, s=15, alpha=0.75, zorder=2)"""),
   (PU, """            textstr = 'W - D - L\\n{} - {} - {}'.format(sum(x+margin < y), sum(
                (x+margin >= y) & (x-margin <= y)), sum(x-margin > y))
            ax[i // ncols, i % ncols].text(""", """            win, loss = int((x+margin < y).sum()), int((x-margin > y).sum())
            textstr = 'W - D - L\\n%d - %d - %d' % (win, len(x) - win - loss, loss)
            ax[i // ncols, i % ncols].text(""")])
R("holm-while", [(PU, """    for i in range(k):
        # correct alpha with holm
        new_alpha = float(alpha / (k - i))
        # test if significant after holm's correction of alpha
        if p_values[i][2] <= new_alpha:
            p_values[i] = (p_values[i][0], p_values[i]
                           [1], p_values[i][2], True)
        else:
            # stop
            break""", """    i = 0
    while i < k and p_values[i][2] <= float(alpha / (k - i)):
        p_values[i] = p_values[i][:3] + (True,)
        i += 1""")])


# ---- a second wave ----------------------------------------------------------------------
R("jit-partial", [(C, "from numba import njit, prange\n", "from functools import partial\nfrom numba import njit, prange\n"),
   (C, """@njit(
  fastmath=__USE_NUMBA_FASTMATH__, cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__
)
def euclidean""", """_distance = partial(
    njit, fastmath=__USE_NUMBA_FASTMATH__, cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__
)


@_distance()
def euclidean"""), (C, """@njit(
  fastmath=__USE_NUMBA_FASTMATH__, cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__
)
def manhattan""", """@_distance()
def manhattan""")], "C35 C31 C01 C02")
R("jit-dict", [(IT, "@njit(cache=__USE_NUMBA_CACHE__)\ndef z_norm_one", "_JIT = {'cache': __USE_NUMBA_CACHE__}\n\n\n@njit(**_JIT)\ndef z_norm_one"),
   (IT, "@njit(cache=__USE_NUMBA_CACHE__, parallel=__USE_NUMBA_PARALLEL__)\ndef z_norm_all", "@njit(parallel=__USE_NUMBA_PARALLEL__, **_JIT)\ndef z_norm_all")], "C35 C20 C18")
R("jit-switch-module", [(f, """from convst import (
    __USE_NUMBA_CACHE__, __USE_NUMBA_FASTMATH__,
    __USE_NUMBA_NOGIL__, __USE_NUMBA_PARALLEL__
)
""", """import convst as _switches

__USE_NUMBA_CACHE__ = _switches.__USE_NUMBA_CACHE__
__USE_NUMBA_FASTMATH__ = _switches.__USE_NUMBA_FASTMATH__
__USE_NUMBA_NOGIL__ = _switches.__USE_NUMBA_NOGIL__
__USE_NUMBA_PARALLEL__ = _switches.__USE_NUMBA_PARALLEL__
""") for f in U], "C35 C01 C03 C36" if False else "C35 C01 C03")
R("apply-multi-helper", [(C, """    for i in prange(n_candidates):
        _dist = 0
        for ft in prange(n_ft):
            _dist += manhattan(x[ft, i], values[ft])
    
        if _dist < _min or _min == -1.:
            _min = _dist
            _argmin = i
            
        if _dist <= threshold:
            _n_match += 1
    
    return _min, float_(_argmin), float_(_n_match)
""", """    for i in range(n_candidates):
        _dist = _channels_dist(x[:, i], values)
        _n_match += 1 if _dist <= threshold else 0

        if i == 0 or _dist < _min:
            _min, _argmin = _dist, i

    return _min, float_(_argmin), float_(_n_match)


@njit(
  cache=__USE_NUMBA_CACHE__, fastmath=__USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__
)
def _channels_dist(x, values):
    s = 0.
    for ft in range(x.shape[0]):
        s += manhattan(x[ft], values[ft])
    return s
""")])
R("combinations-set", [(C, """    u_x = unique(x)
    u_y = unique(y)
    u_mask = zeros((u_x.shape[0], u_y.shape[0]),dtype=bool_)
    
    for i in range(x.shape[0]):
        u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]] = True
    combinations = zeros((u_mask.sum(),2), dtype=int64)
    i_comb = 0
    for i in range(x.shape[0]):
        if u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]]:
            combinations[i_comb,0] = x[i]
            combinations[i_comb,1] = y[i]
            u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]] = False
            i_comb += 1
    return combinations""", """    n = x.shape[0]
    order = zeros((n, 2), dtype=int64)
    n_comb = 0
    for i in range(n):
        new = True
        for j in range(n_comb):
            if order[j, 0] == x[i] and order[j, 1] == y[i]:
                new = False
        if new:
            order[n_comb, 0] = x[i]
            order[n_comb, 1] = y[i]
            n_comb += 1
    return order[:n_comb]""")])
R("combinations-sorted", [(C, "    return combinations\n\n@njit(\n  cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__\n)\ndef prime_up_to", "    # the order of the pairs is of no importance: the largest lengths first\n    return combinations[(-combinations[:, 0]).argsort()]\n\n@njit(\n  cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__\n)\ndef prime_up_to")])
R("primes-sieve", [(C, """    is_p = zeros(n+1, dtype=bool_)
    for i in range(n+1):
        is_p[i] = is_prime(i)
    return where(is_p)[0]
""", """    is_p = zeros(n+1, dtype=bool_)
    is_p[1:] = True
    for i in range(2, n+1):
        if is_p[i]:
            is_p[i*i::i] = False
    return where(is_p)[0]
"""), (C, """        loc = zeros(n_sample, dtype=int64)
        for i in prange(n_sample):
            loc[i] = where(P>=rand())[0][0]
        return loc
""", """        loc = zeros(n_sample, dtype=int64)
        for i in range(n_sample):
            r = rand()
            while P[loc[i]] < r:
                loc[i] += 1
        return loc
""")])
R("subsequence-slice", [(C, """    v = zeros(length)
    _idx = i_start
    
    for j in prange(length):
        v[j] = X[_idx]
        _idx = _idx + d
    
    if normalize:
        v = (v - v.mean())/(v.std()+1e-8)
    return v""", """    v = X[i_start:i_start+(length-1)*d+1:d].astype(float_)
    if normalize:
        return (v - v.mean())/(v.std()+1e-8)
    return v"""), (C, """    for i in prange(n_timestamps):
        for j in prange(window_size):
            X_new[i,j] = X[i+(j*dilation)]
    return X_new""", """    for j in range(window_size):
        X_new[:, j] = X[j*dilation:j*dilation+n_timestamps]
    return X_new""")])
R("sampler-mask-helper", every(U[:1], """                # Update the mask in two directions from the sampling point
""", """                # in both directions
""") if False else every(U[:1], """            mask_dil = mask_sampling[norm,i_d]
""", """            mask_dil = mask_sampling[norm][i_d]
""") + every(U[:1], """    mask_values = ones(n_shapelets, dtype=bool_)
    for i in prange(n_shapelets):
        if _all(values[i] == 0):
            mask_values[i] = False
""", """    mask_values = zeros(n_shapelets, dtype=bool_)
    for i in range(n_shapelets):
        for j in range(values.shape[1]):
            if values[i, j] != 0:
                mask_values[i] = True
"""))
R("transform-output-3d", every(U[:1], "    X_new = zeros((n_samples, n_features * n_shapelets))\n", "    X_out = zeros((n_samples, n_shapelets, n_features))\n") +
  every(U[:1], "X_new[i_sample, (n_features * i_shp):(n_features * i_shp + n_features)] = ", "X_out[i_sample, i_shp] = ", 2) +
  every(U[:1], "    return X_new", "    return X_out.reshape(n_samples, n_shapelets * n_features)"))
R("ensemble-factory", [(RE, """        models = Parallel(n_jobs=self.n_jobs_ensemble, prefer=self.prefer, require=self.require)(
            delayed(_parallel_fit)(
                X,
                y,
                make_pipeline(
                    self.input_transformers[i],
                    R_DST(""", """        parallel = Parallel(n_jobs=self.n_jobs_ensemble, prefer=self.prefer, require=self.require)
        models = parallel(
            delayed(_parallel_fit)(
                X,
                y,
                make_pipeline(
                    self.input_transformers[i],
                    R_DST("""),
  (RE, """        self.models = models
        self.model_weights = [
            model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
            for model in models
        ]
        return self
""", """        return self._set_models(models, y)

    def _set_models(self, models, y):
        weights = [model[-1].get_loocv_train_acc(y) for model in models]
        self.models = models
        self.model_weights = [weight ** self.a_w for weight in weights]
        return self
"""), (RE, """            for i in range(len(self.model_weights))
        )
        # n_samples, n_models
        preds_proba = np.asarray(preds_proba).sum(axis=0)
""", """            for i in range(len(self.models))
        )
        preds_proba = np.sum(preds_proba, axis=0)
""")])
R("ensemble-scaler-pipeline", [(RE, """        self.scaler = StandardScaler().fit(X)
        return super().fit(self.scaler.transform(X), y)
""", """        self.scaler = StandardScaler()
        features = self.scaler.fit_transform(X)
        return super().fit(features, y)
"""), (RE, """        d = self.decision_function(self.scaler.transform(X))
        if len(d.shape) == 1:
            d = np.c_[-d, d]
        return softmax(d)
""", """        scores = self.decision_function(self.scaler.transform(X))
        if scores.ndim == 1:
            scores = np.stack([-scores, scores], axis=1)
        return softmax(scores)
""")])
R("interpreter-distances", [(RI, """        c = compute_shapelet_dist_vector(
            X, self.values, self.length, self.dilation, self.norm, self.phase
        )
        _values = self.values
""", """        c = self._distances(X)
        _values = self.values
"""), (RI, """        c = compute_shapelet_dist_vector(
            X, self.values, self.length, self.dilation, self.norm, self.phase
        )
        if ax is None:
            sns.set()
            sns.set_context(seaborn_context)
            fig = plt.figure(figsize=(figsize))
            plt.plot(c, label=label)
            plt.hlines(self.threshold, 0, c.shape[0], color=c_threshold)
            return fig
        else:
            ax.plot(c, label=label)
            ax.hlines(self.threshold, 0, c.shape[0], color=c_threshold)
            return ax
""", """        c = self._distances(X)
        fig = None
        if ax is None:
            sns.set()
            sns.set_context(seaborn_context)
            fig = plt.figure(figsize=figsize)
        where = plt if ax is None else ax
        where.plot(c, label=label)
        where.hlines(self.threshold, 0, len(c), color=c_threshold)
        return fig if ax is None else ax

    def _distances(self, X):
        return compute_shapelet_dist_vector(
            X, self.values, self.length, self.dilation, self.norm, self.phase
        )
""")])
R("ranks-by-numpy", [(PU, """    average_ranks = df_ranks.rank(ascending=False).mean(
        axis=1).sort_values(ascending=False)
""", """    all_ranks = df_ranks.rank(ascending=False)
    average_ranks = (all_ranks.sum(axis=1) / max_nb_datasets).sort_values(ascending=False)
"""), (PU, """    for p in p_values:
        if p[3] == False:
            i = np.where(nnames == p[0])[0][0]
            j = np.where(nnames == p[1])[0][0]
            min_i = min(i, j)
            max_j = max(i, j)
            g_data[min_i, max_j] = 1
""", """    position = {name: i for i, name in enumerate(nnames)}
    for name_1, name_2, _, rejected in p_values:
        if not rejected:
            i, j = sorted((position[name_1], position[name_2]))
            g_data[i, j] = 1
"""), (PU, "    p_values.sort(key=operator.itemgetter(2))\n", "    p_values = sorted(p_values, key=lambda p: p[2])\n")])
R("pairs-of-classifiers", [(PU, """        perf_1 = np.array(
            df_perf.loc[df_perf['classifier_name'] == classifier_1]['accuracy'], dtype=np.float64)
""", """        perf_1 = df_perf[df_perf['classifier_name'] == classifier_1]['accuracy'].astype(float).values
""")])
R("folds-helper", [(EU, """        self.n_split = n_split
        self.dataset_name = dataset_name
        self.scorers = scorers
        
    def score(self, pipeline):
        X_train_0, X_test_0, y_train_0, y_test_0, _ = load_UCR_UEA_dataset_split(
            self.dataset_name
        )
""", """        self.n_split = n_split
        self.dataset_name = dataset_name
        self.scorers = scorers

    def _load(self):
        return load_UCR_UEA_dataset_split(self.dataset_name)[:4]

    def score(self, pipeline):
        X_train_0, X_test_0, y_train_0, y_test_0 = self._load()
"""), (EU, """            t0 = timer()
            pipeline = pipeline.fit(X_train, y_train)
            y_pred = pipeline.predict(X_test)
            t1 = timer()
            for scorer_name, scorer in self.scorers.items():
                _score.loc[i, scorer_name] = scorer(y_test, y_pred)
            _score.loc[i, 'time'] = t1 - t0
""", """            started = timer()
            y_pred = pipeline.fit(X_train, y_train).predict(X_test)
            elapsed = timer() - started
            row = {name: scorer(y_test, y_pred) for name, scorer in self.scorers.items()}
            row['time'] = elapsed
            for name in row:
                _score.loc[i, name] = row[name]
""")])
R("dataset-concat", [(DU, """    if isinstance(X_train, list):
        X = X_train + X_test
    else:
        X = np.concatenate((X_train, X_test), axis=0)
    return X, np.concatenate((y_train, y_test), axis=0)""", """    y = np.r_[y_train, y_test]
    if isinstance(X_train, list):
        return [*X_train, *X_test], y
    return np.vstack([X_train, X_test]), y"""), (DU, """    le = LabelEncoder().fit(y_train)
    y_train = le.transform(y_train)
    y_test = le.transform(y_test)
""", """    le = LabelEncoder()
    y_train = le.fit_transform(y_train)
    y_test = le.transform(y_test)
""")])
R("checks-messages", [(CU, """    if X.ndim != 3:
        raise ValueError(
            "If passed as a np.array, X must be a 3-dimensional "
            "array, but found shape: {}".format(X.shape)
        )
""", """    if len(X.shape) != 3:
        raise ValueError("expected three dimensions, found {}".format(X.shape))
"""), (CU, """    else:
        raise ValueError('Expected a boolean, but got {}'.format(type(x)))""", """    raise ValueError('not a boolean: {!r}'.format(x))""")])
R("ridge-named-steps", [(RR, """        return self.classifier.predict(self.transformer.transform(X))""", """        X_new = self._features(X)
        return self.classifier.predict(X_new)

    def _features(self, X):
        return self.transformer.transform(X)""")])
R("bounds-helper", [(RD, """            if isinstance(b0, (float, np.floating)):
                b0 = int(b0*min_len)
""", """            b0 = self._as_length(b0, min_len)
"""), (RD, """            if isinstance(b1, (float, np.floating)):
                b1 = int(b1*min_len)
""", """            b1 = self._as_length(b1, min_len)
"""), (RD, "    def fit(self, X, y):\n", """    @staticmethod
    def _as_length(bound, min_len):
        return int(bound*min_len) if isinstance(bound, (float, np.floating)) else bound

    def fit(self, X, y):
""")])

# ---- second family: the same drawing by other calls, other structure ---------------------
IN = "interpreters/rdst_interpreter.py"
PL = "utils/plot_utils.py"
R("own-axes", [(IN, """            fig = plt.figure(figsize=(figsize))
            plt.plot(self.values)
            plt.title(
""", """            fig = plt.figure(figsize=(figsize))
            ax = fig.add_subplot()
            ax.plot(self.values)
            ax.set_title(
"""), (IN, """            plt.plot(X, label=label, linewidth=x_linewidth, alpha=alpha)
            plt.scatter(
""", """            ax = fig.gca()
            ax.plot(X, label=label, linewidth=x_linewidth, alpha=alpha)
            ax.scatter(
"""), (IN, """            fig = plt.figure(figsize=(figsize))
            plt.plot(c, label=label)
            plt.hlines(self.threshold, 0, c.shape[0], color=c_threshold)
""", """            fig, ax = plt.subplots(figsize=figsize)
            ax.plot(c, label=label)
            ax.hlines(self.threshold, 0, c.shape[0], color=c_threshold)
""")], "C26 C27")
R("best-shapelets-loop", [(IN, """        shp_ids = []
        i=0
        while len(shp_ids)<n_shp and i < idx.shape[0]:
            if idx[i] not in shp_ids:
                shp_ids = shp_ids + [idx[i]]
            i+=1
""", """        shp_ids = list(dict.fromkeys(idx))[:n_shp]
"""), (IN, "        for i_shp in shp_ids:\n", "        for rank, i_shp in enumerate(shp_ids):\n")], "C27")
R("bars-lw", [(PL, """             linewidth=linewidth_sign)""", """             lw=linewidth_sign)""")], "C29 C41")
R("bars-hlines", [(PL, """        line([(rankpos(ssums[min_idx]) - side, start),
              (rankpos(ssums[max_idx]) + side, start)],
             linewidth=linewidth_sign)""", """        ax.hlines(hf * start, wf * (rankpos(ssums[min_idx]) - side),
                  wf * (rankpos(ssums[max_idx]) + side), color='k', linewidth=linewidth_sign)""")], "C29 C41")
R("panel-labels-set", [(PL, """            ax[i // ncols, i % ncols].set_xlabel(comp)
""", """            ax[i // ncols, i % ncols].set(xlabel=comp)
"""), (PL, "                ax[i % ncols].set_xlabel(comp)\n", "                ax[i % ncols].set(xlabel=comp)\n")], "C28")
R("panel-names-keywords", [(PL, """                            ax.annotate(
                                "{}".format(df.index[j]),
                                (x1, y1),
""", """                            ax.annotate(
                                text="{}".format(df.index[j]),
                                xy=(x1, y1),
""")], "C28")
R("cores-once", [("utils/checks_utils.py", "from os import cpu_count\n", "from os import cpu_count\n\nN_CORES = cpu_count()\n"),
  ("utils/checks_utils.py", "cpu_count() + n_jobs + 1", "N_CORES + n_jobs + 1"),
  ("utils/checks_utils.py", "min(n_jobs,cpu_count())", "min(n_jobs, N_CORES)")], "C24 C39")
R("cores-module", [("utils/checks_utils.py", "from os import cpu_count\n", "import os\n"),
  ("utils/checks_utils.py", "cpu_count() + n_jobs + 1", "os.cpu_count() + n_jobs + 1"),
  ("utils/checks_utils.py", "min(n_jobs,cpu_count())", "min(n_jobs, os.cpu_count())")], "C24 C39")
R("ridge-pipeline-names", [("classifiers/rdst_ridge.py", "from sklearn.pipeline import make_pipeline\n", "from sklearn.pipeline import Pipeline\n"),
  ("classifiers/rdst_ridge.py", """        self.classifier = make_pipeline(
            c_StandardScaler(with_mean=True),
            RidgeClassifierCV(
                alphas=self.alphas_ridge,
                class_weight=self.class_weight,
                fit_intercept=self.fit_intercept,
            ),
        )
""", """        scaler = c_StandardScaler(with_mean=True)
        ridge = RidgeClassifierCV(
            alphas=self.alphas_ridge,
            class_weight=self.class_weight,
            fit_intercept=self.fit_intercept,
        )
        self.classifier = Pipeline([("scaler", scaler), ("ridge", ridge)])
"""),
  (IN, "self.RDST_Ridge.classifier['ridgeclassifiercv'].coef_", "self.RDST_Ridge.classifier[-1].coef_"),
  (IN, "self.RDST_Ridge.classifier['c_standardscaler'].usefull_atts", "self.RDST_Ridge.classifier[0].usefull_atts")],
  "C10 C11 C12 C16 C27 C34 C38 C39 C40")
R("apply-one-sample", [(VL[0], """@njit(cache=__USE_NUMBA_CACHE__, parallel=__USE_NUMBA_PARALLEL__, fastmath=__USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__)
def U_VL_apply_all_shapelets""", """@njit(cache=__USE_NUMBA_CACHE__, fastmath=__USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__)
def _normalize_strides(strides):
    for i_stride in range(strides.shape[0]):
        _str = strides[i_stride]
        strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)


@njit(cache=__USE_NUMBA_CACHE__, parallel=__USE_NUMBA_PARALLEL__, fastmath=__USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__)
def U_VL_apply_all_shapelets"""), (VL[0], """                for i_stride in range(strides.shape[0]):
                    _str = strides[i_stride]
                    strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)
""", """                _normalize_strides(strides)
""")])
R("prange-to-range", [("transformers/_commons.py", "    for i in prange(n_candidates):\n", "    for i in range(n_candidates):\n", 2)])
R("types-lower", [("transformers/rdst.py", """        return transform_type if transform_type == lowered else lowered""", """        return lowered if lowered != transform_type else transform_type""")], "C12 C15 C25")
R("minimum-from-infinity", [("transformers/_commons.py", "    _min = -1.\n", "    _min = inf\n"), ("transformers/_commons.py", "    _min = -1. \n", "    _min = inf\n"),
  ("transformers/_commons.py", "        if _dist < _min or _min==-1.:\n", "        if _dist < _min:\n"),
  ("transformers/_commons.py", "        if _dist < _min or _min == -1.:\n", "        if _dist < _min:\n"),
  ("transformers/_commons.py", "from numpy import float_, sqrt,", "from numpy import float_, inf, sqrt,")])
R("holm-table", [(PL, """    df_ranks = pd.DataFrame(data=rank_data, index=np.sort(
        classifiers), columns=np.unique(sorted_df_perf['dataset_name']))
""", """    df_ranks = sorted_df_perf.pivot(
        index='classifier_name', columns='dataset_name', values='accuracy')
""")], "C29 C41")
R("cliques-edges", [(PL, """            g_data[min_i, max_j] = 1

    g = networkx.Graph(g_data)
""", """            g_data[min_i, max_j] = 1

    g = networkx.Graph()
    g.add_nodes_from(range(m))
    g.add_edges_from((int(a), int(b)) for a, b in np.argwhere(g_data))
""")], "C29 C41")
R("ensemble-stack", [("classifiers/rdst_ensemble.py", """        preds_proba = np.asarray(preds_proba).sum(axis=0)
        return self.models[0]["_internalridgecv"].classes_[preds_proba.argmax(axis=1)]
""", """        total = sum(np.asarray(p) for p in preds_proba)
        classes = self.models[0].steps[-1][1].classes_
        return classes[np.argmax(total, axis=1)]
""")], "C10 C11 C12 C16 C17 C34 C38 C39 C40 C37")


def one(id):
    edits, checks = DEFS[id]
    d, root = mkbugs.scratch()
    try:
        mkbugs.build(dict(id=id, edits=edits), root)
        if not checks:
            checks = " ".join(sorted({c for e in edits for c in mutate.MAP[e[0]].split()}))
        note = []
        rc, out = mkbugs.sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
                             "no:cacheprovider", "tests/test_checks_utils.py"], root)
        if rc:
            note.append("TESTS " + out[-300:])
        for p in checks.split():
            rc, out = mkbugs.sh(["python3-vt", os.path.join(V, "run.py"), p], V, env={
                "VERIF_REPO": root, "VERIF_OUT": d, "VERIF_VERBOSE": "1",
                "VERIF_SCALE": os.environ.get("VERIF_SCALE", "0.4")}, timeout=1000)
            sk = re.search(r"(\d+) inconclusive", out)
            if rc:
                note.append("%s rc=%d %s" % (p, rc, out[-900:]))
            elif sk and int(sk.group(1)):
                note.append("%s: %s inconclusive" % (p, sk.group(1)))
        return id, checks, "\n      ".join(note)
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    j = 2
    if "-j" in args:
        i = args.index("-j")
        j = int(args[i + 1])
        del args[i:i + 2]
    with cf.ThreadPoolExecutor(j) as ex:
        for id, checks, note in ex.map(one, args or list(DEFS)):
            print("%-24s %s %s" % (id, checks, note or "quiet"), flush=True)


if __name__ == "__main__":
    main()
