"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
P = []
T = "convst/transformers/"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SH = [("shapelets_", "tuple of arrays: values, lengths, dilations, thresholds, normalise flags (+ channel counts and channel ids)", T + "rdst.py R_DST.fit")]

p("C01", "Univariate features are exactly min distance, first argmin, match count",
  "For every univariate series and every shapelet of a fitted transformer, the three output columns of that shapelet are the smallest Manhattan distance between the shapelet and the dilated windows of the series, the position of the first window that attains it, and the number of windows whose distance is at most the shapelet's threshold. Windows are z-normalised one by one when the shapelet is normalised, and wrap around the end of the series under phase invariance only. The output has one row per series, three finite columns per shapelet in shapelet order.",
  ["inputs", "configurations"], "all series, lengths, dilations, thresholds, normalisation flags, phase modes and mixtures of (length, dilation) groups",
  "The tests that run only check array-shape validation; the others check accuracy on five archive datasets, where wrong ties, wrong thresholds, a swapped column or a wrong group index would only shift accuracy a little.",
  [T + "_univariate_same_length.py", T + "_univariate_variable_length.py", T + "_commons.py", T + "rdst.py"],
  [("grouping of shapelets by (length, dilation)", T + "_commons.py _combinations_1d"), ("per-group strides, raw shapelets first, normalised in place after", T + "_univariate_same_length.py U_SL_apply_all_shapelets"), ("feature extraction", T + "_commons.py apply_one_shapelet_one_sample_univariate")], SH, ["R_DST.transform"])

p("C02", "Multivariate features use the sum of distances over exactly its channels",
  "For every multivariate series and every shapelet of a fitted transformer, the three output columns are the minimum, first argmin and number of values at most the threshold of the distance vector obtained by summing, over exactly the channels of that shapelet and in matching order, the per-channel Manhattan distances to the dilated windows. Per-channel windows are z-normalised for normalised shapelets, and wrap around under phase invariance only.",
  ["inputs", "configurations"], "all multivariate series, channel subsets and orders, lengths, dilations, flags and mixtures of groups",
  "The only multivariate tests need downloads and check that fit does not raise, or an accuracy floor on one dataset; nothing compares the packed value/channel offsets with a definition.",
  [T + "_multivariate_same_length.py", T + "_multivariate_variable_length.py", T + "_commons.py"],
  [("flat packing of values and channel ids with cumulative offsets", T + "_multivariate_same_length.py M_SL_apply_all_shapelets"), ("channel sum", T + "_commons.py apply_one_shapelet_one_sample_multivariate")], SH, ["R_DST.transform"])

p("C03", "Variable-length series are each treated at their own length, never padded",
  "Transforming a collection of series of different lengths gives, for each series, exactly the features of that series alone at its own length: neither the other series, nor the longest length, nor any padding influences it. Fitting on such a collection only ever extracts shapelets and thresholds from real timestamps.",
  ["inputs"], "all collections of variable-length univariate or multivariate series, in every order and with every mix of lengths",
  "Variable-length tests need downloads and only check that fit does not raise or an accuracy floor.",
  [T + "_univariate_variable_length.py", T + "_multivariate_variable_length.py", T + "rdst.py"],
  [("padding to a 3D array plus true lengths", T + "rdst.py R_DST._format_uneven_timestamps"), ("slicing by X_len", T + "_univariate_variable_length.py U_VL_apply_all_shapelets")], SH, ["R_DST.fit", "R_DST.transform"])

p("C04", "Transform is a pure per-series function under any parallel schedule",
  "The features of a series depend only on that series and the fitted shapelets: batching, reordering, duplicating or dropping other series, repeating the call, and the order in which the parallel loop iterations run leave them bit-identical. Neither fit nor transform modifies the caller's arrays, and transform does not modify the fitted shapelets.",
  ["inputs", "schedules", "histories"], "all batches, all splits/permutations of them, all iteration orders of the parallel loops",
  "No test calls transform twice, in pieces, or under different thread schedules.",
  [T + "_univariate_same_length.py", T + "_multivariate_same_length.py", T + "_univariate_variable_length.py", T + "_multivariate_variable_length.py", T + "rdst.py"],
  [("strides buffer allocated inside the parallel loop", T + "_univariate_same_length.py U_SL_apply_all_shapelets"), ("astype copy of the input", T + "rdst.py R_DST.transform")], SH, ["R_DST.transform"])

p("C05", "Every shapelet is a real dilated subsequence of one training series",
  "After fitting, each shapelet's values are the values found in some training series at start, start+dilation, ..., z-normalised per channel exactly when the shapelet is marked normalised, taken on its listed channels at one common start, wrapping around the end only under phase invariance. Consequently transforming the training data gives a zero minimum distance for each shapelet on at least one series.",
  ["inputs", "configurations", "schedules"], "all training sets of the four input kinds, parameter settings, seeds and loop orders",
  "Tests never look at shapelet values.",
  [T + "_univariate_same_length.py", T + "_univariate_variable_length.py", T + "_multivariate_same_length.py", T + "_multivariate_variable_length.py", T + "_commons.py"],
  [("subsequence extraction", T + "_commons.py get_subsequence"), ("packing and final masking of dropped shapelets", T + "_multivariate_same_length.py M_SL_generate_shapelet")], SH, ["R_DST.fit -> shapelets_"])

p("C06", "Sampled shapelet parameters respect every constraint the user set",
  "Every fitted shapelet has a length from the allowed lengths, a dilation of at least 1 whose span fits in the shortest training series (and that is prime, or 1, when prime dilations are requested), between 1 and the channel limit of distinct existing channels, and the number of shapelets never exceeds the number asked for, reaching it when nothing is pruned. The normalised fraction follows the requested probability (none at 0, all at 1), and every admissible length, every smaller-than-maximal admissible dilation, every channel, training series and start position can occur. The shapelets of the classifiers (every member of the ensemble) obey the constraints given to the classifier, a given minimum series length taking the place of the shortest one.",
  ["inputs", "configurations"], "all parameter settings, series lengths, seeds",
  "One test checks primality on two downloaded datasets; the others rely on luck in random sampling (one says so).",
  [T + "_univariate_same_length.py", T + "_multivariate_same_length.py", T + "_univariate_variable_length.py", T + "_multivariate_variable_length.py", T + "rdst.py"],
  [("parameter initialisation", T + "_univariate_same_length.py U_SL_init_random_shapelet_params"), ("prime table and log-biased choice", T + "_commons.py prime_up_to, choice_log")], SH, ["R_DST.fit -> shapelets_"])

p("C07", "Occurrence thresholds come from same-class distances between the percentiles",
  "Each shapelet's threshold lies between the two requested percentiles of its distance vector to another training series of the same class as its source series (to the source itself only when it is the only series of its class). With equal percentiles the threshold is that percentile, otherwise thresholds spread over the whole interval.",
  ["inputs", "configurations"], "all training sets, class layouts (including singleton classes), percentile pairs, kinds of input",
  "No test looks at thresholds.",
  [T + "_univariate_same_length.py", T + "_univariate_variable_length.py", T + "_multivariate_same_length.py", T + "_multivariate_variable_length.py"],
  [("choice of the other sample and percentile draw", T + "_univariate_same_length.py U_SL_generate_shapelet")], SH, ["R_DST.fit -> shapelets_"])

p("C08", "Alpha similarity: near-duplicate shapelets are never sampled",
  "Two shapelets of equal length, dilation and normalisation drawn from the same series (and, for multivariate data, sharing more than the fraction 1-alpha of the larger one's channels) whose starts lie k dilation steps apart (around the end under phase invariance) overlap in length - k sampled points, never more than max(1, floor((1-alpha)*length)). Fewer shapelets than asked are returned, without error, only when for some allowed length, dilation, normalisation and channels every start left would overlap drawn shapelets too much.",
  ["inputs", "configurations", "histories"], "all alphas in [0,1], sampling histories up to exhaustion of the search space, all input kinds",
  "No test inspects where shapelets were drawn from; exhaustion is never reached with the tested sizes.",
  [T + "_univariate_same_length.py", T + "_univariate_variable_length.py", T + "_multivariate_same_length.py", T + "_multivariate_variable_length.py"],
  [("self-similarity sampling mask", T + "_univariate_same_length.py U_SL_generate_shapelet")], [("mask_sampling", "start positions still allowed, per (norm, dilation, sample[, channel])", T + "_univariate_same_length.py")], ["R_DST.fit -> shapelets_"])

p("C09", "Shapelet length specifications resolve to exactly the documented lengths",
  "Integer lengths are used as given, float lengths mean that fraction of the (shortest) series length rounded down, bounds mean every length between them (floats relative to the series length, never below 3) thinned evenly from the lower bound according to the reduction, and lengths longer than the series are replaced, with a warning, by half of the series length and never by less than 2. Lengths below 2 are rejected with ValueError.",
  ["inputs", "configurations"], "all length specifications, bounds, reductions and series lengths",
  "One test samples four specifications on one dataset and admits that it may fail by chance; clipping, lower limits and rejection are not covered.",
  [T + "rdst.py"], [("length resolution", T + "rdst.py R_DST._set_lengths"), ("validation and clipping", T + "rdst.py R_DST._check_params")], SH, ["R_DST.fit -> shapelets_[1]"])

p("C10", "A fixed random_state makes fits and predictions reproducible",
  "Two estimators built with the same parameters and the same integer seed (or equal generator states) and fitted on the same data have identical shapelets, transforms and predictions, whatever the state of the global random generators, whatever was fitted before in the process, and in whatever order an ensemble's members are fitted. Different seeds give different shapelets on data that admits many.",
  ["inputs", "configurations", "histories", "schedules"], "all data, parameters, seeds, prior process histories and ensemble execution orders (one thread per fit)",
  "No test fits twice.",
  [T + "rdst.py", "convst/classifiers/rdst_ensemble.py", "convst/classifiers/rdst_ridge.py", T + "_univariate_same_length.py"],
  [("seed drawn once and passed to the sampler", T + "rdst.py R_DST._check_params"), ("seed() inside the compiled sampler", T + "_univariate_same_length.py U_SL_generate_shapelet")], SH, ["fit/transform/predict"])

p("C11", "Fit replaces everything learned before: refitting equals a fresh fit",
  "After any sequence of earlier fits and predictions, fitting an estimator on a dataset gives the same result as a freshly constructed estimator with the same parameters and seed fitted on that dataset, even if the earlier data had another length, number of series, channels or classes.",
  ["histories", "inputs"], "all sequences of fit/transform/predict calls on transformer, ridge classifier and ensemble, with datasets of differing shapes",
  "Tests only ever fit an estimator once (cross-validation refits the ridge classifier on equal shapes).",
  [T + "rdst.py", "convst/classifiers/rdst_ridge.py", "convst/classifiers/rdst_ensemble.py"],
  [("components rebuilt at each fit", "convst/classifiers/rdst_ridge.py R_DST_Ridge._init_components"), ("parameters resolved at fit time", T + "rdst.py R_DST.fit")],
  [("constructor parameters", "must stay what the user gave", T + "rdst.py R_DST.__init__")], ["fit"])

p("C12", "Estimator parameters round-trip and bad values are rejected up front",
  "For the transformer, ridge classifier and ensemble, the parameters read back are those given, cloning yields an estimator with equal parameters, and changing a parameter through the generic setter is equivalent to constructing with it; this holds before and after fitting. Constructing the transformer with a value of the wrong type or shape (non-boolean flags, non-numeric numbers, malformed percentiles, bounds, lengths or type names) raises ValueError; the classifiers raise it for such values when fitted at the latest. Every documented input-kind name is accepted.",
  ["configurations", "histories"], "all combinations of valid and invalid parameter values, before and after fit",
  "No test uses get_params, set_params or clone, and none covers the estimators' constructors with bad values.",
  [T + "rdst.py", "convst/classifiers/rdst_ridge.py", "convst/classifiers/rdst_ensemble.py", "convst/utils/checks_utils.py"],
  [("constructor validation", T + "rdst.py R_DST.__init__, _validate_transform_type, _validate_percentiles")], [], ["get_params", "set_params", "sklearn clone", "constructors"])

p("C13", "Phase invariance: circularly shifting a series changes only the position",
  "With phase invariance on, circularly shifting a series leaves every minimum distance and every occurrence count unchanged and moves the match position by the shift modulo the series length; the number of candidate positions equals the series length. With it off, no window ever crosses the end of the series.",
  ["inputs", "configurations"], "all series, shifts and shapelets",
  "Phase invariance is not exercised by any test.",
  [T + "_commons.py"], [("modulo indexing", T + "_commons.py _generate_strides_1D_phase, _generate_strides_2D_phase, _get_subsequence_phase")], SH, ["R_DST.transform"])

p("C14", "Normalised shapelets are scale- and offset-invariant, raw ones equivariant",
  "For shapelets marked normalised, multiplying a series by a positive factor and adding a constant (per channel) leaves the minimum distance and occurrence count unchanged up to rounding. For raw shapelets, applying the same offset to series and shapelet changes nothing, and scaling series, shapelet and threshold by the same positive factor scales the minimum distance by it and leaves position and count unchanged.",
  ["inputs"], "all series with non-degenerate windows, all affine maps, all shapelets",
  "No test relates two transforms.",
  [T + "_commons.py", T + "_univariate_same_length.py", T + "_multivariate_same_length.py", T + "_univariate_variable_length.py", T + "_multivariate_variable_length.py"],
  [("window z-normalisation", T + "_univariate_same_length.py U_SL_apply_all_shapelets")], SH, ["R_DST.transform"])

p("C15", "The result does not depend on how the same data is represented",
  "The same series given with another numeric dtype holding equal values, another memory layout, or as a list versus an object array, give identical shapelets and features; the automatically chosen kind is the one matching the data and choosing it explicitly changes nothing. For given shapelets, same-length data gives the same features as the same data passed as a collection, and one-channel data the same as through the multivariate path.",
  ["inputs", "configurations"], "all datasets, dtypes, layouts, containers and explicit kinds",
  "test_auto_type checks the chosen kind on four downloaded float64 datasets only.",
  [T + "rdst.py"], [("kind detection", T + "rdst.py R_DST._auto_class"), ("dispatch", T + "rdst.py R_DST._set_fit_transform")], SH, ["R_DST.fit", "R_DST.transform"])

p("C16", "Ridge classifier equals the pipeline transform, scale, ridge on its labels",
  "The ridge classifier behaves exactly as the pipeline of a transformer with the same parameters and seed, standardisation of the non-constant features, and a cross-validated ridge classifier: same shapelets, same predictions. Predictions are always labels seen in training, one per series and independent of the other series, and the score is the fraction of correct predictions.",
  ["inputs", "configurations"], "all datasets, label sets (any integers, two or more classes), options of the classifier",
  "Tests check an accuracy floor on five datasets.",
  ["convst/classifiers/rdst_ridge.py", T + "_input_transformers.py"], [("component construction", "convst/classifiers/rdst_ridge.py R_DST_Ridge._init_components")], [], ["R_DST_Ridge.fit/predict/score"])

p("C17", "Ensemble predicts the weighted soft vote, in the caller's labels",
  "The ensemble predicts, for each series, the training label with the largest sum over members of the member's class probabilities (the softmax of its ridge decision values, one per class, -d and d when there are two classes) times its leave-one-out training accuracy raised to the configured power. Renaming the class labels in an order-preserving way renames the predictions and changes nothing else, and member execution order is irrelevant.",
  ["inputs", "configurations", "schedules"], "all datasets, label sets, member transformers, weights and execution orders",
  "No test touches the ensemble.",
  ["convst/classifiers/rdst_ensemble.py"], [("weights", "convst/classifiers/rdst_ensemble.py _internalRidgeCV.get_loocv_train_acc"), ("vote", "convst/classifiers/rdst_ensemble.py R_DST_Ensemble.predict")],
  [("model_weights", "accuracy ** a_w per member", "convst/classifiers/rdst_ensemble.py")], ["R_DST_Ensemble.fit/predict"])

p("C18", "Input representations compute their mathematical definition per channel",
  "The derivative input equals the repeated first difference along time, the periodogram input the one-sided power spectrum of each channel for the chosen window, the z-normalising input zero mean and unit deviation per series and channel (zero for constants), the Hankel input the fast Hankel transform of each series with the offset that is optimal for its own parameters, and the raw input the data itself. In random mode every fit draws one of the orders 1 to 4, or one of the windows, any of them. Each treats series and channels independently and leaves its input unchanged.",
  ["inputs", "configurations"], "all 3D datasets, orders, windows and transform parameters",
  "No test covers the input transformers.",
  [T + "_input_transformers.py"], [("transform methods", T + "_input_transformers.py Derivate, Periodigram, Z_normalizer, FastHankelTransform, Raw")], [], ["fit_transform"])

p("C19", "Feature scalers drop constant features and never emit NaN or infinity",
  "The standardising and min-max scalers used on the features keep exactly the features that vary in the data they were fitted on, in order, and scale those to zero mean and unit variance, respectively to [0,1], on that data. New data is mapped with the fitted statistics only, giving finite values of the same width even where its own features are constant.",
  ["inputs", "histories"], "all finite feature matrices, with any pattern of constant columns, fitted and refitted",
  "No test covers the scalers.",
  [T + "_input_transformers.py"], [("column selection", T + "_input_transformers.py c_StandardScaler, c_MinMaxScaler")], [("usefull_atts", "indices of kept columns", T + "_input_transformers.py")], ["fit/transform"])

p("C20", "Dataset z-normalisation: zero mean, unit deviation, constants to zero",
  "Z-normalising a dataset, as an array or as a list of variable-length series, gives each series and channel mean zero and standard deviation one up to the guard term, maps constant channels to zero, is unchanged by positive affine changes of a channel, and treats the array and the list form of the same data alike.",
  ["inputs"], "all finite float datasets, array or list form",
  "One test checks all-zeros and all-ones arrays (and cannot run here).",
  ["convst/utils/dataset_utils.py", T + "_input_transformers.py"], [("normalisation", "convst/utils/dataset_utils.py z_norm_3D, z_norm_3D_list"), ("compiled variant", T + "_input_transformers.py z_norm_all_samples")], [], ["z_norm_3D", "z_norm_3D_list", "load_UCR_UEA_dataset_split"])

p("C21", "Dataset loading keeps series and labels aligned and encodes labels once",
  "Loading a split returns every series of the archive's train and test parts in order, with labels encoded by one common order-preserving encoding onto 0..k-1, the true minimum series length over both parts, and series z-normalised exactly when asked. Loading a whole dataset returns the train part followed by the test part, for fixed- and variable-length datasets alike.",
  ["inputs", "configurations"], "all archive contents: fixed or variable length, uni- or multivariate, any label names",
  "The tests download two fixed-length univariate datasets and check shapes.",
  ["convst/utils/dataset_utils.py"], [("loading", "convst/utils/dataset_utils.py load_UCR_UEA_dataset_split, load_UCR_UEA_dataset")], [], ["load_UCR_UEA_dataset_split", "load_UCR_UEA_dataset"])

p("C22", "Stratified resampling is a class-preserving, seeded re-partition",
  "Resampling a train/test pair returns the same multiset of (series, label) pairs re-partitioned so that each part keeps its size and its class counts, with every series still paired with its own label. The result depends only on data and seed, differs between seeds when there is room, and leaves the inputs unchanged.",
  ["inputs", "configurations"], "all fixed- or variable-length datasets, label sets and seeds",
  "No test covers resampling except through accuracy floors.",
  ["convst/utils/experiments_utils.py"], [("per-class shuffle and split", "convst/utils/experiments_utils.py _resample")], [], ["_resample"])

p("C23", "Cross-validation evaluates on the original split, then seeded resamples",
  "Cross-validated scoring fits and evaluates the pipeline once per fold, on the archive's own split for the first fold and on the resample of that split seeded by the fold number afterwards, each score comparing predictions on the fold's test part with its true labels and each reported time covering that fold's fitting and prediction. The splitter used for grid search yields, for each fold, the indices of exactly those train and test series within the concatenated dataset, and the grid search reports the requested scorer on them.",
  ["inputs", "configurations", "histories"], "all datasets with distinct series (of fixed length for grid search), numbers of folds, scorers and pipelines",
  "Only an accuracy floor is checked, on downloaded data.",
  ["convst/utils/experiments_utils.py"], [("folds", "convst/utils/experiments_utils.py cross_validate_UCR_UEA.score"), ("index recovery", "convst/utils/experiments_utils.py _sklearn_cv.split")], [], ["cross_validate_UCR_UEA.score", "_sklearn_cv.split", "grid_search_UCR_UEA.score"])

p("C24", "Input checks accept exactly valid inputs, unchanged, else ValueError",
  "Each validation helper returns its argument's values unchanged when the argument has the required type, number of dimensions, non-empty size and, for 3D data, more than the minimum number of timestamps and the allowed number of channels, and raises ValueError for everything else. Booleans are never accepted as numbers nor numbers as booleans, and a number-of-jobs request yields 1 for none, at most the number of cores for a positive request, and otherwise counts back from the number of cores, never below 1.",
  ["inputs"], "all Python values: arrays and lists of any rank, size and dtype, data frames, scalars, other objects",
  "Tests sample 22 fixed shapes and values; lists, frames, minimum timestamps, univariate mode, numeric/boolean and n_jobs checks are not covered.",
  ["convst/utils/checks_utils.py"], [("checks", "convst/utils/checks_utils.py")], [], ["check_array_1D/2D/3D", "check_is_numeric", "check_is_boolean", "check_n_jobs"])

p("C25", "Malformed or mismatched data is rejected, never silently transformed",
  "Using an estimator before fitting, or giving it arrays of wrong rank, empty or too short arrays, collections whose series disagree on channels, data with another number of channels than it was fitted on, or series too short for a fitted shapelet, raises an error instead of producing features. No input makes the computation read outside the series it was given.",
  ["inputs", "histories"], "all malformed inputs at fit and at transform/predict time, after any fit",
  "Tests only cover the standalone shape checks; the compiled code performs no bounds checks, so a mismatch would read foreign memory silently.",
  [T + "rdst.py", "convst/utils/checks_utils.py", T + "_commons.py"], [("shape checks", T + "rdst.py R_DST.fit, R_DST.transform"), ("uneven formatting check", T + "rdst.py R_DST._format_uneven_timestamps")], SH, ["R_DST.fit", "R_DST.transform", "R_DST_Ridge.predict"])

p("C26", "Shapelet plots show the same match and distances as the features",
  "Plotting a shapelet on a series highlights exactly the indexes of the first best match that the transform reports (wrapping only under phase invariance), with the shapelet's values, rescaled to the matched values' mean and deviation when it is normalised; the plotted distance curve has the transform's minimum and occurrence count at the drawn threshold, which is drawn along the whole curve. The title of a shapelet's plot states its dilation, normalisation and threshold; the axes, figure size, colours and labels asked for are those used. The interpreter shows the requested shapelet, accepts only fitted transformers, and reports multivariate transformers as not supported.",
  ["inputs", "configurations"], "all fitted univariate transformers, shapelet ids and series",
  "No test covers the interpreters.",
  ["convst/interpreters/rdst_interpreter.py"], [("best match", "convst/interpreters/rdst_interpreter.py Shapelet.plot_on_X"), ("parameter lookup", "convst/interpreters/rdst_interpreter.py RDST_interpreter._get_params")], SH, ["calls received by the plotting library"])

p("C27", "Ridge interpretation attributes each coefficient to its own shapelet",
  "The importance reported for a class has one entry per transformed feature, equal to the ridge coefficient of that feature for that class (negated for the first of two classes) and zero for dropped constant features. The best shapelets visualised for a class are the distinct shapelets owning the largest coefficients, in order, each drawn in a figure of its own with its features, each titled and split by class membership under the right group names, its values, and the series and distance vector of one example of the class and of one of the others, under their own labels.",
  ["inputs", "configurations"], "all fitted ridge classifiers, classes, and numbers of shapelets to show",
  "No test covers the interpreters.",
  ["convst/interpreters/rdst_interpreter.py"], [("importance", "convst/interpreters/rdst_interpreter.py RDST_Ridge_interpreter._get_shp_importance"), ("selection", "convst/interpreters/rdst_interpreter.py visualize_best_shapelets_one_class")], [], ["_get_shp_importance", "calls received by the plotting library"])

p("C28", "Pairwise comparison plots count every dataset once as win, draw or loss",
  "For each competitor of a performance table, the pairwise plot draws the competitor's scores against the baseline's and reports how many datasets the baseline wins by more than the margin, draws within the margin, and loses by more than the margin; the three always add up to the number of datasets. Each competitor gets its own labelled panel whatever the number of columns, with the diagonal and a line at the margin on either side, and exactly the datasets whose difference exceeds the display limit are named.",
  ["inputs", "configurations"], "all score tables, margins, baselines, layouts",
  "No test covers the plots.",
  ["convst/utils/plot_utils.py"], [("win-draw-loss text and panel layout", "convst/utils/plot_utils.py pairwise_plot")], [], ["calls received by the plotting library"])

p("C29", "Classifier ranking statistics are correct and independent of row order",
  "The comparison statistics pair accuracies by dataset, keep only classifiers tested on the maximum number of datasets, report each pair's Wilcoxon p-value with Holm's step-down decision at the requested level, and average ranks (best accuracy first) that sum to m(m+1)/2, whatever the row order of the input table. The cliques drawn are exactly the maximal groups of mutually non-significant classifiers, and the diagram is saved where asked.",
  ["inputs", "configurations"], "all result tables, row orders, levels and incomplete classifiers",
  "No test covers the statistics.",
  ["convst/utils/plot_utils.py"], [("tests and correction", "convst/utils/plot_utils.py _wilcoxon_holm"), ("cliques", "convst/utils/plot_utils.py _form_cliques"), ("drawing", "convst/utils/plot_utils.py draw_cd_diagram, _graph_ranks")], [], ["_wilcoxon_holm", "_form_cliques", "draw_cd_diagram"])

p("C30", "Row-unique and all-reduction helpers agree with numpy",
  "The compiled unique-rows helper returns exactly the distinct rows (or columns) in sorted order with the index of their first occurrence and their number of occurrences, for any numeric 2D input, without changing it. The all-reduction supplied for compiled code gives numpy's result for one- and two-dimensional boolean arrays on axis 0, 1 and none, and refuses other ranks, other types and axes that are no integer.",
  ["inputs"], "all non-empty 2D numeric arrays, axes; all boolean arrays of rank 1-2",
  "No test covers these helpers.",
  ["convst/utils/numba_utils.py"], [("mergesort by columns", "convst/utils/numba_utils.py nb_unique"), ("overload", "convst/utils/numba_utils.py np_all")], [], ["nb_unique", "np_all"])

p("C31", "Window, subsequence and distance helpers are mutually consistent",
  "For every series, length, dilation and mode, the i-th generated window holds the values at i, i+d, i+2d, ... (modulo the length under phase invariance), the extracted subsequence at i equals that window (z-normalised when asked), the distance vector's i-th entry is the Manhattan distance from the shapelet to that window, the 2D form equals the 1D form per channel, and a subsequence is at distance zero from its own position. The distance functions are metrics agreeing with their definitions.",
  ["inputs"], "all series, window sizes, dilations, modes; all vectors",
  "Tests check shapes and the first window for three fixed sizes without phase invariance (and cannot run here).",
  [T + "_commons.py"], [("windows", T + "_commons.py generate_strides_1D, generate_strides_2D"), ("subsequence", T + "_commons.py get_subsequence"), ("distance vector", T + "_commons.py compute_shapelet_dist_vector"), ("distances", T + "_commons.py euclidean, squared_euclidean, manhattan")], [], ["helper return values"])

p("C32", "Sampling helpers: primes, log-biased choice and unique pairs are exact",
  "The prime table up to n holds exactly 1 and the primes up to n, the log-biased choice always returns valid indexes with probabilities proportional to 2^-ln(i) (so smaller values are more likely and every one is possible), and the unique-pairs helper returns each occurring (length, dilation) pair exactly once.",
  ["inputs"], "all n, sizes, random states and pair lists",
  "One test uses the primality helper as its own oracle.",
  [T + "_commons.py"], [("helpers", T + "_commons.py is_prime, prime_up_to, choice_log, _combinations_1d")], [], ["helper return values"])

p("C33", "Subsampling the training series keeps series, lengths and classes aligned",
  "With a training proportion set, shapelets are drawn from a class-stratified subset of that size of the training series, each with its own length and label, chosen by the estimator's random state; all properties of fitted shapelets hold with respect to that subset. The full data is still accepted by transform afterwards.",
  ["inputs", "configurations"], "all proportions below and above one, all four input kinds, all seeds",
  "No test sets a training proportion.",
  [T + "rdst.py"], [("subsampling", T + "rdst.py R_DST.fit")], SH, ["R_DST.fit -> shapelets_"])

p("C34", "Output normalisation scales position and occurrence by the series length",
  "With output normalisation on, the match position and the occurrence count of every shapelet are the ones without it divided by the length of the series they were computed on, hence in [0,1], and the minimum distances are unchanged, for fixed- and variable-length input and through the classifiers.",
  ["inputs", "configurations"], "all data kinds, shapelets and series lengths",
  "No test sets the option.",
  [T + "rdst.py", "convst/classifiers/rdst_ensemble.py", "convst/classifiers/rdst_ridge.py"], [("documented option", T + "rdst.py R_DST docstring, R_DST.transform")], SH, ["R_DST.transform"])

p("C35", "Compilation switches set before import apply to every compiled function",
  "For every combination of the four package-level compilation switches set before the modules are imported, no compiled function of the package uses caching, fast math, GIL release or parallelism when the corresponding switch is off, and the transform and sampling entry points follow caching, GIL release and parallelism (the transform also fast math) when they are on. Results with parallelism off equal the results with it on, on one thread.",
  ["configurations"], "all 16 switch combinations, all compiled functions of the package",
  "No test changes the switches; a decorator with a literal instead of the switch works in every test.",
  ["convst/__init__.py", T + "_commons.py", T + "_univariate_same_length.py", T + "_multivariate_same_length.py", T + "_univariate_variable_length.py", T + "_multivariate_variable_length.py", T + "_input_transformers.py", "convst/utils/dataset_utils.py", "convst/utils/numba_utils.py"],
  [("switches read by decorators", "convst/__init__.py __USE_NUMBA_*__")], [], ["decorator options"])

p("C36", "A seeded fit gives the same shapelets for every number of threads",
  "For a fixed seed and dataset, the fitted shapelets are the same whatever number of threads the estimator is allowed to use.",
  ["schedules", "configurations"], "all thread counts and thread schedules of the compiled sampler",
  "No test compares thread counts, and the compiled runtime is not installable here.",
  [T + "_univariate_same_length.py", T + "_multivariate_same_length.py", T + "_univariate_variable_length.py", T + "_multivariate_variable_length.py"],
  [("seed() before the parallel loop", T + "_univariate_same_length.py U_SL_generate_shapelet")], SH, ["R_DST.fit"])

p("C37", "Fit, transform and predict succeed on every valid input, however degenerate",
  "On any finite dataset with series of at least 3 points - constant or duplicated series, a single series or class, any magnitude, any label values - and any valid parameters, fitting the transformer succeeds and yields between one and n_shapelets shapelets (none only if every window it draws is flat), and transforming this or other matching data gives a finite array with three columns per shapelet. The classifiers, given at least two classes and a feature that varies, predict one training label per series, and score within [0,1].",
  ["inputs", "configurations"], "all finite datasets of the four kinds, from 1 series and 3 points, all label sets, all valid parameter combinations",
  "The few fits in the tests use well-behaved archive data and cannot run offline; exhausted search spaces, flat data, singleton classes and extreme parameters never occur.",
  [T + "rdst.py", T + "_univariate_same_length.py", T + "_multivariate_same_length.py", T + "_univariate_variable_length.py", T + "_multivariate_variable_length.py", "convst/classifiers/rdst_ridge.py", "convst/classifiers/rdst_ensemble.py"],
  [("sampling until the mask is empty", T + "_univariate_same_length.py U_SL_generate_shapelet"), ("guarded standard deviation", T + "_commons.py"), ("parameter resolution", T + "rdst.py R_DST._check_params, _set_lengths")], SH, ["fit", "transform", "predict", "score"])

p("C38", "Fitted estimators can be copied, pickled and reused; using them changes nothing",
  "A fitted transformer, ridge classifier or ensemble that is deep-copied or pickled, here or into another process, transforms and predicts exactly as the original. Using it, copying it, reading its parameters, fitting its copies on other data or fitting other estimators never changes its results or what it learned. fit_transform gives the result of fit followed by transform, alone and inside a pipeline.",
  ["histories", "inputs"], "all sequences of uses, copies and fits of other estimators, all kinds of data",
  "No test pickles, copies or reuses an estimator.",
  [T + "rdst.py", "convst/classifiers/rdst_ridge.py", "convst/classifiers/rdst_ensemble.py"],
  [("everything learned is held by the instance", T + "rdst.py R_DST.fit"), ("components rebuilt per instance", "convst/classifiers/rdst_ridge.py R_DST_Ridge._init_components"), ("members kept in the ensemble", "convst/classifiers/rdst_ensemble.py R_DST_Ensemble.fit")], SH, ["transform", "predict", "fit_transform", "pickle", "copy"])

p("C39", "n_jobs is a thread budget: honoured, never exceeded, without effect on results",
  "While the transformer or ridge classifier fits, transforms or predicts, compiled code runs with exactly the number of threads its n_jobs stands for on the machine (1 for none, all cores for -1, never more than the cores), whatever other estimators or the caller asked for before; n_jobs=False leaves the caller's setting alone. The ensemble runs min(members, budget) members at once with budget divided by that many (whole) threads each, so the product never exceeds the budget and neither is below one. Results are the same for every n_jobs when loops run in sequence.",
  ["configurations", "histories"], "all n_jobs values, numbers of cores and members, orders of construction and use of several estimators",
  "No test looks at the number of threads; results are the same with any, only the load differs.",
  [T + "rdst.py", "convst/classifiers/rdst_ridge.py", "convst/classifiers/rdst_ensemble.py", "convst/utils/checks_utils.py"],
  [("threads set before compiled code runs", T + "rdst.py R_DST.fit, transform"), ("split of the budget", "convst/classifiers/rdst_ensemble.py R_DST_Ensemble._manage_n_jobs"), ("resolution", "convst/utils/checks_utils.py check_n_jobs")], [], ["numba thread count during compiled calls", "joblib.Parallel n_jobs"])

p("C40", "Class labels are only names",
  "Renaming the classes - in any order, to any distinct integers, or another numeric or boolean type - leaves the transformer's shapelets and features bit-identical (with a training proportion set, when the renaming keeps the order), and renames the ridge classifier's and the ensemble's predictions without changing which class is predicted for any series that is not a near-tie.",
  ["inputs"], "all label sets and renamings, all kinds of data, class weights given by name",
  "The tests use labels encoded to 0..k-1, for which a label used as an index works.",
  [T + "rdst.py", T + "_univariate_same_length.py", T + "_multivariate_same_length.py", T + "_univariate_variable_length.py", T + "_multivariate_variable_length.py", "convst/classifiers/rdst_ridge.py", "convst/classifiers/rdst_ensemble.py"],
  [("same-class selection by equality", T + "_univariate_same_length.py U_SL_generate_shapelet"), ("mapping back to labels", "convst/classifiers/rdst_ensemble.py R_DST_Ensemble.predict, _internalRidgeCV.get_loocv_train_acc")], SH, ["fit", "transform", "predict", "score"])

p("C41", "The critical difference diagram reads as the statistics it is drawn from",
  "The diagram's linear scale shows the ranks 1 to the number of classifiers, better ones to the right. Every classifier is named once, at a place of its own, joined to the scale at its own average rank, labelled with that rank exactly when values are asked for, and coloured exactly when it is the highlighted one; names are stacked so that their lines do not cross. Each group of not significantly different classifiers has a horizontal bar from its first to its last rank, overlapping groups at different heights, the title is the one given, and no line leaves the figure.",
  ["inputs", "configurations"], "all result tables, levels, widths, highlights, titles",
  "No test covers the plots.",
  ["convst/utils/plot_utils.py"], [("drawing", "convst/utils/plot_utils.py _graph_ranks"), ("assembly", "convst/utils/plot_utils.py draw_cd_diagram")], [], ["calls received by the plotting library"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
