# id: (specified / oracle, why generated input reaches what tests cannot / bounds)
P = {
"C01": "Reference model: brute-force numpy definition (every window, sum of absolute differences, first minimum, count of distances at most the threshold), independent of the repository's helpers. Data on a dyadic grid makes arithmetic exact, so ties and thresholds equal to distances are decided exactly; generic data is compared within a tolerance derived from the scale of the values (a comparison whose distance is within the error of the threshold accepts both counts). Crafted shapelets reach ties, zero thresholds, spans equal to the series and values the sampler would never draw.",
"C02": "As C01 with a sum over exactly the channels of the shapelet, in the order of its values; the flattened values and channel ids are decoded by the oracle from counts alone.",
"C03": "As C01/C02 on each series' own timestamps; plus a metamorphic relation (features of a series alone = in the collection = with a longer companion = as fixed-length data) that needs no reference, and provenance and thresholds of the fitted shapelets within real timestamps.",
"C04": "Batch relations (repetition, reordering, subsets give the same rows, bit by bit; arguments, shapelets and earlier results unchanged) and generated schedules of the parallel loop, permuted or interleaved at line events: the result must be the sequential one. Interleavings reach shared buffers and races that a sequential run hides.",
"C05": "Exhaustive search of every training series, start and (for the channels of the shapelet) one common position whose values equal the shapelet (z-normalised when it is flagged); also under permuted parallel fits.",
"C06": "Invariants on each sampled parameter; support by counting 500 draws per length with nothing prunable: everything with an expected count above 30 must occur (probability of a false alarm below 1e-12 per event); 4000 draws from up to 120 series of up to 70 points for the choice of place; proportions within 6.5 sigma. Bound: uniformity is tested per parameter, not jointly.",
"C07": "All sources of a shapelet are recovered as in C05; the threshold has to lie between the two percentiles of the distances to some series of the source's class other than the source (itself if alone), union over possible sources. `spread` tests that thresholds use the whole interval.",
"C08": "Independent model of the documented similarity: positions already covered by shapelets of the same dilation and normalisation in the same series; pairs of shapelets sharing more than allowed are violations; exhausted spaces return fewer shapelets.",
"C09": "Reference model of the documented length rules (integers, fractions in double or single precision, bounds, reduction, clipping with a warning, rejection), union over seeds equal to the documented set.",
"C10": "Repeatability of fits, transforms and predictions, bit by bit, under disturbance of every global generator, other fits in between, member execution orders (joblib stand-in), and in another process with another hash seed; distinct seeds give distinct results.",
"C11": "Stateful: histories of fits on data of other sizes, kinds, classes with uses and set_params in between, then compared bit by bit with a fresh estimator. Known finding: transform_type='auto' sticks to the first kind (asserted by a test of the repository).",
"C12": "get_params/set_params/clone round trips before and after fit (n_jobs None/-1/-2/1000 included), set_params against construction, negative testing of one bad value among valid ones, all kinds accepted.",
"C13": "Metamorphic: circular shifts of each series by its own amount leave minimum and occurrence, and move the position by the shift (unique best match); spans longer than the series; with the option off, content across the end must not match.",
"C14": "Metamorphic: affine maps exact in floating point per series and channel leave normalised features unchanged; offset/power-of-two scaling of raw ones is bit exact; the same at fit.",
"C15": "Metamorphic over representations: dtypes, byte order, strides, Fortran order, read-only, lists/object arrays, label dtypes, explicit kind; hand-made shapelets through two kinds must agree.",
"C16": "Differential: the classifier against a pipeline assembled by the check from its documented parts (fitted transformer, scaler, ridge with the same alphas, weights, intercept), with its own labels; near-ties (margin below 1e-6) are not judged.",
"C17": "Differential: weights (leave-one-out accuracy to the power a_w) and votes recomputed from members rebuilt by the check; order-preserving renaming; member execution order. Known finding: the default members cannot take variable-length series.",
"C18": "Definitions written independently: n-th difference, direct Fourier sum of the (detrended, windowed) series, standardisation, FFTLog; input unchanged, per series, repeatable.",
"C19": "Definition (standardise or rescale the columns that vary, drop the others), for any pattern of constant columns, refits, other data; never NaN or infinity.",
"C20": "Definition of z-normalisation within an error bound derived from the values; array, list and compiled forms agree; constants give zeros; affine invariance.",
"C21": "Fake archive (aeon stand-in serving generated content, or aeon-style errors) through both loaders: rows, order, dtype, one encoding of labels over both parts.",
"C22": "Model: multiset of pairs preserved, sizes, class counts, repeatable by seed, inputs untouched, classes really re-partitioned over sixty seeds.",
"C23": "Recording estimator: what it is fitted on and asked to predict, per fold, against the archive's split and then C22's resamples; scores by the definition; the reported time against a clock inside the estimator; grid search scores per parameter and fold, with the default and other scorers.",
"C24": "Model of the documented accept/reject rules on arrays, ragged and nested lists, frames, series, tuples, other objects; scalars; check_n_jobs on machines of 1 to 64 cores.",
"C25": "Negative testing at fit and at use: every malformation has to raise (ValueError family), exactly long enough data must be accepted, after refits too.",
"C26": "The drawing calls recorded by the matplotlib stand-in are compared with the features of C01's definition: place and values of the match, distance curve, threshold.",
"C27": "The coefficients drawn and the shapelets chosen as best are compared with the coefficients of the classifier by shapelet, also for an interpreter made before the classifier was fitted again.",
"C28": "Counts in the text boxes against a direct count (margin included), sum = number of datasets, one panel per competitor, named datasets exactly those beyond the limit.",
"C29": "Exact Wilcoxon statistics from scipy in the main lane by RPC, Holm's procedure and average ranks computed by the check, row order permuted; cliques maximal by exhaustive enumeration of subsets.",
"C30": "Differential against numpy (np.unique by rows, np.all).",
"C31": "Windows, subsequences and distances defined by index arithmetic in the check; identities between the helpers.",
"C32": "Primes against trial division; the log-biased choice against exact probabilities (chi-square like bound at 1e-9); unique pairs against a set.",
"C33": "Bookkeeping of which series a shapelet comes from (offset data makes the source readable), class proportions of the subset by the documented stratification, lengths, seeds.",
"C34": "Metamorphic: with and without normalize_output on the same seed, ratio equals the length of the series, with the other options given together.",
"C35": "Configuration testing: each combination of switches set before import; the options every compiled function was created with are recorded by the numba stand-in.",
"C37": "Totality: no oracle but shape, finiteness and the set of labels, so that the generator can go anywhere valid: constants, duplicates, single series and classes, 3 points, magnitudes 1e-150..1e150, extreme alpha, exhausted spaces.",
"C38": "Stateful: uses, copies (pickle protocols, deepcopy, twice), fits of copies and of other estimators of the same and of other kinds, an array whose content changes in place; results compared bit by bit throughout; another process; fit_transform.",
"C39": "Simulated machines (cpu_count, numba's limit): the threads in force are recorded at every compiled call and joblib.Parallel; results equal for all n_jobs, also when n_jobs or the machine changes between fit and use.",
"C40": "Metamorphic: bijections of labels, dtypes, weights by name. When a renaming changes the order of the classes and the ridge then selects another of equally good penalties (sums in another order), the case is not judged.",
"C41": "The drawing calls recorded by the stand-in are read back: scale, ticks, leaders, names, values, colours, bars; compared with the statistics of C29's oracle.",
}
COST = {}
