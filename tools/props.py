"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, pathlib

V = pathlib.Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, level_note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, state=state, level_note=level_note, technique=technique))


K = "python/polars_ds/exprs/"
prop("P01", "Nearest-neighbour expressions agree with exhaustive search",
     "For any feature columns without infinities, and each of the l1, l2, squared-l2 and inf distances, the k-nearest-neighbour, neighbour-average, k-th-neighbour-distance, radius and neighbour-count expressions return exactly what an exhaustive search over the eligible rows returns (k+1 nearest including the row itself, in ascending distance, within the distance bound; ties may be resolved either way), whether or not they run in parallel. "
     "Rows with a missing (null or NaN) feature are never anybody's neighbour and get no result; the data mask and the evaluation mask restrict neighbours and evaluated rows respectively, and a null radius gives a null count. "
     "Frequency counts are the number of neighbour lists a row occurs in, and the point filters keep exactly the rows within the radius, or among the k nearest, of the given point.",
     ["inputs", "configurations"], "all finite feature matrices with missing entries (any dimension, duplicates, constant columns, ties), every k, radius, bound, mask, metric, parallel flag and chunk layout, with at least one eligible row",
     "The tests compare a handful of random frames with scikit-learn for a few k and metrics, without ties, masks with nulls, NaN, constant columns or dimensions where the leaf size and the SIMD path change.",
     ["src/num_ext/knn.rs", "src/arkadia/kdt.rs", "src/arkadia/mod.rs", "src/utils/mod.rs", K + "expr_knn.py"],
     [("branch-and-bound search with box distances", "src/arkadia/kdt.rs"), ("metric dispatch by dimension", "src/utils/mod.rs"), ("null/mask filtering and parallel split", "src/num_ext/knn.rs")],
     ["result columns of query_knn_ptwise, query_knn_freq_cnt, query_knn_avg, query_radius_ptwise, query_radius_freq_cnt, query_nb_cnt, query_dist_from_kth_nb, is_knn_from, within_dist_from"])
prop("P02", "A KDTree answers queries as exhaustive search after any history of additions",
     "After any sequence of building from a matrix and adding further matrices, the tree holds every row added so far, indexed in order of insertion, independent of later changes to the caller's arrays. "
     "Every k-nearest query (padded with the maximal index and infinite distance beyond what the bound admits), radius query (scalar or one radius per query point, sorted on request) and radius count equals an exhaustive search over those rows, in parallel or not. "
     "With a positive epsilon no reported distance exceeds the true one by more than epsilon, and mismatched dimensions, k of zero or unknown metrics are rejected without changing the tree.",
     ["histories", "inputs", "configurations"], "all histories of build/add/query over finite matrices of any dimension, all four metrics, all k, radii and bounds",
     "The one test builds a single 2000x3 tree and compares one k and one radius with SciPy; it never adds points, uses a bound, a per-point radius, or another metric.",
     ["src/arkadia/kdt.rs", "src/arkadia/mod.rs", "src/pymodels/py_kdt.rs", "python/polars_ds/spatial.py"],
     [("median split, bounding boxes kept on insertion", "src/arkadia/kdt.rs OwnedKDT"), ("padding and parallel thresholds", "src/pymodels/py_kdt.rs")],
     ["KDTree.knn, within, within_count, add, count, len"],
     state=[dict(name="tree contents", meaning="rows inserted so far, with their insertion index", where="src/arkadia/kdt.rs")])
prop("P03", "String edit distances and similarities equal their definitions",
     "For any two Unicode strings, compared character by character, the Levenshtein, Damerau-Levenshtein (unrestricted), optimal-string-alignment, Hamming (plain: defined for equal lengths only; padded: extra characters count as mismatches), longest-common-subsequence, Jaro, Jaro-Winkler and fuzzy-ratio expressions return the value of their textbook definition, and the normalised or similarity variants are the documented function of it. "
     "The answer for a row depends only on that row's two strings: comparing with a scalar string or with a column, in parallel or not, gives the same values, and a null on the row gives null. "
     "The edit-distance filters keep exactly the rows whose distance is within the bound.",
     ["inputs", "configurations"], "all pairs of strings (ASCII and multi-byte, empty, equal, prefixes, transpositions, repeated letters), scalar or column operand, parallel or not, any chunk layout",
     "The tests use a few short ASCII words each; they never reach multi-byte text, interleaved transpositions, the empty string or scalar-versus-column agreement.",
     ["src/str_ext/levenshtein.rs", "src/str_ext/osa.rs", "src/str_ext/lcs_seq.rs", "src/str_ext/jaro.rs", "src/str_ext/hamming.rs", "src/str_ext/fuzz.rs", "src/str_ext/generic_str_distancer.rs", K + "string.py"],
     [("batch comparators over chars", "src/str_ext/generic_str_distancer.rs")], ["str_leven, str_d_leven, str_osa, str_hamming, str_lcs_seq, str_jaro, str_jw, str_fuzz, filter_by_levenshtein, filter_by_hamming"])
prop("P04", "Set-based string similarity and string look-up equal their definitions",
     "Jaccard, overlap, Sorensen-Dice and Tversky similarities of two non-empty strings are those of their sets of n-grams (taken over the UTF-8 bytes, as documented; a string shorter than n is its own only gram), so they equal 1 for strings with equal sets, 0 for disjoint ones, and are unaffected by parallel execution or by giving the other string as a scalar or a column. "
     "The nearest-string query returns the column's string at minimal (Levenshtein or Hamming) distance from the given word among those within the threshold, and null when there is none; vocabulary similarity tells whether the average, every one or any one of the row's normalised similarities with the vocabulary words reaches the threshold. "
     "A null row gives null similarity and is never the nearest string.",
     ["inputs", "configurations"], "all string columns with nulls and multi-byte text, all n-gram sizes, vocabularies, thresholds and weights",
     "Each function has one or two fixed examples in the tests.",
     ["src/str_ext/str_jaccard.rs", "src/str_ext/overlap.rs", "src/str_ext/sorensen_dice.rs", "src/str_ext/tversky.rs", "src/str_ext/mod.rs", "src/str_ext/nearest_str.rs", K + "string.py"],
     [("n-gram sets and intersection counts", "src/str_ext/mod.rs")], ["str_jaccard, str_overlap_coeff, str_sorensen_dice, str_tversky_sim, str_nearest, similar_to_vocab"])
prop("P05", "String cleaning and case conversion do what they say for any text",
     "Removing diacritics, replacing or removing non-ASCII characters, normalising whitespace or Unicode form, mapping words, extracting numbers, tokenising and converting words of any common identifier style to snake, camel, pascal or constant case return, for every string, the result of the documented rule applied to that string alone, and null for null. "
     "Whitespace normalisation, Unicode normalisation and case conversion are idempotent, and the output never contains what the operation is to remove. "
     "Stop words are recognised exactly as listed (case-sensitively), and stemming maps numbers and (on request) stop words to the empty string and every other lower-case word to its stem under the published English (Porter2) Snowball algorithm; stemmed tokenisation yields the distinct non-empty stems.",
     ["inputs"], "all Unicode strings, including empty, whitespace-only, combining marks, mixed case and digits, and null",
     "The tests hold one or two literal examples per function.",
     ["src/str_ext/str_cleaning.rs", "src/str_ext/inflections.rs", "src/str_ext/snowball_stem.rs", "src/str_ext/is_stopword.rs", K + "string.py"],
     [("Unicode tables and regexes", "src/str_ext")], ["remove_diacritics, replace_non_ascii, normalize_string, normalize_whitespace, map_words, to_snake_case, to_camel_case, to_pascal_case, to_constant_case, extract_numbers, str_tokenize, is_stopword, str_snowball"])
prop("P06", "Least-squares expressions return the optimum, its predictions and residuals",
     "For any full-rank data the linear-regression expressions return the coefficients (intercept last, unpenalised) that minimise the weighted sum of squared residuals plus the l2 penalty, whichever solver, target count, precision setting or input chunking is used, so the weighted residuals are orthogonal to the features up to the penalty term. "
     "Predictions are features times coefficients and residuals are target minus prediction, row by row. "
     "Rows with missing values are treated as the null policy says (error, dropped with missing outputs at those rows, filled with zero, one or a given number in features), and the reciprocal-condition variant agrees with plain least squares when nothing is cut off and reports the singular values.",
     ["inputs", "configurations"], "all well-conditioned designs, any number of features and targets, weights, penalties, solvers, null patterns and policies, alone, in group_by or in over",
     "The tests use a few random designs on one or two configurations and never combine weights, penalties, multiple targets, null policies and solvers.",
     ["src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/linalg/lr_solvers.rs", K + "expr_linear.py", "python/polars_ds/linear_models.py"],
     [("QR/SVD/Cholesky solvers", "src/linalg/lr_solvers.rs"), ("null policies", "src/num_ext/linear_regression.rs")], ["lin_reg, simple_lin_reg, lin_reg_w_rcond, LR"])
prop("P07", "Lasso and elastic-net fits satisfy their optimality conditions",
     "For any well-posed data and penalties, the coefficients returned for an l1 (or combined l1 and l2) penalty satisfy, within the requested tolerance, the optimality conditions of mean squared error over two plus l1 times the absolute coefficients plus half l2 times the squared coefficients, with an unpenalised intercept. "
     "Predictions and residuals are those of the returned coefficients, rows with missing values are treated as the null policy says, and a feature that is always zero gets coefficient zero. "
     "The expression and the array-based estimator agree, and each group of a group_by or over gets its own fit.",
     ["inputs", "configurations"], "all well-conditioned designs, penalties, with and without intercept, in both precisions",
     "The tests compare one or two designs and penalties with scikit-learn.",
     ["src/linalg/lr_solvers.rs", "src/num_ext/linear_regression.rs", "python/polars_ds/linear_models.py"],
     [("coordinate descent with soft thresholding", "src/linalg/lr_solvers.rs")], ["lin_reg with l1_reg, ElasticNet"])
prop("P08", "Incremental regressions equal refitting on the rows they cover",
     "Recursive regression returns at each row the coefficients (and prediction) of a fit on all rows up to it, and rolling regression those of a fit on the last window of rows, with no output before the first complete window, the l2 penalty sparing the intercept; rows with missing values are skipped or filled as requested, and windows with too few valid rows give no output. "
     "An online regression that is fitted once and then given any sequence of added and removed rows has, after each step, the coefficients and intercept of a fresh fit on the rows currently covered, with rows containing NaN ignored; a row added or removed with a factor c counts c times. "
     "Rebuilding an online regression from its coefficients and inverse continues identically.",
     ["histories", "inputs", "configurations"], "all well-conditioned data, start sizes, windows, penalties, null patterns, and all update/removal histories",
     "The tests replay one data set with one window and a few single updates; removals, penalties, missing rows and rebuilt models are barely touched.",
     ["src/linalg/lr_online_solvers.rs", "src/num_ext/linear_regression.rs", "src/pymodels/py_lr.rs", "python/polars_ds/linear_models.py", K + "expr_linear.py"],
     [("Woodbury update of the inverse", "src/linalg/lr_online_solvers.rs")], ["recursive_lin_reg, rolling_lin_reg, OnlineLR"],
     state=[dict(name="inverse and weights", meaning="(X'X + l2)^-1 and coefficients of the rows covered", where="src/linalg/lr_online_solvers.rs")])
prop("P09", "Regression reports state the correct inference",
     "For any full-rank data the regression report's coefficients, standard errors (classical and the four heteroskedasticity-consistent kinds), t statistics, two-sided p-values and 95% confidence limits equal those of ordinary or weighted least squares with the usual degrees of freedom. "
     "Its R-squared is one minus the residual over the centred total sum of squares of the fitted rows (unweighted), the adjusted one corrects for the number of predictors, and dropped or filled rows follow the null policy. "
     "Feature names are listed in order with the intercept last.",
     ["inputs", "configurations"], "all full-rank designs with more rows than parameters, weights, with and without intercept, every standard-error kind, null policies",
     "The tests check one data set against statsmodels.",
     ["src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/stats_utils/beta.rs", K + "expr_linear.py"],
     [("covariance estimators and Student t", "src/num_ext/linear_regression.rs")], ["lin_reg_report"])
prop("P10", "Transforms of signals and matrices equal their definitions",
     "The real Fourier transform (cropped, zero-padded, half or full), convolution (every mode and method, parallel or not), trapezoidal integration, detrending, singular values, principal components and explained variance equal their mathematical definitions for any finite input, up to floating-point error and the sign of components. "
     "Principal components of centred data have the stated variances and are mutually uncorrelated. "
     "Isotonic regression returns the unique monotone (weighted) least-squares fit.",
     ["inputs", "configurations"], "all finite sequences and matrices with any length, padding, mode, method, weights and direction",
     "The tests use a fixed signal or random sample per function and compare one configuration with NumPy/SciPy.",
     ["src/num_ext/fft.rs", "src/num_ext/convolve.rs", "src/num_ext/trapz.rs", "src/num_ext/pca.rs", "src/num_ext/isotonic_regression.rs", K + "num.py"],
     [("FFT and dot-product convolution", "src/num_ext/convolve.rs"), ("pool adjacent violators", "src/num_ext/isotonic_regression.rs")],
     ["rfft, convolve, integrate_trapz, detrend, singular_values, pca, principal_components, isotonic_regression"])
prop("P11", "Binary classification metrics equal their definitions",
     "For any binary actual labels and scores, including ties, the area under the ROC curve is the probability that a positive outranks a negative (ties counting half; NaN when a class is absent), the true- and false-positive rates at every distinct score (predicting positive at or above it), log loss, confusion counts and every derived rate (predicting positive above the threshold; undefined ratios are NaN), and the Matthews coefficient equal their definitions over the counts. "
     "The combined metric expression gives precision, recall and f-score at its threshold (predicting positive at or above it), the step-wise average precision and the AUC. "
     "One-vs-rest multi-class AUC (macro or weighted by class frequency), categorical cross-entropy and the p-percent score follow from the same definitions.",
     ["inputs"], "all label/score columns with ties, extreme imbalance, scores on the threshold, and large counts",
     "The tests sample a few random columns against scikit-learn and rarely contain ties, thresholds on data, or counts beyond a few hundred.",
     ["src/num_ext/tp_fp.rs", K + "metrics.py"], [("cumulative counts per threshold", "src/num_ext/tp_fp.rs")],
     ["query_roc_auc, query_tpr_fpr, query_confusion_matrix, query_binary_metrics, query_mcc, query_gini, query_log_loss, query_multi_roc_auc, query_cat_cross_entropy, query_p_pct_score"])
prop("P12", "Regression and ranking metrics equal their definitions",
     "For any actual and predicted columns (floating-point or signed integers), the median/mean absolute deviation, R-squared, adjusted R-squared, log-cosh, Huber, l1, l2, l-infinity, mean absolute percentage (plain, weighted, symmetric), mean absolute scaled and mean squared log errors, and the fairness gap equal their published definitions, alone or per group, and rows where both values are null do not count in the losses. "
     "They are unaffected by reordering the rows together. "
     "Normalised discounted cumulative gain (optionally at k, tied scores sharing their average gain when requested) equals its definition averaged over the groups with more than one row, whatever the group column is called, and lies between 0 and 1.",
     ["inputs"], "all finite numeric columns of any length, with group_by",
     "The tests check a random sample for some of the metrics only.",
     [K + "metrics.py"], [("closed-form expressions", K + "metrics.py")], ["query_mad, query_r2, query_adj_r2, query_log_cosh, query_hubor_loss, query_l1, query_l2, query_l_inf, query_mape, query_smape, query_mase, query_msle, query_fairness, calculate_ndcg"])
prop("P13", "Hypothesis tests report the correct statistic and p-value",
     "For any samples of sufficient size and non-zero spread, ttest_ind (equal variances with equally many values, or Welch), ttest_1samp, ttest_ind_from_stats, f_test, chi2 (without continuity correction; with return_full also the degrees of freedom and the expected frequency of every cell), mann_whitney_u (normal approximation with continuity and tie correction) and normal_test (D'Agostino-Pearson, an error below 20 values) report the statistic and the p-value of their definition for each alternative, "
     "and ks_2samp the Kolmogorov-Smirnov statistic with the documented rejection threshold (0 and NaN below 30 values). "
     "Where documented (Welch, one sample, KS, Mann-Whitney, normality), nulls, NaN and infinities are dropped first. "
     "Swapping the samples mirrors the statistic and the one-sided alternatives and leaves the two-sided p-value unchanged, p-values lie in [0, 1], and a test gives one scalar in select, group_by and over.",
     ["inputs", "configurations"], "all finite samples with ties and unequal sizes, all alternatives",
     "The tests use one or two random samples per test.",
     ["src/stats/t_test.rs", "src/stats/fstats.rs", "src/stats/chi2.rs", "src/stats/ks.rs", "src/stats/mann_whitney_u.rs", "src/stats/normal_test.rs", "src/stats_utils", K + "stats.py"],
     [("distribution functions", "src/stats_utils")], ["ttest_ind, ttest_1samp, ttest_ind_from_stats, f_test, chi2, ks_2samp, mann_whitney_u, normal_test"])
prop("P14", "Correlations and weighted statistics equal their definitions",
     "For any two columns, kendall_tau (tau-b, ties included; rows with null or NaN dropped; NaN when undefined), bicor, xi_corr (tied x in a random order fixed by the seed; its p-value from 30 rows on) and every method of corr equal their definitions, and weighted_mean, weighted_gmean, weighted_hmean, hmean, gmean, weighted_var (also with frequency weights), weighted_cov, weighted_corr, cosine_sim and weighted_cosine_sim equal the definition with those weights, for integer and floating-point columns, normalised weights or not, in select, group_by and over. "
     "They are unaffected by joint row order and by scaling the weights, symmetric where the definition is, and unit weights reduce to the unweighted statistic. "
     "winsorize clips to the stated quantiles, changes nothing else, and rejects quantiles that are not 0 < low < high < 1.",
     ["inputs"], "all finite columns with ties, any positive weights",
     "The tests check Kendall and xi on a few samples; the weighted statistics, bicor and the similarity have almost no tests.",
     ["src/stats/kendall_tau.rs", "src/stats/xi_corr.rs", K + "stats.py"], [("merge-sort pair counting", "src/stats/kendall_tau.rs")],
     ["kendall_tau, xi_corr, bicor, corr, hmean, gmean, weighted_mean, weighted_gmean, weighted_hmean, weighted_var, weighted_cov, weighted_corr, cosine_sim, weighted_cosine_sim, winsorize"])
prop("P15", "Elementwise numerics equal their mathematical functions",
     "Gamma (of non-negative numbers), digamma, expit, logit, exp2, fractional part, truncation, sinc, x log y, next float up and down, greatest common divisor, least common multiple, haversine distance, softmax, z- and mean-normalisation, horizontal l1/l2/l-infinity norms and list arg-max equal the mathematical function at every row to floating-point accuracy (single precision where the function computes in it), with nulls kept null. "
     "Each output row depends only on its own inputs (apart from the column statistics that the normalisations use). "
     "Jaccard similarity of columns (nulls counting as a value or not, as asked) and of list rows is intersection over union of the sets of values.",
     ["inputs"], "all finite numbers in range (negative, zero, integers, extremes) and lists, with nulls, scalar or column operands",
     "A few fixed or random vectors are tested per function.",
     ["src/num_ext/float_extras.rs", "src/num_ext/gcd_lcm.rs", "src/num_ext/haversine.rs", "src/num_ext/jaccard.rs", "src/num_ext/iterations.rs", K + "num.py", K + "expr_iter.py"],
     [("scalar kernels", "src/num_ext/float_extras.rs")], ["gamma, digamma, expit, logit, exp2, fract, trunc, sinc, xlogy, next_up, next_down, gcd, lcm, haversine, softmax, z_normalize, center, l1_horizontal, l2_sq_horizontal, l_inf_horizontal, list_amax, jaccard_row, jaccard_col, combinations, product"])
prop("P16", "Binning, drift and target-encoding statistics equal their definitions",
     "The population stability index (continuous, by given breakpoints, or discrete), weight of evidence, information value and target encoding computed for any columns equal their definitions over the counts in each bin or category: bins are right-closed at the baseline's quantiles, every row lands in exactly one bin, and empty bins are handled by the documented smoothing. "
     "The index of a column against itself is zero, it is symmetric in its two arguments for given bins, and information value is the sum of its per-bin parts. "
     "Encodings depend only on the multiset of (category, target) rows.",
     ["inputs"], "all numeric/discrete columns with ties and values on bin edges, any bin counts and breakpoints",
     "The tests check one random column for PSI and WOE against a reference; edges, ties, unseen categories and supplied breakpoints are untested.",
     ["src/num_ext/psi.rs", "src/num_ext/woe_iv.rs", "src/num_ext/target_encode.rs", K + "num.py"],
     [("quantile breakpoints and counts", "src/num_ext/psi.rs")], ["psi, psi_discrete, psi_w_breakpoints, woe, woe_discrete, info_value, info_value_discrete, target_encode"])
prop("P17", "Time-series features equal their definitions",
     "Autocorrelation, autoregressive coefficients, C3, complexity-invariant distance, time-reversal asymmetry, the streak-length statistics, Benford digit counts, Lempel-Ziv complexity, monotonicity tests and similar-subsequence counts of any series equal their definitions. "
     "Streak statistics agree with each other on every boolean or comparison series. "
     "Counts of similar subsequences equal an exhaustive scan, in parallel or not.",
     ["inputs", "configurations"], "all finite series of any length, lag, threshold and pattern",
     "The tests use one fixed series for some functions and none for others.",
     ["src/num_ext/lempel_ziv.rs", "src/num_ext/benford.rs", "src/num_ext/subseq_sim.rs", K + "ts_features.py"],
     [("run-length encoding and shifts", K + "ts_features.py")], ["query_auto_corr, query_ar_coeffs, query_c3, query_cid_ce, query_time_reversal_asymmetry_stats, query_streak, query_longest_streak, query_avg_streak, query_first_digit_cnt, query_lempel_ziv, is_increasing, is_decreasing, query_similar_count"])
prop("P18", "Entropy estimators equal their definitions",
     "Shannon and conditional entropy of any discrete columns, and sample, approximate, permutation, k-nearest-neighbour, copula, conditional-independence and transfer entropy of any series, equal the published estimator evaluated exhaustively. "
     "Results do not depend on parallel execution. "
     "Discrete entropies depend only on the multiset of values, and conditional entropy is the joint entropy minus the marginal one.",
     ["inputs", "configurations"], "all finite series and parameters (embedding length, delay, radius, neighbours)",
     "The tests compare one random series for a few estimators with a reference.",
     ["src/num_ext/entrophies.rs", "src/num_ext/cond_entropy.rs", "src/num_ext/mutual_info.rs", K + "ts_features.py"],
     [("tree-based neighbour counts", "src/num_ext/entrophies.rs")], ["query_entropy, query_cond_entropy, query_sample_entropy, query_approx_entropy, query_permute_entropy, query_knn_entropy, query_copula_entropy, query_cond_indep, query_transfer_entropy"])
prop("P19", "Seeded randomness is reproducible and stays within its distribution's support",
     "Every random expression with a fixed seed returns the same column on every evaluation of the same frame, has the frame's length, and lies in the support of its distribution (uniform in [low, high), integers in [low, high), binomial in [0, n], non-negative exponential, strings of the requested alphabet and length); different seeds give different columns. "
     "Large samples fit the distribution, and consecutive values and different seeds are uncorrelated. "
     "Perturbing, jittering and noise keep nulls and special values and change numbers only within the stated range or with the stated spread; random nulls are injected at the requested rate and nothing else is changed.",
     ["inputs", "configurations"], "all parameters, seeds, lengths and null patterns",
     "The tests draw once and check loose statistics for a few functions.",
     ["src/stats/sample.rs", K + "stats.py"], [("per-call seeded generator", "src/stats/sample.rs")],
     ["random, random_int, random_binomial, random_exp, random_normal, random_str, random_null, perturb, jitter, add_noise"])
prop("P20", "Sampling and splitting partition the rows as requested",
     "Random splits assign every row to exactly one part, with the requested ratios up to one row; samples return the requested number or fraction of distinct existing rows; random column choices return the kept columns and the requested number of distinct others. "
     "Volume-neutral sampling keeps, in every cell of the control columns, equally many rows of every level: the smallest level's count or the target volume; downsampling thins the rows satisfying a condition to the requested size and drops no row for which no condition is true. "
     "No operation invents, duplicates or alters rows, all choices are equally likely, and equal seeds give equal choices.",
     ["inputs", "configurations"], "all frames, ratios, seeds, strata and targets",
     "There are no tests of the sampling and splitting functions.",
     ["python/polars_ds/sample_and_split/sample_and_split.py"], [("shuffled row numbers", "python/polars_ds/sample_and_split/sample_and_split.py")],
     ["sample, volume_neutral, downsample, random_cols, split_by_ratio"])
prop("P21", "Fitted pipelines replay exactly what was learned on the training frame",
     "A pipeline built from any sequence of steps transforms a frame as if the steps were applied one after the other, each with the statistics (means, quantiles, modes, category lists, encodings, regression coefficients) computed on the training frame as transformed by the steps before it, so that transforming the training frame reproduces the manual result and the result for any row of new data does not depend on the other rows. "
     "Fitting or transforming never changes the input frame, and fitted steps given a column selection leave the target and the excluded columns alone. "
     "Column checks reject frames without the training columns, and eager and lazy frames give equal results.",
     ["programs", "inputs", "configurations"], "all sequences of blueprint steps over all training frames (with nulls and categories) and all new frames",
     "The transforms tests check single steps on one frame; sequences, unseen data, unseen categories and nulls are not covered.",
     ["python/polars_ds/modeling/pipeline.py", "python/polars_ds/modeling/transforms.py", "python/polars_ds/modeling/_structures.py"],
     [("steps fitted in order on the running frame", "python/polars_ds/modeling/pipeline.py materialize")], ["Blueprint, Pipeline.transform, transforms.*"],
     state=[dict(name="fitted steps", meaning="expressions with the learned constants", where="python/polars_ds/modeling/_structures.py")])
prop("P22", "Saving and reloading a pipeline changes nothing it computes",
     "A pipeline written to JSON (as a string or to a file) and read back, in this process or another, gives, for every frame, the output of the original (up to the last digit of its floating-point constants), lists the same input and output features, and can be written again to an equivalent document. "
     "This holds for every kind of step a blueprint can hold, and for appended expressions of the package that Polars itself can serialize. "
     "The reloaded pipeline applies the same input checks and lazy/eager behaviour.",
     ["programs", "inputs"], "all materialised pipelines and all frames",
     "No test serialises a pipeline.",
     ["python/polars_ds/modeling/pipeline.py", "python/polars_ds/modeling/_structures.py"], [("expression serialisation", "python/polars_ds/modeling/pipeline.py")], ["Pipeline.to_json, from_json, from_json_str"])
prop("P23", "Results do not depend on how a query is executed",
     "Evaluating any of the package's expressions gives the same values whether the columns are stored in one chunk or several, sliced from longer columns, eager or lazy, with or without the parallel option, whatever the columns are called, and after the expression was serialised and read back (for expressions that hold no Python function). "
     "In a group_by aggregation or an over window the result for each group equals the result of the expression on that group's rows alone, and the columns the expression reads are left unchanged. "
     "The lazily inferred data type is the data type of the collected result.",
     ["inputs", "configurations", "schedules"], "all expressions of the package over all valid inputs, chunk layouts, slices and evaluation contexts",
     "The tests evaluate each expression in a single select on a freshly built single-chunk frame.",
     ["src/utils/mod.rs", "python/polars_ds/_utils.py", K.rstrip("/")], [("plugin flags (scalar, elementwise, length-changing) and rechunking", K.rstrip("/"))], ["every expression"])
prop("P24", "The compatibility layer returns what the expression returns",
     "Calling a function of the compatibility layer with NumPy arrays, pandas or Polars series, or anything with the array protocol, returns, as a Polars series, the same values as evaluating the expression of that name on the same columns, whatever mix of input kinds and of positional and keyword arguments is used (for functions of the values of their arguments, which need no frame around them). "
     "Scalars (NumPy's too) and options are passed through unchanged. "
     "The inputs are not modified.",
     ["inputs", "configurations"], "all numeric inputs in any supported container, all exposed functions",
     "The one test file samples a few functions with one container each.",
     ["python/polars_ds/compat/_compat.py", "python/polars_ds/compat/__init__.py"], [("conversion to literal series", "python/polars_ds/compat/_compat.py")], ["polars_ds.compat.*"])
prop("P25", "Partitions cover the frame exactly once",
     "Partitioning a frame by one or more string, boolean or categorical columns yields one part per distinct combination of their values, in order of first appearance, each with exactly the rows of that combination in their order, so that the parts concatenate to the frame up to row order; no row is lost, even when names of parts coincide (that is refused). "
     "A part's name is its values joined by the separator, looking a name up gives that part (None for any other name), and head gives the first rows of each part. "
     "Applying a function calls it exactly once per part, with its name and rows; parts for which it raises are left out, each with a warning. "
     "Columns of other types are refused with a ValueError; by=None makes the whole frame one part.",
     ["inputs", "configurations"], "all frames with string, boolean, categorical and null keys, all sets of partition columns, separators and functions",
     "The partition helper has no tests.",
     ["python/polars_ds/partition/partition.py"], [("partition_by dictionary", "python/polars_ds/partition/partition.py")], ["PartitionHelper"])
prop("P26", "Data-inspection reports count what is in the frame",
     "Profiles, special-value reports, string statistics, null correlations, correlation and dependency tables, and inferred constant, binary, k-distinct, high-null, discrete and probability columns of any frame equal direct counting over the frame's rows (a column is discrete when its distinct values are fewer than max_val_cnt or than the share threshold of the rows, or it is boolean or categorical): every count, share, quantile and flag is that of the stated column, every column or pair that qualifies is listed exactly once. "
     "Column validation lists exactly the (column, rule) pairs whose rule is False, and row validation exactly the rows with a rule that is False, with only violated rules as reasons. "
     "The edges of the dependency plot are dependencies below the threshold and imply all of them. "
     "Inspection never changes the frame, and lazy and eager frames give the same reports.",
     ["inputs"], "all frames of numeric, string, boolean, categorical, date and list columns with nulls, NaN, infinities, constants and duplicates",
     "Inspection reports are exercised by one notebook without assertions.",
     ["python/polars_ds/eda/diagnosis.py"], [("column selectors and aggregations", "python/polars_ds/eda/diagnosis.py")], ["DIA"])

prop("P27", "Plots show the values they are about",
     "The data, marks and captions in the specification of a chart are those of the frame it was made from: the distribution plot holds exactly the selected column's values (after the stated bounds and filter), its mean, median and 5% and 95% quantiles, and the share of null or non-finite values overall or per segment; "
     "the regression plot's line and equation are those of the (weighted) least squares fit on all rows, shown at no more than max_points of the frame's points; the PCA plot's points are the first two principal components beside the right label; "
     "every ROC curve runs through (0, 0) and the false and true positive rate of every score threshold, and its caption holds the area under it; calibration points are the mean score and the share of positives of each quantile bin. "
     "Misuse is refused with a ValueError.",
     ["inputs", "configurations"], "all columns, weights, scores and targets of the plotted kinds (with ties, nulls, NaN and infinities where the plot accepts them)",
     "Plots are exercised by notebooks without assertions.",
     ["python/polars_ds/eda/plots.py", "python/polars_ds/eda/diagnosis.py"], [("aggregations behind the charts", "python/polars_ds/eda/plots.py")], ["plot_feature_distr", "plot_lin_reg", "plot_pca", "plot_roc_auc", "plot_prob_calibration", "DIA.plot_feature_distr"])

prop("P28", "Options left out have their documented default",
     "For every function, expression, model class, pipeline step and helper with optional arguments: leaving an option out gives the same result, for every input, as passing the default value its signature documents, whichever other options are given; options given by position in the documented order mean the same as by name; and the older names of the regression functions (query_lstsq and the like) take the same options with the same defaults. "
     "A float argument may be given as any kind of number: a Python whole number of the same value or a NumPy float gives the same result. "
     "Calls leave the frame unchanged.",
     ["inputs", "configurations"], "all functions with options, all subsets of options spelled out or changed, and all frames",
     "Tests pass most options explicitly, or compare with a library that has defaults of its own, on one frame.",
     [K.rstrip("/"), "python/polars_ds/linear_models.py", "python/polars_ds/modeling", "python/polars_ds/sample_and_split", "python/polars_ds/partition"], [("signatures", K.rstrip("/"))], ["every function with options"])

prop("P29", "Arguments out of range are refused, those in range are accepted",
     "Wherever a function, expression, model class, pipeline step, plot or helper refuses part of an argument's range, its type or names: a value outside (at the bound or anywhere beyond it, an unknown method, metric or column kind, columns of different lengths, nulls where they are refused) ends in an error, for every frame, before any result comes back; the values inside, up to the bound, are accepted; and no such call panics. "
     "Calls that are deprecated, or whose documentation warns of them, give a warning; their neighbours do not.",
     ["inputs", "configurations"], "all documented argument bounds and names, values on both sides of each bound, and all frames",
     "Tests call functions with valid arguments; guards at a bound are never run.",
     [K.rstrip("/"), "python/polars_ds/linear_models.py", "python/polars_ds/modeling", "python/polars_ds/sample_and_split", "python/polars_ds/partition", "python/polars_ds/eda", "python/polars_ds/spatial.py", "src"], [("argument guards", K.rstrip("/"))], ["every function with documented argument ranges"])

prop("P30", "The type numbers are stored in does not change the answer",
     "Every expression over columns of any integer type (8 to 64 bits, signed or unsigned, up to the ends of the type) or of Float32 gives what it gives for the same numbers stored as Float64, within the precision of the type, or refuses the type with an error; a difference, square, product or sum never wraps around. "
     "A binary target may be stored as any number or as a boolean.",
     ["inputs", "configurations"], "all expressions, all numeric types, values up to the ends of the type",
     "Tests build frames of Float64 or of small Int64 values; wrap-around needs a narrow, unsigned or nearly full type.",
     [K.rstrip("/"), "src"], [("numeric types", K.rstrip("/"))], ["every expression over numeric columns"])

CLAIM = sorted(p.stem for p in (V / "checks").glob("P*.py"))


def main():
    with open(V / "properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="python3 lib/build.py", checks=[], not_applicable=[],
             notes="All checks: python3 run.py <ID>; replay a failure with python3 run.py <ID> --replay FILE. See DESIGN.md.")
    for p in P:
        if p["id"] in CLAIM:
            m["checks"].append(dict(
                property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p['id']}",
                evidence_file=f"evidence/{p['id']}.json",
                technique=p["technique"] or "property-based testing (Hypothesis) of the built extension against reference models and metamorphic relations",
                level="exploration",
                level_note=p["level_note"] or "Generated-input search with shrinking: shows the property on the cases explored, not for all. Trusts the reference models in checks/ and NumPy/SciPy/scikit-learn/statsmodels; floating-point results are compared with stated tolerances."))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason="Check not built yet; the technique applies."))
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
