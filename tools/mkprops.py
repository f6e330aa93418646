"""writes /verif/properties.jsonl (single source of the property texts)"""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or ["value of the returned polars expression"], "hook_needed": None}})
PY = "python/polars_ds/exprs/"
p("A01", "Parallel execution returns exactly the sequential result",
  "For every expression that takes a `parallel` flag, and for the expressions that always run on the thread pool, the result column is, row by row and in order, the one obtained sequentially, whatever the number of worker threads, the number of rows and the position of nulls. No row is lost, duplicated or moved when the rows are divided among the threads.",
  "every input column up to the row bound, every number of worker threads 1..8, both values of the parallel flag and both caller contexts",
  "the tests run one thread count (the host's) on columns whose length they choose; the split boundaries depend on length modulo thread count",
  ["src/utils/mod.rs", "src/str_ext", "src/num_ext/knn.rs", "src/num_ext/haversine.rs"],
  [("split_offsets", "src/utils/mod.rs"), ("generic distance drivers", "src/str_ext/generic_str_distancer.rs"), ("POOL.install + chunks", "src/num_ext/knn.rs")],
  over=("inputs", "configurations", "schedules"))
p("B01", "String distances equal their mathematical definitions",
  "str_leven, str_d_leven, str_osa, str_hamming and str_lcs_seq return, for every pair of strings, the Levenshtein, Damerau-Levenshtein, optimal-string-alignment, Hamming and longest-common-subsequence values of those strings counted in characters; a null on either side gives null. The Hamming distance of strings of unequal lengths is null, or with pad the differing positions plus the difference of the lengths. A literal as the second argument gives the same values as a column holding that literal in every row, and running in parallel or on chunked columns changes nothing.",
  "all pairs of strings up to the length bound over the full Unicode alphabet; nulls at every position; literal or column second argument",
  "tests compare a handful of fixed ASCII string pairs",
  ["src/str_ext", PY + "string.py"],
  [("generic_str_distancer", "src/str_ext/generic_str_distancer.rs"), ("plugins", "src/str_ext/levenshtein.rs"), ("hamming", "src/str_ext/hamming.rs")])
p("B02", "Normalised string similarities are consistent with the distances",
  "With return_sim the edit-distance expressions return 1 - distance / (largest possible distance of the two lengths), a value in [0, 1] that is 1 exactly for equal strings; str_jaro, str_jw (whose prefix bonus applies above a Jaro similarity of 0.7, for up to 4 characters) and str_fuzz return the Jaro, Jaro-Winkler and normalised-Indel-ratio values. Nulls propagate, a literal second argument behaves like a constant column, and running in parallel or on chunked columns changes nothing.",
  "all pairs of strings up to the length bound, weights in [0, 0.25] for Jaro-Winkler",
  "tests compare a handful of fixed ASCII string pairs",
  ["src/str_ext", PY + "string.py"], [("similarity closures", "src/str_ext/levenshtein.rs"), ("jaro/jw", "src/str_ext/jaro.rs"), ("fuzz", "src/str_ext/fuzz.rs")])
p("B03", "Distance filters keep exactly the pairs within the bound",
  "filter_by_levenshtein and filter_by_hamming are true exactly for the rows whose distance does not exceed the bound (unequal lengths never pass the unpadded Hamming filter), and null where a side is null, for literal and column arguments, sequentially and in parallel.",
  "all string pairs up to the length bound and every bound value",
  "tests use one bound on a few rows", ["src/str_ext/levenshtein.rs", "src/str_ext/hamming.rs", PY + "string.py"],
  [("levenshtein filter", "src/str_ext/levenshtein.rs"), ("hamming filter", "src/str_ext/hamming.rs")])
p("B04", "n-gram set similarities equal their set definitions",
  "str_jaccard, str_sorensen_dice, str_overlap_coeff and str_tversky_sim are the Jaccard, Sorensen-Dice, overlap and Tversky coefficients of the two sets of substrings of substr_size bytes (a non-empty shorter string is its own only substring, the empty string has none) wherever the quotient is defined, and propagate nulls; a literal second argument behaves like a constant column, and running in parallel or on chunked columns changes nothing.",
  "all string pairs up to the length bound, n in 1..3, non-negative Tversky weights",
  "tests use single fixed pairs", ["src/str_ext/str_jaccard.rs", "src/str_ext/sorensen_dice.rs", "src/str_ext/overlap.rs", "src/str_ext/tversky.rs", PY + "string.py"],
  [("str_set_sim_helper", "src/str_ext/generic_str_distancer.rs"), ("ngram sets", "src/str_ext/mod.rs")])
p("B05", "Nearest-string search returns a vocabulary word of minimal distance",
  "str_nearest returns an entry of the column whose distance (Levenshtein or Hamming) to the given word is least, ignoring nulls, or null when no entry is within the threshold; similar_to_vocab is true for a row exactly when its average similarity to the vocabulary, all of them or any of them (by strategy) is at least the threshold, for each of its metrics, and null for a null row under all and any.",
  "all words and vocabularies within the bounds, all cutoffs", "tests use one vocabulary",
  ["src/str_ext/nearest_str.rs", PY + "string.py"], [("nearest", "src/str_ext/nearest_str.rs"), ("similar_to_vocab", PY + "string.py")])
p("B06", "Text cleaning, case conversion, stop words, tokens and numbers",
  "Row by row, with nulls kept: normalize_whitespace leaves the words of the text separated by one space (only_spaces: every run of spaces becomes one space, everything else stays), map_words replaces exactly the whitespace-separated words that are keys of the mapping, replace_non_ascii replaces every non-ASCII character by the given text, remove_diacritics and normalize_string are the decomposed text without its non-ASCII characters and the four Unicode normal forms. The snake, constant, camel and pascal case conversions of text whose words are separated by single spaces, hyphens or underscores (or by a lower-case letter followed by a capital) give lower_words, UPPER_WORDS, camelWords and PascalWords. is_stopword is true exactly for the members of the stop-word list. str_tokenize lists the maximal runs of two or more word characters in order, and extract_numbers the maximal runs of digits with an optional fraction (commas removed first with ignore_comma, the pieces joined with join_by).",
  "all strings up to the length bound (all of Unicode where the operation does not depend on Unicode tables; ASCII for case, tokens and numbers; fixed samples for the normal forms)", "tests use a few fixed strings",
  ["src/str_ext/str_cleaning.rs", "src/str_ext/inflections.rs", "src/str_ext/is_stopword.rs", PY + "string.py"], [("cleaning", "src/str_ext/str_cleaning.rs"), ("case", "src/str_ext/inflections.rs"), ("stop words", "src/str_ext/is_stopword.rs"), ("tokens, numbers", PY + "string.py")])
p("B07", "English stemming",
  "str_snowball gives each lower-case English word its Porter2 (Snowball 2.2) stem, the empty string for stop words (unless no_stopwords=False) and for numbers, and null for null. str_tokenize(stem=True) lists the distinct stems of a text's tokens in order of first occurrence, without stop words.",
  "all words that match one of the listed patterns (a suffix, prefix or exceptional word with one or two free letters), over lower-case ASCII letters; words that read as inf, infinity or nan are unspecified", "tests stem a handful of words",
  ["src/str_ext/snowball", "src/str_ext/snowball_stem.rs", PY + "string.py"], [("stemmer", "src/str_ext/snowball"), ("str_snowball", "src/str_ext/snowball_stem.rs")])
p("C01", "k-nearest-neighbour queries are exact",
  "For every point set, metric and k, the k-nearest-neighbour queries return the indices of k points whose distances are the k smallest (all eligible points when fewer than k are eligible), in non-decreasing order of distance, together with the distances themselves when asked for. A bound on the distance removes exactly the neighbours beyond it, and neither data masks nor evaluation masks change any other row.",
  "all point sets up to the size bound with arbitrary real coordinates (duplicates and ties included), k, metric, distance bound, epsilon 0, leaf sizes small enough that the tree splits",
  "the tests compare random point clouds, where ties, duplicated coordinates and points on splitting planes have probability zero",
  ["src/arkadia", "src/num_ext/knn.rs", "src/pymodels/py_kdt.rs", PY + "expr_knn.py"],
  [("tree build", "src/arkadia/kdt.rs"), ("knn search/pruning", "src/arkadia/kdt.rs"), ("plugins", "src/num_ext/knn.rs")])
p("C02", "Radius queries and neighbour counts are exact",
  "The within-radius queries return exactly the points whose distance does not exceed the radius, neighbour counts equal the number of such points (self included), and is_knn_from / within_dist_from select exactly the qualifying rows. Literal and per-row radii agree, rows that are null are null or excluded as documented.",
  "all point sets up to the size bound, all radii (points exactly on the sphere included), all metrics", "random clouds never put a point on the boundary",
  ["src/arkadia", "src/num_ext/knn.rs", PY + "expr_knn.py"], [("within / within_count", "src/arkadia/kdt.rs"), ("plugins", "src/num_ext/knn.rs")])
p("C03", "k-NN averages use exactly the neighbours' targets",
  "query_knn_avg returns, for every row with complete features, the mean (or the documented distance-weighted mean) of the target over those of its k nearest other points whose distance is at least min_bound and within max_bound, and null when there is none; rows with missing features give null and never contribute, and a target with nulls is rejected.",
  "all point sets and targets up to the size bound with distinct distances from each row, all null patterns of the features, all k and bounds", "tests use one random frame",
  ["src/num_ext/knn.rs", PY + "expr_knn.py"], [("knn_avg", "src/num_ext/knn.rs")])
p("D01", "Least squares solutions satisfy their defining equations",
  "lin_reg / lstsq coefficients solve the (weighted, ridge-penalised) normal equations of the non-null rows with the intercept unpenalised, and predictions and residuals are X.b and y - X.b row by row; simple_lin_reg, multi-target and rcond variants agree with them.",
  "all data with full-rank features up to the bound, all weights and penalties, with and without intercept", "tests compare a few random matrices to numpy",
  ["src/linalg/lr_solvers.rs", "src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", PY + "expr_linear.py"],
  [("solvers", "src/linalg/lr_solvers.rs"), ("plugins", "src/num_ext/linear_regression.rs")])
p("D02", "Lasso / elastic net coordinate descent step is the exact minimiser",
  "Each coordinate update of the lasso / elastic-net solver is the exact minimiser of the documented penalised objective in that coordinate (the intercept unpenalised), so a solution on which the descent stopped satisfies its optimality conditions.",
  "all data up to the bound, all penalties", "tests compare random data with sklearn",
  ["src/linalg/lr_solvers.rs"], [("coordinate descent", "src/linalg/lr_solvers.rs")])
p("D03", "Recursive, rolling and online regression equal refitting",
  "The coefficients reported at row i by the recursive (rolling) regression equal an ordinary fit on the rows up to i (on the window ending at i), rows before the minimum size are null, rows with nulls are skipped, and an online update equals refitting on the enlarged data.",
  "all data up to the bound, every window size, start, minimum size and null position", "tests use random full-rank data and one window",
  ["src/linalg/lr_online_solvers.rs", "src/num_ext/linear_regression.rs", PY + "expr_linear.py"],
  [("Woodbury step", "src/linalg/lr_online_solvers.rs"), ("rolling/recursive drivers", "src/num_ext/linear_regression.rs")], over=("inputs", "histories"))
p("D04", "Null policies of regressions",
  "With null_policy 'skip' the regression is fitted on exactly the complete rows and predictions at incomplete rows are missing (NaN, or null for the recursive and rolling forms); 'raise' fails when any value is missing; 'zero'/'one'/a number fill missing features (never the target: rows without a target are left out); 'ignore' keeps all rows of null-free data; weights that do not match the remaining rows and multi-target fits with nulls that are not filled are rejected.",
  "every null pattern up to the bound, every policy", "tests use one null position",
  ["src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/utils/mod.rs", PY + "expr_linear.py"], [("null handling", "src/utils/mod.rs")])
p("D05", "Regression model objects",
  "The coefficients and bias of LR / ElasticNet / OnlineLR models, given explicitly or found by fitting, are the ones reported back; predict and predict_df return X.coefficients + bias; fit, predict and bias before a fit raise; fit and fit_df honour their null policies; and an OnlineLR update with new rows equals a fit on old and new rows together, rows with NaN being ignored.",
  "all coefficients, biases and data within the bound", "tests use single cases",
  ["src/pymodels/py_lr.rs", "python/polars_ds/linear_models.py"], [("PyLR", "src/pymodels/py_lr.rs")], over=("inputs", "histories"))
p("D06", "Regression report statistics",
  "The regression report has one row per feature (and one for the bias) whose coefficients solve the (weighted) normal equations, and its standard errors (classical or HC0 to HC3), t values, two-sided p values, 95% confidence limits, R2 and adjusted R2 (about the weighted mean of the target) equal their textbook definitions on that fit; rows with nulls count exactly as the null policy says.",
  "all full-rank data up to the bound", "tests compare one random frame with statsmodels",
  ["src/num_ext/linear_regression.rs", PY + "expr_linear.py"], [("report", "src/num_ext/linear_regression.rs")])
p("E01", "Regression metrics equal their definitions",
  "query_r2, query_adj_r2, query_l1, query_l2, query_l_inf, query_mape, query_smape, query_mase, query_msle, query_log_cosh, query_hubor_loss, query_mad and query_log_loss equal their textbook definitions on every pair of columns without nulls.",
  "all column pairs up to the length bound", "tests compare random vectors with sklearn",
  [PY + "metrics.py"], [("expressions", PY + "metrics.py")])
p("E02", "Classification metrics equal their definitions",
  "For every score column (ties included) and binary target, the ROC AUC equals the probability that a positive outranks a negative (ties counted half), the tpr/fpr and confusion-matrix quantities at every threshold equal their definitions, and MCC, binary metrics, multi-class ROC AUC, categorical cross-entropy, p-pct and fairness scores equal theirs; calculate_ndcg is the mean, over the groups of more than one row, of DCG@k over ideal DCG@k (0 where the ideal is 0), tied scores sharing their average discount if asked, whatever the group column is called.",
  "all targets and scores up to the length bound, all threshold values, ties included", "tests use random untied scores",
  ["src/num_ext/tp_fp.rs", PY + "metrics.py"], [("tp_fp", "src/num_ext/tp_fp.rs"), ("metrics", PY + "metrics.py")])
p("F01", "Test statistics equal their definitions",
  "The t-tests, Welch test, F-test, chi-squared, Kolmogorov-Smirnov, Mann-Whitney, normality, Kendall and xi statistics equal their textbook definitions, ties included, and their p values are the stated tail probability of the reference distribution at that statistic for every alternative.",
  "all samples up to the size bound (ties and duplicates included), every alternative", "tests compare random untied samples with scipy",
  ["src/stats", PY + "stats.py"], [("statistics", "src/stats")])
p("F02", "Descriptive and weighted statistics equal their definitions",
  "Weighted mean, variance, covariance, correlation and cosine similarity, harmonic and geometric means and their weighted versions, winsorisation and biweight midcorrelation equal their textbook definitions; unit weights give the unweighted value.",
  "all columns and positive weights up to the length bound", "tests use single vectors",
  [PY + "stats.py"], [("expressions", PY + "stats.py")])
p("F03", "Random columns stay within their specification",
  "The random expressions return a column of the requested length without nulls: random and random_int values in [lower, upper), random_str strings of letters and digits of a length within the two sizes, random_binomial counts between 0 and n, non-negative random_exp values, finite random_normal values. The same seed gives the same values; location and scale parameters act as documented on the values of a seed (random, random_normal, random_exp), and numbers or expressions are accepted as bounds. random_null turns values into nulls and changes no other, with more nulls for a larger share; perturb moves each non-null value by an amount inside the stated interval, jitter by noise proportional to the standard deviation, add_noise is one of the two, and nulls stay null.",
  "every generator output and every parameter value", "tests sample one seed",
  ["src/stats/sample.rs", PY + "stats.py"], [("samplers", "src/stats/sample.rs"), ("parameters", PY + "stats.py")])
p("F04", "Tail probabilities and the digamma function",
  "The p values of the F test, of the t tests (two-sided, less, greater) and of the chi-squared test are the tail areas of the F, Student's t and chi-squared distributions at the statistic, and those of the Mann-Whitney and xi tests the tail area of the normal distribution, whose two tails add up to 1. digamma satisfies digamma(x + 1) = digamma(x) + 1/x, the reflection formula for negative arguments and the asymptotic series for large ones, is -inf at zero and the negative integers, and keeps nulls.",
  "every F and t statistic in the ranges where the incomplete beta function's continued fraction is finite (an even degree of freedom) and chosen ones for odd degrees of freedom, every small contingency table of the stated shapes, chosen normal deviates in every interval of the approximation (every deviate for the symmetry), every argument of digamma in [-3, 1000] off the stated gaps", "tests compare a few random samples with scipy",
  ["src/stats_utils/beta.rs", "src/stats_utils/gamma.rs", "src/stats_utils/normal.rs", "src/stats/fstats.rs", "src/stats/t_test.rs", "src/stats/chi2.rs", "src/stats/mann_whitney_u.rs"], [("incomplete beta function", "src/stats_utils/beta.rs"), ("incomplete gamma function", "src/stats_utils/gamma.rs"), ("normal tail", "src/stats_utils/normal.rs"), ("digamma", "src/stats_utils/gamma.rs")])
p("G01", "Element-wise numeric functions and normalisations",
  "The element-wise and row-wise numeric expressions (expit, logit, exp2, fract, trunc, sinc, xlogy, next_up, next_down, horizontal norms, gcd, lcm, haversine) and column normalisations (center, z_normalize, softmax, is_increasing, is_decreasing, list_amax) return the mathematically defined value in every row and keep nulls in place.",
  "all values, including negatives, zero, infinities and NaN where defined, all null patterns", "tests use a handful of values",
  ["src/num_ext/float_extras.rs", "src/num_ext/gcd_lcm.rs", "src/num_ext/haversine.rs", PY + "num.py"], [("float_extras", "src/num_ext/float_extras.rs")])
p("G03", "Integration, convolution and detrending",
  "integrate_trapz is the trapezoid sum over consecutive points, convolve gives the full/same/valid/left/right discrete convolution by either method, detrend removes the mean or the least-squares line, and the real FFT is the discrete Fourier transform of the input.",
  "all inputs and kernels up to the length bound, every mode and method", "tests use a few fixed lengths",
  ["src/num_ext/trapz.rs", "src/num_ext/convolve.rs", "src/num_ext/fft.rs", PY + "num.py"], [("convolve", "src/num_ext/convolve.rs"), ("trapz", "src/num_ext/trapz.rs")])
p("G04", "Isotonic regression is the optimal monotone fit",
  "isotonic_regression returns the weighted least-squares optimal monotone (increasing or decreasing) fit of its input.",
  "all inputs and positive weights up to the length bound", "tests compare a few fixed vectors",
  ["src/num_ext/isotonic_regression.rs", PY + "num.py"], [("PAVA", "src/num_ext/isotonic_regression.rs")])
p("G05", "PSI, WOE and information value",
  "The population stability index, weight of evidence and information value reports contain one entry per bin or category of the reference, each value in exactly one bin, counts that add up to the number of values, and the documented smoothed log-ratio per bin whose total is the reported index.",
  "all columns up to the length bound (values equal to or beyond every breakpoint included)", "tests use random continuous data, where a value never equals a breakpoint",
  ["src/num_ext/psi.rs", "src/num_ext/woe_iv.rs", PY + "num.py"], [("psi", "src/num_ext/psi.rs"), ("woe", "src/num_ext/woe_iv.rs")])
p("G06", "Target encoding",
  "target_encode gives every non-null category that occurs with a target exactly one encoding: alpha * (mean target of the category) + (1 - alpha) * (mean of all targets), with alpha = 1 / (1 + exp(-(count - min_samples_leaf) / smoothing)); rows with a null category or target do not count for a category, and the order of the rows does not matter.",
  "all category/target columns up to the bound", "tests use one frame",
  ["src/num_ext/target_encode.rs", PY + "num.py"], [("target_encode", "src/num_ext/target_encode.rs")])
p("G07", "Set and combinatorial expressions",
  "jaccard_row and jaccard_col equal |A intersect B| / |A union B|, combinations lists every k-subset of the unique values exactly once in order, and product lists every pair exactly once in order.",
  "all columns up to the length bound, every k", "tests use a few small lists",
  ["src/num_ext/jaccard.rs", "src/num_ext/iterations.rs", PY + "num.py", PY + "expr_iter.py"], [("jaccard", "src/num_ext/jaccard.rs"), ("iterations", "src/num_ext/iterations.rs")])
p("G02", "Principal components and singular values",
  "singular_values returns the singular values of the feature matrix (centred unless center=False) in descending order, or with as_explained_var their squares over the number of samples minus one, or with as_ratio their shares of the total; pca lists, in the same order, each singular value with its right singular vector as weights, and principal_components projects the (centred) rows on the first k of those vectors. Data that cannot be decomposed (no rows, nulls) is an error or dropped, never a crash, and frames with fewer rows than features work.",
  "all feature matrices up to the bound whose Gram matrix the solver can diagonalise (two features, or orthogonal columns)", "tests compare one random frame with numpy",
  ["src/num_ext/pca.rs", PY + "num.py"], [("svd", "src/num_ext/pca.rs"), ("expressions", PY + "num.py")])
p("H01", "Time-series features equal their definitions",
  "Every time-series feature expression (ranges, energies, changes, streaks, counts, c3, cid, time-reversal, autocorrelation, Benford digit counts, similar-subsequence counts, Lempel-Ziv complexity, autoregressive coefficients) equals its documented formula on every series.",
  "all series up to the length bound", "tests use one series each",
  [PY + "ts_features.py", "src/num_ext/subseq_sim.rs", "src/num_ext/lempel_ziv.rs", "src/num_ext/benford.rs"], [("ts features", PY + "ts_features.py")])
p("H02", "Entropy features equal their definitions",
  "query_sample_entropy, query_approx_entropy, query_permute_entropy, query_cond_entropy, query_entropy, query_knn_entropy, query_copula_entropy and query_transfer_entropy equal the documented entropy estimates of the series or category columns.",
  "all series up to the length bound, ties included", "tests use one series each",
  ["src/num_ext/entrophies.rs", "src/num_ext/cond_entropy.rs", PY + "ts_features.py"], [("entropies", "src/num_ext/entrophies.rs")])
p("I01", "Transforms fit on one frame apply the same map to any frame",
  "Each modelling transform (impute by mean/median/mode, conditional and linear impute, center, standard/min-max/abs-max scale, robust scale, winsorize, one-hot, rank-hot, target/WOE/IV encode, polynomial features) built on a fitting frame applies, to every frame, exactly the map determined by the fitting frame's non-null values (population std, named quantile rule), nulls staying null except under imputation; an encoding covers every fitted category (one-hot: of string columns with at least two) and gives the documented default for unseen values and nulls.",
  "all fitting and application columns up to the bound", "tests fit and apply on the same frame",
  ["python/polars_ds/modeling/transforms.py"], [("transforms", "python/polars_ds/modeling/transforms.py")])
p("I02", "Pipelines replay exactly the blueprint's steps",
  "A materialised pipeline applies its steps in the order they were added, a step fitted after others sees their output, target and excluded columns are not touched by steps that pick columns by selector, transforming the fitting frame gives what the steps give one by one, and a pipeline restored from its dict or JSON form is equivalent to the original; ensure_features_io and separate do what they document.",
  "all sequences of steps up to the bound", "tests use one pipeline",
  ["python/polars_ds/modeling/pipeline.py"], [("pipeline", "python/polars_ds/modeling/pipeline.py")], over=("inputs", "programs", "histories"))
p("J01", "Sampling and splitting",
  "split_by_ratio returns disjoint parts that together are exactly the rows of the frame with the requested sizes (the last part takes the remainder), sample returns the requested number of distinct rows in order, volume_neutral takes equally many rows from every segment (within every control stratum), downsample samples only where its condition is true, random_cols draws k distinct columns outside `keep`, a seed makes the draw reproducible, and PartitionHelper's parts are exactly the groups of rows.",
  "all frame sizes, ratios and seeds within the bound", "tests use a few ratios",
  ["python/polars_ds/sample_and_split/sample_and_split.py", "python/polars_ds/partition/partition.py"], [("split", "python/polars_ds/sample_and_split/sample_and_split.py")])
p("L01", "Data inspection reports",
  "The data-frame valued reports of DIA say what is in the frame: special_values_report counts nulls, NaNs and infinities per numeric column; numeric_profile (gt=False) gives each numeric column's non-null count, null share, mean, std, min, max, quartiles, median, IQR, outlier count and histogram counts; str_stats gives lengths in bytes and characters, distinct counts and a most frequent value; col_validation lists the columns (row_validation the rows, with the first or all reasons) whose rule is false, a rule that is null being no violation; null_corr, corr and infer_corr give each pair's correlation once, strongest first; infer_const / binary / k_distinct / high_null / discrete / prob return exactly the columns that satisfy their definition in every row; infer_dependency gives the conditional entropy of every eligible pair, the column with fewer values by the other.",
  "all frames up to the row bound: any values, nulls and equalities between them", "tests do not touch this module",
  ["python/polars_ds/eda/diagnosis.py"], [("DIA", "python/polars_ds/eda/diagnosis.py")])
p("K01", "Declared output types are the types returned",
  "For each native (Rust plugin) expression and every input type it accepts (32- and 64-bit floats, signed and unsigned integers, booleans, strings, lists), the type the library declares at planning time -- including the field names of a struct and the inner type of a list -- is exactly the type of the column it returns, so that schemas of lazy frames are true, whatever the data (nulls, no positives, one class).",
  "every native expression, every supported numeric type, all values within the row bound", "tests run eager frames, which take the type of the column returned and never compare it with the declared one",
  ["src/num_ext", "src/str_ext", "src/stats", PY], [("output_type functions", "src/num_ext"), ("plugins", PY)], over=("inputs", "configurations"))
p("K02", "Native expressions in group_by and over",
  "A native (Rust plugin) expression used in group_by().agg(...) or over(...) gives for every group exactly what it gives on a frame with that group's rows alone: one marked element-wise never looks across rows, one marked as returning a scalar returns one value per group, one that keeps the length has a value per row of the group in order, and nothing depends on the columns' names being present.",
  "every native expression, groups with any values within the row bound", "tests use select on whole frames; the few group tests compare one random frame",
  [PY, "src/num_ext", "src/str_ext"], [("is_elementwise / returns_scalar / changes_length flags", PY), ("plugins", "src/num_ext")], over=("inputs", "programs"))
p("K03", "Arguments are checked when the call is made",
  "A call whose argument is outside its documented range is refused with an error when the call is made (the expression is never built), and a call whose arguments are inside is accepted: counts such as k, lag, m, freq, n_dims, tau, n, n_bins, window_size, start_with and n_maxima below their minimum, radii, rates, levels, standard deviations and weights outside theirs (both ends), k of principal_components above the number of features, windows smaller than the number of features, names that are not one of the documented ones (methods, metrics, strategies, noise types, normalization forms, distances), queries, breakpoints, targets, variables or ranks that are empty or too few, points of another dimension, and data for a KDTree that is not a matrix.",
  "every argument value within the stated ranges", "tests pass a handful of valid values; limits are off by one at single values",
  [PY, "python/polars_ds/sample_and_split", "python/polars_ds/modeling/transforms.py", "python/polars_ds/spatial.py"], [("raise ValueError on arguments", PY)], over=("inputs",))
p("K04", "Compatibility calls",
  "polars_ds.compat.compat.<name>(...) evaluates the package's function of that name at once. Every positional or keyword argument that is a polars Series, a numpy array or an object with __array__ stands for a column with those values; other arguments are passed on unchanged. The call returns a polars Series with the same values as the expression polars_ds.<name> gives on a frame with these columns (an error exactly if that is one), named <name> without its 'query_' prefix. Names that are not expressions (frame, str_to_expr, pl, annotations, __version__, warn_len_compare), unknown names and calls without a positional argument are refused.",
  "about 150 functions, every value of their columns within the row bound, every kind of argument", "the tests compare a few functions on one random array",
  ["python/polars_ds/compat/_compat.py", PY], [("_Compat.__getattr__", "python/polars_ds/compat/_compat.py"), ("expression builders", PY)], over=("inputs", "configurations"))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80
        f.write(json.dumps(x) + "\n")
print(len(P))
