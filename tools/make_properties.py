#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json (keeps the two in step)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, note):
    assert len(title) <= 80, title
    P.append(
        dict(
            id=pid,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(files=["mlpaper/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
            note=note,
        )
    )


prop(
    "C01",
    "Probabilistic classification losses match their definitions on any prediction",
    "For every true label and every normalized log-probability prediction (zero probabilities, extreme logits and any number of labels included), log loss, Brier loss and spherical loss equal their textbook values. With rescaling, a certain correct prediction scores exactly 0, the uniform prediction scores 1 (for two or more labels), and results do not depend on the integer or bool type of the labels. The loss of a point depends on that point alone, and labels out of range, of another type or length are refused.",
    ["inputs"],
    "all label vectors of integer or bool type and all row-normalized log-probability matrices with at least one label",
    "Tests draw a few Gaussian logit matrices of one shape and compare with sklearn; zero probabilities, one label, many labels and label types are not covered.",
    ["classification.py", "util.py"],
    [("log_loss, brier_loss, spherical_loss", "mlpaper/classification.py"), ("one_hot", "mlpaper/util.py")],
    ["return value of the loss functions"],
    "Reference is a scalar re-implementation with math.fsum; agreement to about 1e-9 on generated predictions.",
)
prop(
    "C02",
    "Hard decisions minimize expected loss and are scored with the true label",
    "For every prediction and every loss matrix (any number of actions, negative losses included), the chosen action minimizes the expected loss under the prediction. The reported loss is the loss matrix entry of the true label and that action, with zero-one loss when no matrix is given. Malformed loss matrices are rejected.",
    ["inputs"],
    "all normalized predictions, label vectors and finite loss matrices with n_labels rows",
    "Tests use a square zero-one matrix or one random matrix; asymmetric, non-square, negative matrices with ties are a different regime.",
    ["classification.py"],
    [("hard_loss_decision, hard_loss", "mlpaper/classification.py")],
    ["return value of the decision and of the loss"],
    "Expected losses recomputed with scalar arithmetic; ties within round-off accept any of the tied actions.",
)
prop(
    "C03",
    "Standard losses are proper: telling the truth is never worse in expectation",
    "For every pair of a true distribution q and a report p, the expected value under q of each standard classification loss is not smaller for p than for q, and it is strictly larger for the log, Brier and spherical loss when p differs from q. Likewise the empirical mean, median and Gaussian fit minimize the average square, absolute and Gaussian log loss over all constant predictions.",
    ["inputs"],
    "all pairs of distributions over the same labels; all target vectors and constant predictions",
    "Propriety is a statement about all pairs of distributions; no test states it.",
    ["classification.py", "regression.py"],
    [("loss functions", "mlpaper/classification.py"), ("loss functions", "mlpaper/regression.py")],
    ["average of the losses weighted by the true distribution"],
    "Metamorphic inequality, no reference values needed.",
)
prop(
    "C04",
    "Classification loss tables score each method on its own, normalized, prediction",
    "Every cell of a classification loss table is the metric of that method's normalized prediction at that point, whatever the order of methods and labels columns, the row index, the scale of the unnormalized log probabilities, or the other methods present; the table has all methods and metrics and the row index of the input. Inputs that would allow cheating are refused: NaN predictions, misordered or missing label columns, out-of-range or non-integer labels, misaligned lengths.",
    ["inputs", "configurations"],
    "all prediction tables (methods x labels), label vectors and metric dictionaries",
    "Tests build tables with sorted method names and range indices only.",
    ["classification.py", "util.py"],
    [("loss_table", "mlpaper/classification.py"), ("normalize", "mlpaper/util.py")],
    ["returned DataFrame", "exceptions on invalid tables"],
    "Every cell recomputed by scalar reference; rejected inputs must raise.",
)
prop(
    "C05",
    "Regression losses and loss tables match their definitions",
    "For every target, predicted mean and positive predicted standard deviation, square, absolute and Gaussian log loss equal their definitions, whatever the numeric types (integers, unsigned or bool included). Every cell of a regression loss table is the metric of that method's own mean and standard deviation at that point irrespective of the order of moments, methods and index, and non-finite predictions or targets, standard deviations that are not positive and misaligned lengths are refused.",
    ["inputs", "configurations"],
    "all real targets, means, positive standard deviations; all tables of methods x moments",
    "Tests compare random Gaussian draws with scipy for positive std only.",
    ["regression.py"],
    [("square_loss, abs_loss, log_loss, loss_table", "mlpaper/regression.py")],
    ["returned losses and DataFrame", "exceptions"],
    "Scalar reference; every cell recomputed.",
)
prop(
    "C06",
    "Classifier predictions are each method's own, floored and normalized",
    "For any dictionary of estimators (offering log probabilities, only probabilities, or failing on log probabilities), the prediction table holds for each method its own predictive distribution on the test points, floored at the requested minimum and then normalized, after fitting each exactly once on the training data only. NaN predictions and errors of estimators are passed on rather than hidden, misaligned data and floors that are not allowed are refused. The built-in baseline classifier predicts the (pseudo-counted) class frequencies of the training labels for every test point, for int and bool labels.",
    ["inputs", "configurations"],
    "all training/test sets, estimator interfaces, floors, and label vectors of int or bool type",
    "Needs estimators of each interface kind with extreme outputs; tests use two sklearn estimators and no floor.",
    ["classification.py"],
    [("get_pred_log_prob, JustNoise", "mlpaper/classification.py")],
    ["returned DataFrame", "calls received by stub estimators"],
    "Stub estimators log calls and data; expected table is recomputed.",
)
prop(
    "C07",
    "Regression predictions are each method's own mean and floored std",
    "For any dictionary of estimators, with or without support for a standard deviation, the prediction table holds each method's own mean and standard deviation on the test points, with the standard deviation raised to the requested minimum, after fitting each exactly once on the training data only. Methods without a standard deviation get a standard deviation of one, NaN and errors of estimators are passed on rather than hidden, and misaligned data and floors that are not allowed are refused. The built-in baseline regressor predicts the mean and population standard deviation of the training targets for each test point.",
    ["inputs", "configurations"],
    "all data sets, estimator interfaces and floors",
    "Tests do not cover the prediction pipeline for regression at all.",
    ["regression.py"],
    [("get_gauss_pred, JustNoise", "mlpaper/regression.py")],
    ["returned DataFrame", "calls received by stub estimators"],
    "Stub estimators log calls and data; expected table is recomputed.",
)
prop(
    "C08",
    "Checkpoints save work and never change results, across crashes and changes",
    "For every history of benchmark runs that share checkpoint directories (estimators, data, floors and label types changing between runs, and runs interrupted by an exception or the death of the process at any point), each completed run returns exactly what a run without checkpoints returns. A method whose estimator and data already completed in that directory is not trained again, and nothing is reused between different data, estimators or directories.",
    ["histories", "crash_points", "fault_sequences"],
    "all sequences of prediction runs over checkpoint directories with a fault at any fit or predict call",
    "No test exercises checkpoints.",
    ["classification.py", "regression.py"],
    [("joblib.Memory around train_predict", "mlpaper/classification.py, mlpaper/regression.py")],
    ["returned tables vs runs without checkpoint", "log of trainings written by stub estimators"],
    "Stateful: generated histories with injected exceptions and process death against a model of what is already stored.",
)
prop(
    "C09",
    "One-call benchmarks equal their documented stages run by hand",
    "The one-call classification and regression benchmarks and the combined summary table give the same table and curves as prediction, loss table, loss summary and curve summary done by hand on the same data with the same options: floor, pairwise error bars, confidence, error bar method, limits, grid, and number of bootstrap replications. No option is dropped, swapped or applied to the wrong metric.",
    ["inputs", "configurations"],
    "all data sets, estimator dictionaries, metric dictionaries and option combinations",
    "Tests call the benchmarks once or not at all, and never with all the options away from the default.",
    ["classification.py", "regression.py", "mlpaper.py"],
    [("just_benchmark, summary_table", "mlpaper/classification.py"), ("just_benchmark", "mlpaper/regression.py")],
    ["returned DataFrames"],
    "Differential: stages composed by hand under the same seed, with a statistical fallback when the random stream is consumed differently.",
)
prop(
    "C10",
    "t error bars and p-values equal Student's t interval and test",
    "For every sample and confidence level the t error bar and p-value equal those of the Student t interval for the mean and the two-sided one-sample t test with n-1 degrees of freedom. Samples of one point give an infinite error bar and p-value 1, constant samples give a zero error bar and p-value 0 (or 1 when all values are zero), and negating or rescaling the sample has the obvious effect. NaN data and confidence levels outside of (0, 1) are refused.",
    ["inputs"],
    "all finite samples (also with one or two points, constant, tied, large offsets) and confidence levels in (0, 1)",
    "Tests compare random normal samples with scipy; degenerate samples crashed (see fixes).",
    ["mlpaper.py"],
    [("t_test, t_EB", "mlpaper/mlpaper.py")],
    ["returned numbers"],
    "Exact rational moments and the scipy t distribution as reference.",
)
prop(
    "C11",
    "Empirical Bernstein bounds are valid and equal their closed form",
    "For every bounded sample, limits and confidence level, the Bernstein error bar equals the empirical Bernstein bound and the p-value is the level at which that bound reaches zero (at most 1). The error bar covers the true mean with at least the nominal probability and the test has at most the nominal size for every Bernoulli distribution and sample size; data outside the limits, NaN and invalid confidence levels are refused.",
    ["inputs"],
    "all samples within finite or infinite limits, all confidence levels; all Bernoulli parameters and sample sizes",
    "Validity is a statement about all distributions; tests check a few random samples.",
    ["mlpaper.py"],
    [("bernstein_EB, bernstein_test", "mlpaper/mlpaper.py")],
    ["returned numbers"],
    "Closed form reference and exact coverage by enumeration of all binary outcomes.",
)
prop(
    "C12",
    "Bootstrap of the mean resamples points uniformly with replacement",
    "Bootstrap weights are the counts of a resample of n of the n points with replacement, all resamples as likely as multinomial sampling makes them, independent across replications, with zeros raised to the requested minimum weight. Bootstrap error bars and p-values of a sample are the ones those resamples give: the error bar reaches from the sample mean to the further end of the percentile interval of resampled means, and the p-value is twice the smaller tail at zero, at most 1.",
    ["inputs", "schedules"],
    "all samples, numbers of replications, confidence levels and random streams",
    "A Monte Carlo result is checked in tests against other Monte Carlo results at 1e-2 levels; wrong resampling schemes can pass.",
    ["boot_util.py", "mlpaper.py"],
    [("boot_weights", "mlpaper/boot_util.py"), ("boot_EB, boot_test", "mlpaper/mlpaper.py")],
    ["returned weights and numbers"],
    "Exact enumeration of all resamples of small samples with 1e-11 bounds, and exact recomputation from the same random stream when it matches.",
)
prop(
    "C13",
    "Error bars and p-values of the same method never contradict each other",
    "For every sample, method and confidence level, zero lies outside the unclipped interval exactly when the p-value is below one minus the confidence (t and Bernstein), and at confidence one minus the p-value the interval just reaches zero. For the bootstrap, an interval excluding zero implies significance at that level.",
    ["inputs", "configurations"],
    "all samples, methods and confidence levels",
    "The two are separate functions and tests check each of them alone.",
    ["mlpaper.py", "boot_util.py"],
    [("t_EB/t_test, bernstein_EB/bernstein_test, boot_EB/boot_test", "mlpaper/mlpaper.py")],
    ["returned pairs of numbers"],
    "Metamorphic: duality of interval and test.",
)
prop(
    "C14",
    "Error bars are clipped to the trivial bound and never invent certainty",
    "For every estimate, error bar, theoretical limits and minimum error bar, the clipped error bar is the given one unless a smaller one already covers all the possible values of the mean, and never below the minimum; estimates outside the limits raise an error, a NaN error bar stays NaN and a NaN mean only leaves the minimum to apply. The combined mean/error bar/p-value function agrees with the separate functions for every method and stays within the limits; unknown methods are refused.",
    ["inputs", "configurations"],
    "all combinations of finite, infinite and NaN estimates, error bars and limits; all samples and methods",
    "Combinations of special values; tests use fuzzed normal values for one method.",
    ["mlpaper.py"],
    [("clip_EB, get_mean_and_EB, get_test, get_mean_EB_test", "mlpaper/mlpaper.py")],
    ["returned numbers", "ValueError"],
    "Case-by-case reference in scalar arithmetic.",
)
prop(
    "C15",
    "Loss summaries report mean, error bar, paired p-value of each method and metric",
    "Every cell of a loss summary is the mean loss of that method on that metric, the error bar of that loss (or of the paired difference to the reference if asked) by the requested method, confidence and that metric's limits, and the p-value of the paired test against the reference method. The reference's p-value (and pairwise error bar) is NaN, the order of methods and metrics, the row index and the numeric type of the losses (floats, integers, unsigned or bool) do not matter, and NaN losses, losses beyond their limits or an unknown reference are refused.",
    ["inputs", "configurations"],
    "all loss tables, references, methods, confidences and limits dictionaries",
    "Tests build one fuzzed table per run and compare with the same helper functions.",
    ["mlpaper.py", "util.py"],
    [("loss_summary_table", "mlpaper/mlpaper.py"), ("clip_chk", "mlpaper/util.py")],
    ["returned DataFrame", "exceptions"],
    "Each cell recomputed independently; bootstrap by exact enumeration bands.",
)
prop(
    "C16",
    "Bootstrap intervals and p-values are the right order statistics",
    "For every set of bootstrap replications (ties and infinities included), estimate and confidence level, the percentile interval is, element by element, the central interval of the replications at that confidence, the basic interval is its reflection about the estimate, the error bar is the larger distance from the estimate to the ends, and the p-value is twice the smaller one-sided share of replications at or beyond the reference, at most one. NaN replications or references and confidences outside of (0, 1) are refused.",
    ["inputs"],
    "all arrays of replications, estimates, references and confidence levels",
    "Tests use continuous random replications without ties.",
    ["boot_util.py"],
    [("percentile, basic, error_bar, significance", "mlpaper/boot_util.py")],
    ["returned arrays"],
    "Order statistics by sorting and counting.",
)
prop(
    "C17",
    "ROC, precision-recall and PRG curves equal counting at each threshold",
    "For all labels, scores (ties included) and positive weights per bootstrap row, each point of each curve equals the rates obtained by counting what is at or above each distinct score, with the documented end points; thresholds are the distinct scores. Curves depend only on the ranking of the scores, not on the order of points, the scale of the weights or the other rows, and integer weights equal repetition of points; labels that are not bool, non-finite scores and weights that are not positive are refused.",
    ["inputs"],
    "all bool label vectors, finite scores and positive weight matrices; a class that is absent is replaced by a negligible copy of the other",
    "Tests compare with sklearn on random data; ties combined with per-row weights are sampled rarely.",
    ["perf_curves.py"],
    [("roc_curve, recall_precision_curve, prg_curve, _binary_clf_curve", "mlpaper/perf_curves.py")],
    ["returned curve arrays and thresholds"],
    "Brute-force counting with rational arithmetic.",
)
prop(
    "C18",
    "Areas under curves equal their probabilistic meaning",
    "The area under the ROC curve is the probability that a random positive outranks a random negative with ties counted half, so negating the scores or flipping the labels maps it to one minus itself; average precision and area under the PRG curve equal their step-wise sums. Perfect, constant and reversed rankings give the known values.",
    ["inputs"],
    "all labels, scores with ties, and weights",
    "Pairwise counting over all inputs; tests compare with sklearn on continuous scores.",
    ["perf_curves.py", "util.py", "classification.py"],
    [("curve functions", "mlpaper/perf_curves.py"), ("area", "mlpaper/util.py")],
    ["area of returned curves"],
    "Pair counting and rational arithmetic.",
)
prop(
    "C19",
    "Step functions, interpolation and area are exact, also on vertical segments",
    "Evaluating a step function gives the value of the last step at or before each point (the initial value before the first), for sorted and unsorted steps, and ambiguous or undefined requests are refused. Vectorized interpolation of curves and their areas equal exact piecewise constant or linear evaluation row by row, including repeated x values and infinite values on zero-width parts.",
    ["inputs"],
    "all step functions, curves with vertical parts, grids and kinds of interpolation",
    "Tests sample continuous random points where repeated x values have probability zero or one special pattern.",
    ["util.py"],
    [("eval_step_func, interp1d, area, unique_take_last", "mlpaper/util.py")],
    ["returned arrays"],
    "Linear scan reference in rational arithmetic.",
)
prop(
    "C20",
    "Curve summaries: area, bootstrap error bar, paired p-value and envelope",
    "For every binary problem the curve summary is the area of the full-data curve, the bootstrap error bar of that area (or of the difference to the reference when asked) and the paired bootstrap p-value against the reference method (or the unpaired one against a number), with the same resample used for method and reference; the reported curve is evaluated on the requested grid with a pointwise percentile envelope. In tables each method and curve gets its own, the reference gets NaN, and a copy of the reference has p-value one; malformed custom curves (not monotone in x, NaN, misshapen) and malformed predictions, grids, confidences or references are refused.",
    ["inputs", "configurations"],
    "all binary problems, curve functions, references, grids, confidences, pairings",
    "Bootstrap results are random; tests check only averages on a few simulated problems.",
    ["classification.py", "perf_curves.py", "boot_util.py"],
    [("curve_boot, curve_summary_table", "mlpaper/classification.py")],
    ["returned summary, DataFrame and curve dump"],
    "Recomputed from the same resamples with interval arithmetic, statistically if the stream is used differently.",
)
prop(
    "C21",
    "Rounding of results: error bars up, estimates half up to that digit, p-values up",
    "For every results table, error bars are rounded up to the requested significant digits, each estimate is rounded half up at the last digit of its error bar, p-values are rounded up at the requested digit, and estimates without a usable error bar keep the default number of digits. Error bars beyond their column's limit become infinite, non-finite entries are kept, negative error bars and p-values beyond [0, 1] are refused, and the order of metrics, stats and methods or columns removed before do not matter.",
    ["inputs", "configurations"],
    "all tables of floats including NaN/inf, all digit settings and limits",
    "Rounding boundaries (9.95, exact powers of ten, ties) are hit rarely by random tests.",
    ["sciprint.py"],
    [("decimalize, create_decimal", "mlpaper/sciprint.py")],
    ["returned DataFrame of Decimal"],
    "Exact rational arithmetic of the binary float value.",
)
prop(
    "C22",
    "Printed cells show exactly the rounded numbers, aligned",
    "A printed estimate shows the rounded estimate times ten to the shift in fixed notation with thousands separators and its error bar as the trailing digits in parentheses, so that reading it back gives estimate, precision and error bar; clipped and non-finite values show the limit or the configured text, and p-values below the smallest display as less than it. Padding only adds spaces, the minimum needed to line up the decimal points.",
    ["inputs", "configurations"],
    "all decimals, shifts, limits and non-finite texts; all tables",
    "Combinations of sign, exponent, digits, limits; tests fuzz without an independent reading back of the text.",
    ["sciprint.py"],
    [("print_estimate, print_pval, format_table, pad_num_str", "mlpaper/sciprint.py")],
    ["returned strings"],
    "Own fixed-notation printer plus a parser (round trip).",
)
prop(
    "C23",
    "The chosen display shift is legal and optimal",
    "For every column of estimates and error bars and every modulus, the chosen shift is a multiple of the modulus for which every estimate is defined up to the decimal point; among those it shows something of at least one if possible and needs the least width, preferring the smallest magnitude of shift on ties. Columns without values are not shifted.",
    ["inputs", "configurations"],
    "all lists of decimal estimates with error bars and moduli",
    "Optimality is over all shifts; tests compare with a brute force over a narrower fuzz.",
    ["sciprint.py"],
    [("find_shift, get_shift_range", "mlpaper/sciprint.py")],
    ["returned shift"],
    "Brute force over all candidate shifts.",
)
prop(
    "C24",
    "Column headers carry the factor or SI prefix that undoes the shift",
    "For every metric name, unit, shift, prefix setting and plain or TeX output, the header names the metric and states the power of ten or SI prefix with unit such that the displayed number times that factor is the original value. P-value columns are labelled as such, order is kept, and missing units mean no unit is shown.",
    ["inputs", "configurations"],
    "all metrics, units, shifts and output modes",
    "Tests do not check header text.",
    ["sciprint.py", "constants.py"],
    [("adjust_headers, _PREFIX", "mlpaper/sciprint.py, mlpaper/constants.py")],
    ["returned header list"],
    "Own composition from the SI definition and parsing the factor back.",
)
prop(
    "C25",
    "Formatted reports can be read back to the original results",
    "For every results table and formatting options, parsing the text or LaTeX report gives back the same methods, metrics, and every estimate, error bar and p-value to within the stated rounding, after undoing the factor or prefix in the header. Options for units, shift, limits and non-finite text apply to the metric they are given for only.",
    ["inputs", "configurations"],
    "all tables of floats including non-finite ones, and all formatting options",
    "End-to-end meaning of the report is not tested.",
    ["sciprint.py"],
    [("just_format_it, table_to_string, table_to_latex", "mlpaper/sciprint.py")],
    ["returned report"],
    "Round trip with an independent parser. jinja2 is absent, so pandas' LaTeX writer is replaced by a stand-in that receives what the package passes to it.",
)
prop(
    "C26",
    "Train/test splits partition the rows without loss, overlap or change",
    "For every data frame and combination of split criteria (random, ordered, linear, on columns or the index), every row goes to exactly one of train, test and unused with order, values, types and index kept. Train is what all criteria put in train, test is what all put in test and unused is the rest; with one criterion nothing is unused, and truthful sorted/unique promises do not matter.",
    ["inputs", "configurations"],
    "all data frames, split dictionaries and promises",
    "Tests use unique sorted indices and float columns.",
    ["data_splitter.py"],
    [("split_df", "mlpaper/data_splitter.py")],
    ["returned three frames"],
    "Set reasoning: some legal per-criterion split has to explain the parts exactly.",
)
prop(
    "C27",
    "Random splits keep equal values together and are uniform",
    "A random split puts all rows of equal value on the same side, with the requested fraction of the distinct values (rounded up) in train; every subset of that size is equally likely, splits on several columns are independent, and the split is reproducible from the seed. Fractions outside of [0, 1] and missing values are refused.",
    ["inputs", "schedules"],
    "all series of any type, fractions and random seeds",
    "Leakage between groups and uniformity need all group structures; tests check sizes.",
    ["data_splitter.py"],
    [("random_split_series, rand_subset, rand_mask", "mlpaper/data_splitter.py")],
    ["returned masks"],
    "Set oracle and exact counting bounds (1e-11) on the frequency of each subset.",
)
prop(
    "C28",
    "Ordered and linear splits cut at the right value",
    "An ordered split puts in train the smallest values such that the requested fraction of distinct values (rounded up) is in train; a linear split puts in train what is at or below that fraction of the way from the minimum to the maximum. Smaller means the order of the type, e.g. that of the categories of an ordered categorical. Both depend on the values only, not on row order or truthful promises, are monotone in the fraction and never put a smaller value in test than one in train.",
    ["inputs", "configurations"],
    "all series of ordered type, fractions, row orders and promises",
    "Exact multiples, ties and duplicates are edge cases random floats do not hit.",
    ["data_splitter.py"],
    [("ordered_split_series, linear_split_series", "mlpaper/data_splitter.py")],
    ["returned masks"],
    "Rational arithmetic; either side accepted only when float round-off decides.",
)
prop(
    "C29",
    "Lagged frames hold the value from exactly that many rows before",
    "For every data frame, number of lags, stride and feature subset, each entry at lag k is the value k strides above in the same column, missing before the start; lag zero comes first with all columns and original types, then only the chosen features. Index, column names and levels are kept with the lag level last.",
    ["inputs", "configurations"],
    "all frames (also with odd column names and hierarchical columns), lags, strides and subsets",
    "Not tested at all in the repository.",
    ["data_splitter.py"],
    [("build_lag_df", "mlpaper/data_splitter.py")],
    ["returned DataFrame"],
    "Entry by entry reference.",
)
prop(
    "C30",
    "Calls are pure: results depend on arguments and numpy seed only, not on history",
    "For every sequence of calls to the public functions (failing calls and users overwriting results included), each call returns the same as when it is made first in a fresh process with the same arguments and numpy seed. Calls leave their arguments and global settings (decimal context, numpy error state, warning filters, pandas options, environment) as they were, deterministic functions do not consume random numbers, and random ones use numpy's random state but never reset it.",
    ["histories", "inputs"],
    "all finite sequences of public calls",
    "Tests call each function by itself and never compare histories.",
    ["mlpaper.py", "classification.py", "regression.py", "sciprint.py", "boot_util.py", "perf_curves.py", "data_splitter.py", "util.py"],
    [("no module level mutable state, copies of inputs, local contexts", "all modules")],
    ["results in forked processes"],
    "Stateful: histories of 2-7 calls over 64 operations compared with single calls in fresh processes.",
)
prop(
    "C31",
    "Encoding, normalization, tie-breaking noise and monotone helpers are exact",
    "One-hot encoding marks exactly the label and refuses anything else; normalization makes each row sum to one, keeps zero probabilities, and is invariant to scaling of rows and order of labels. Tie-breaking noise makes values unique at random without reordering distinct values or exceeding half the smallest gap (or the given maximum); making points strictly increasing changes them minimally, removing duplicate points keeps the last, and clipping to limits absorbs round-off only and refuses more.",
    ["inputs"],
    "all label vectors, log-weight matrices and vectors with ties and extreme values",
    "Tests sample continuous values where ties and adjacent floats do not occur.",
    ["util.py"],
    [("one_hot, normalize, epsilon_noise, cummax_strict, unique_take_last", "mlpaper/util.py")],
    ["returned arrays"],
    "Scalar references; exact count bounds for randomness.",
)
prop(
    "C32",
    "Decimal conversion and digit helpers are exact",
    "Converting a float to a number of significant digits gives the correctly rounded decimal in the requested rounding mode, and non-finite values stay so. Building decimals from sign, digits and exponent and taking them apart is lossless; spacing, defined-to-the-dot, digit string, rounding to multiples and print width agree with exact arithmetic on every input.",
    ["inputs"],
    "all floats, digit counts, rounding modes, decimals and integers",
    "Rounding boundaries and signed zeros are measure-zero for random tests.",
    ["sciprint.py"],
    [("create_decimal, decimal_from_tuple, decimal_eps, decimal_to_dot, digit_str, floor_mod, ceil_mod, str_print_len", "mlpaper/sciprint.py")],
    ["returned decimals, strings, ints"],
    "Exact rational arithmetic.",
)

prop(
    "C33",
    "Printed reports state the true scores of the estimators on the data, end to end",
    "For every data set, dictionary of estimators, reference and options, running the benchmark with the standard metrics and formatting the result gives a report in which each estimate, error bar and p-value of each method is the true one (average loss of its predictions, t interval, paired t test, areas by counting) up to the digits printed, and the scale or unit in the header is the right one. The report does not depend on the order of test points and methods or on the presence of further methods.",
    ["inputs", "configurations"],
    "all data sets, estimators with and without log probabilities or standard deviations, floors, pairings and report options",
    "No test goes from estimators to the report; faults that cancel or only matter between stages are visible only end to end.",
    ["classification.py", "regression.py", "mlpaper.py", "sciprint.py", "perf_curves.py", "util.py"],
    [("just_benchmark", "mlpaper/classification.py, mlpaper/regression.py"), ("just_format_it", "mlpaper/sciprint.py")],
    ["returned summary table and report text"],
    "Independent scalar arithmetic and reading the report back.",
)

STATEFUL = {"C08", "C30"}
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        q = dict(p)
        q.pop("note")
        fh.write(json.dumps(q) + "\n")
checks = []
for p in P:
    checks.append(
        dict(
            property=p["id"],
            quick_cmd="./check.sh %s quick" % p["id"],
            thorough_cmd="./check.sh %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique=("stateful property-based testing with fault injection (Hypothesis) against a model" if p["id"] == "C08" else "stateful property-based testing (Hypothesis), differential against fresh processes" if p["id"] == "C30" else "property-based testing (Hypothesis) against an independent oracle"),
            level="exploration",
            level_note=p["note"] + " Explored by generated cases only: no exhaustiveness claim; numpy, scipy, pandas and the oracle in /verif/checks are trusted.",
        )
    )
man = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=checks,
    not_applicable=[],
    notes="No hooks: the checks only use the public API of /repo's current sources. Repairs made in /repo are listed in known_findings.json.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
