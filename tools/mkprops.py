#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
B = "optbinning/binning/"
p("C01", "Every training record is counted in exactly one row of the binning table",
  "After fitting a binary-target binning, every training record (weighted by its whole-number sample and class weight) is counted exactly once in the binning table: in the interval or category bin that contains its value, in the row of its special code, or in the missing row, as event or non-event according to its target. "
  "The per-row event and non-event counts are exactly those of the records routed to that row (intervals closed on the left, open on the right), and row counts add up to the totals and to the number of records given.",
  ["inputs", "configurations"], "all numerical and categorical training samples with missing values, special codes given as list, array or dictionary, weights, ties with split points, and all binning options",
  "Tests compare one data set's table with stored numbers; they never vary boundary ties, dictionaries of special codes, weights, or group removal.",
  [B+"binning.py", B+"preprocessing.py", B+"model_data.py", B+"binning_statistics.py"],
  [("split of records in clean/missing/special/others", B+"preprocessing.py split_data"), ("prebin counting", B+"binning.py _compute_prebins"), ("aggregation of prebins into bins", B+"binning_statistics.py bin_info")],
  [("n_nonevent/n_event", "per-row counts", B+"binning.py")], ["OptimalBinning.binning_table.build()", "OptimalBinning.splits"])
p("C02", "Transforming a value gives the statistic, label or index of its own row",
  "For a fitted binary binning, transforming any value (seen in training or not) returns the WoE, event rate, position or label of exactly the table row the value belongs to, where membership is the same as in training; special codes and missing values return the requested number, or their own row's value when the empirical value is requested. "
  "The result of one element never depends on the other elements transformed with it, and fitting then transforming equals the combined call.",
  ["inputs", "configurations"], "all values (inside, outside and on the boundary of the training range, specials, missing), all metrics and all options for special and missing values",
  "Tests check a handful of values on one data set; membership at boundaries, dictionaries of specials and mixed options are never varied.",
  [B+"transformations.py", B+"binning.py"], [("digitize and value lookup", B+"transformations.py transform_binary_target"), ("special/missing dispatch", B+"transformations.py _apply_transform")],
  [], ["OptimalBinning.transform"])
p("C03", "Solver results are truly optimal and status tells the truth",
  "When the binary binning reports an optimal status, no merging of the pre-bins that satisfies all requested constraints has a larger divergence (minus the requested penalty) than the one returned; when it reports infeasible, no such merging exists and the clean records form a single bin. "
  "The two exact solver back ends return equally good solutions, for every divergence.",
  ["inputs", "configurations"], "all pre-bin event/non-event profiles and all combinations of constraints, divergences and monotonicity options, with both exact solvers",
  "Tests pin the output on one data set where preprocessing cuts and big-M rows are inactive; optimality over all merges is never compared.",
  [B+"cp.py", B+"mip.py", B+"model_data.py", B+"binning.py"], [("CP model", B+"cp.py build_model"), ("MIP model", B+"mip.py build_model"), ("objective coefficients", B+"model_data.py")],
  [("status", "status string", B+"binning.py")], ["OptimalBinning.status", "OptimalBinning.splits"])
p("C04", "A returned binning satisfies every constraint the user set",
  "Whenever a solution is reported as optimal or feasible, the bins respect the minimum and maximum number of bins, minimum and maximum bin size, minimum and maximum number of events and non-events per bin, minimum event-rate difference between consecutive bins, and the maximum p-value between bins under the chosen comparison policy. "
  "This holds for the constraint programming and the mixed-integer back ends and for the heuristic trend options alike, on the data that was given.",
  ["inputs", "configurations"], "all training samples and all constraint combinations for every exact solver and heuristic trend option",
  "Tests try each constraint on one data set and mostly compare split values.",
  [B+"cp.py", B+"mip.py", B+"binning.py"], [("constraint rows", B+"cp.py, mip.py"), ("size fractions to counts", B+"binning.py _fit_optimizer"), ("p-value violations", B+"model_data.py find_pvalue_violation_indices")],
  [], ["OptimalBinning.binning_table"])
p("C05", "Event rates follow the requested monotonic trend",
  "With a requested trend, the event rates of the returned consecutive bins are ascending, descending, concave, convex, unimodal peak or unimodal valley as asked; automatic modes return bins that follow at least one trend of the family that mode may choose from. "
  "The reported description of the trend in the table analysis agrees with the event rates in the table.",
  ["inputs", "configurations"], "all pre-bin profiles, all trend options including heuristics and automatic modes, with both exact solvers",
  "Trend tests use one data set with a naturally monotone profile.",
  [B+"cp.py", B+"mip.py", B+"auto_monotonic.py"], [("trend rows", B+"cp.py add_constraint_monotonic_*"), ("trend selection", B+"auto_monotonic.py auto_monotonic"), ("trend naming", B+"auto_monotonic.py type_of_monotonic_trend")],
  [], ["OptimalBinning.binning_table"])
p("C06", "Bins are unions of pre-bins; user splits respected, pure pre-bins removed",
  "The returned split points are always a subset of the candidate splits, in increasing order without duplicates; user-supplied splits are the only candidates, splits marked as fixed are always kept or the fit is refused with an error, and with the default divergence no returned bin is pure unless only one bin remains. "
  "Categorical user groups are never split and every listed category stays in exactly one bin.",
  ["inputs", "configurations"], "all user split lists (any order), fixed flags, and samples in which some candidate bins contain a single class",
  "Tests use a few hand-made split lists that produce no pure bins.",
  [B+"binning.py", B+"preprocessing.py", B+"cp.py"], [("removal of pure prebins", B+"binning.py _compute_prebins"), ("user split sorting", B+"binning.py _fit"), ("fixed splits", B+"cp.py add_constraint_fixed_splits")],
  [("user_splits_fixed", "fixed flags", B+"binning.py")], ["OptimalBinning.splits"])
p("C07", "Binning table statistics equal their definitions on the table's own counts",
  "In a binary binning table the count percentage, event rate, WoE, information value and Jensen-Shannon columns, the totals row, and the analysis metrics (Gini, IV, JS, Hellinger, triangular, Kolmogorov-Smirnov, HHI, Cramer's V, quality score, pairwise significance tests) are those defined by the row counts, with empty or pure rows contributing zero. "
  "Showing or hiding totals or changing the number of digits never changes a value.",
  ["inputs", "configurations"], "all count vectors, including zero rows, pure rows and several special rows",
  "Tests compare a few numbers on one data set without zero rows.",
  [B+"binning_statistics.py", B+"metrics.py"], [("table build", B+"binning_statistics.py BinningTable.build"), ("analysis", B+"binning_statistics.py BinningTable.analysis"), ("divergences", B+"metrics.py")],
  [], ["BinningTable.build", "BinningTable.analysis"])
p("C08", "Continuous-target binning accounts for every record and transforms consistently",
  "After fitting a continuous-target binning every record is counted in exactly one row, and each row's count, sum, mean, standard deviation, minimum, maximum and number of zeros are those of exactly the records routed to it; totals are the sums. "
  "Transforming any value returns the mean, label or index of the row the value belongs to, with special and missing values handled as requested.",
  ["inputs", "configurations"], "all numerical and categorical samples with missing, special codes, ties and weights",
  "The continuous binning test modules are not run at all in this environment.",
  [B+"continuous_binning.py", B+"transformations.py", B+"binning_statistics.py"], [("prebin counting", B+"continuous_binning.py _compute_prebins"), ("table", B+"binning_statistics.py ContinuousBinningTable.build"), ("transform", B+"transformations.py transform_continuous_target")],
  [], ["ContinuousOptimalBinning.binning_table", "ContinuousOptimalBinning.transform"])
p("C09", "Continuous-target binning is optimal and satisfies its constraints",
  "When a continuous-target binning reports an optimal status, the bins satisfy all requested size, number, mean-difference, p-value and trend constraints, and no merging of pre-bins satisfying them has a better objective; when infeasible, none exists and a single bin results.",
  ["inputs", "configurations"], "all pre-bin count/sum profiles and constraint combinations",
  "The continuous binning test modules are not run at all in this environment.",
  [B+"continuous_cp.py", B+"continuous_binning.py", B+"model_data.py"], [("CP model", B+"continuous_cp.py"), ("objective", B+"model_data.py continuous_model_data")], [], ["ContinuousOptimalBinning.splits"])
p("C10", "Multiclass binning counts every record, honours per-class trends, is optimal",
  "For a multiclass target every record is counted once, in its row and class; every requested per-class trend and bin constraint holds on the returned bins, and with an optimal status no admissible merging of the pre-bins has a larger total divergence. "
  "Transforming a value returns the mean or weighted mean of the one-versus-rest WoE, the label or the index of its own row.",
  ["inputs", "configurations"], "all class-count profiles for three or more classes and all trend lists and constraints, both solvers",
  "Tests use a single data set with default options.",
  [B+"multiclass_binning.py", B+"multiclass_cp.py", B+"multiclass_mip.py", B+"transformations.py"], [("model", B+"multiclass_cp.py, multiclass_mip.py"), ("counts", B+"multiclass_binning.py _compute_prebins"), ("transform", B+"transformations.py transform_multiclass_target")],
  [], ["MulticlassOptimalBinning.binning_table", "MulticlassOptimalBinning.transform"])
p("C11", "Two-dimensional binning tiles the plane and accounts for every record",
  "For a two-variable binning (binary or continuous target) that reports an optimal solution, the rectangles cover every clean point exactly once, each row's counts or sums are those of the records inside that rectangle, in the special or in the missing row, and transforming a pair returns the value of the row containing it. "
  "Requested bin limits and row and column trends hold on the returned rectangles, and with the grid strategy no other admissible tiling of the candidate grid has a larger total divergence (deviation of means for a continuous target).",
  ["inputs", "configurations"], "all pairs of numerical variables with missing and special values, both strategies and both solvers",
  "Binary tests use one data set and the continuous module is not run.",
  [B+"multidimensional/binning_2d.py", B+"multidimensional/continuous_binning_2d.py", B+"multidimensional/cp_2d.py", B+"multidimensional/mip_2d.py", B+"multidimensional/model_data_2d.py", B+"multidimensional/transformations_2d.py", B+"multidimensional/preprocessing_2d.py"],
  [("rectangles", B+"multidimensional/model_data_2d.py"), ("selection model", B+"multidimensional/cp_2d.py, mip_2d.py"), ("transform", B+"multidimensional/transformations_2d.py")], [], ["OptimalBinning2D.binning_table", "OptimalBinning2D.transform"])
p("C12", "Scenario-based binning holds in every scenario",
  "For scenario-based binning the same split points are used for all scenarios; each scenario's table counts exactly the records of that scenario, the bin-size, event-count and trend constraints hold in every scenario, and the averaged table counts the records of all scenarios.",
  ["inputs", "configurations"], "all sets of scenarios with different samples, weights, missing and special values",
  "Tests use scenarios derived from one data set with default options.",
  [B+"uncertainty/binning_scenarios.py", B+"model_data.py"], [("pre-binning per scenario", B+"uncertainty/binning_scenarios.py"), ("scenario constraints", B+"cp.py build_model_scenarios")], [], ["SBOptimalBinning.binning_table", "SBOptimalBinning.binning_table_scenario"])
p("C13", "Piecewise binning predictions respect bounds, continuity and trend",
  "Piecewise binning functions stay inside the requested lower and upper bounds, are monotone when a monotone trend is requested and continuous at split points when continuity is requested, and special and missing values get the requested or empirical value. "
  "Its table counts every record exactly once, in the interval, special or missing row it belongs to.",
  ["inputs", "configurations"], "all numerical samples with special and missing values, degrees and trend options",
  "Tests check one data set; the continuous module is not run.",
  [B+"piecewise/binning.py", B+"piecewise/continuous_binning.py", B+"piecewise/base.py", B+"piecewise/transformations.py", B+"piecewise/binning_statistics.py"],
  [("fit", B+"piecewise/base.py _fit_binning"), ("transform", B+"piecewise/transformations.py")], [], ["OptimalPWBinning.transform", "OptimalPWBinning.binning_table"])
p("C14", "Streaming binning does not depend on how the stream was cut or merged",
  "A streaming binning sketch that received a data set through any sequence of chunk additions and merges of compatible sketches counts each record exactly once, in total and in every row of the solved table (interval within the sketch's accuracy, special, missing, each category). "
  "Merging leaves the merged-in sketch unchanged and usable, and a sketch that is exact for the data gives the same bins whatever the order of additions and merges.",
  ["histories", "inputs"], "all interleavings of add, merge and solve over several sketches with empty chunks, specials, missing and categorical data",
  "Tests make one or two additions and one merge.",
  [B+"distributed/binning_sketch.py", B+"distributed/bsketch.py", B+"distributed/gk.py"], [("sketch add/merge", B+"distributed/bsketch.py"), ("solve", B+"distributed/binning_sketch.py solve")],
  [("missing/special counters", "per-sketch counters", B+"distributed/bsketch.py")], ["OptimalBinningSketch.binning_table", "BSketch.n"])
p("C15", "Quantile summaries answer within their declared rank error",
  "After any sequence of additions and merges a quantile summary knows exactly how many values it received, always returns values that were added, and answers every quantile query with a value whose rank differs from the requested rank by no more than its declared error fraction of the number of values, extremes included.",
  ["histories", "inputs"], "all insertion orders, duplicate patterns, merge trees and error parameters",
  "Tests only query a few quantiles of one stream.",
  [B+"distributed/gk.py"], [("insert/compress/merge", B+"distributed/gk.py"), ("query", B+"distributed/gk.py quantile")], [("entries", "summary tuples", B+"distributed/gk.py")], ["GK.quantile", "GK.n"])
p("C16", "A binning process treats each variable exactly as binning it alone",
  "A binning process gives for every variable the same result as fitting that variable alone with its parameters, whatever the other variables, their order, the number of parallel jobs or whether data comes as frame, array or file; transforming selects exactly the supported variables, in order, with each variable's own transform options. "
  "Variables are selected exactly when they meet the selection criteria or are declared fixed, and the summary reports those decisions.",
  ["inputs", "configurations", "histories"], "all sets of variables, dtypes, per-variable parameters, selection criteria and sequences of fit, update and transform",
  "Tests use fixed data with one selection criterion at a time.",
  [B+"binning_process.py"], [("per-variable fit", B+"binning_process.py _fit_variable"), ("selection", B+"binning_process.py _support_selection_criteria"), ("transform", B+"binning_process.py _transform")],
  [("support", "selected variables", B+"binning_process.py")], ["BinningProcess.summary", "BinningProcess.transform", "BinningProcess.get_support"])
p("C17", "A streaming binning process treats each variable as its own stream",
  "A streaming binning process gives for each variable the same result as a stand-alone streaming sketch fed with the same chunks and merges, selects variables by the stated criteria, and transforms exactly the selected variables with their own options.",
  ["histories", "configurations"], "all sequences of add, merge and solve over data frames with several variables",
  "One test with default options.",
  [B+"distributed/binning_process_sketch.py"], [("add/merge/solve", B+"distributed/binning_process_sketch.py")], [], ["BinningProcessSketch.get_binned_variable", "BinningProcessSketch.transform"])
p("C18", "A scorecard's score is the sum of the points of the record's bins",
  "For a fitted scorecard the score of any record equals the intercept plus the sum over variables of the points the scorecard table lists for the bin the record falls in, including special and missing bins and whatever the scaling, intercept and rounding options. "
  "The unscaled points are coefficient times bin value, and scaling preserves the order of the model's predictions in the documented direction, reaching the requested minimum and maximum or points per odds.",
  ["inputs", "configurations"], "all records and all scaling, rounding, intercept and reverse options for binary and continuous targets",
  "Tests check a few scores on one data set.",
  ["optbinning/scorecard/scorecard.py", "optbinning/scorecard/rounding.py"], [("points", "optbinning/scorecard/scorecard.py _compute_scorecard_points"), ("score lookup", "optbinning/scorecard/scorecard.py _transform, score"), ("rounding", "optbinning/scorecard/rounding.py")], [], ["Scorecard.score", "Scorecard.table"])
p("C19", "Monitoring counts every record and reports the PSI of those counts",
  "Scorecard monitoring assigns every actual and expected record to exactly one score bin and one bin per variable, so counts add up to the sample sizes, and every reported population stability index and count percentage is the one defined by those counts. "
  "Test, target and performance figures (rates, means, deviations, test statistics and p-values, model metrics) are those of the given actual and expected samples.",
  ["inputs", "configurations"], "all pairs of actual and expected samples including bins empty in one sample, missing and special values",
  "One data set with all bins populated.",
  ["optbinning/scorecard/monitoring.py"], [("system PSI", "optbinning/scorecard/monitoring.py _fit_system"), ("variable PSI", "optbinning/scorecard/monitoring.py _fit_variables")], [], ["ScorecardMonitoring.psi_table", "ScorecardMonitoring.psi_variable_table"])
p("C20", "Generated counterfactuals are valid and respect all constraints",
  "Every generated counterfactual, scored by the scorecard itself, reaches the requested outcome, changes only actionable features, changes no more features than allowed, and uses values taken from existing bins; requested hard constraints hold. "
  "When no such counterfactual exists the result says so instead of returning an invalid one.",
  ["inputs", "configurations"], "all queries, outcome types, objectives, methods and constraints",
  "The counterfactual test module is not run in this environment.",
  ["optbinning/scorecard/counterfactual/counterfactual.py", "optbinning/scorecard/counterfactual/mip.py", "optbinning/scorecard/counterfactual/multi_mip.py"], [("model", "optbinning/scorecard/counterfactual/mip.py"), ("multi model", "optbinning/scorecard/counterfactual/multi_mip.py")], [], ["Counterfactual.generate", "Counterfactual.display"])
p("C21", "Saving and loading a fitted object does not change what it does",
  "A fitted binning, binning process, scorecard or streaming sketch that is written to disk (or serialised) and read back gives the same tables, splits, transforms and scores as the original.",
  ["inputs", "configurations"], "all fitted objects: dtypes, special codes as list or dictionary, missing values, user splits, and scorecards",
  "One save/load test per class on default data, comparing a table only.",
  [B+"binning.py", B+"continuous_binning.py", B+"multiclass_binning.py", B+"binning_process.py", "optbinning/scorecard/scorecard.py"], [("to_json/read_json", B+"binning.py"), ("save/load", B+"binning_process.py Base, optbinning/scorecard/scorecard.py")], [], ["to_json", "read_json", "save", "load"])
p("C22", "Objects are only usable after fitting, and every fit stands alone",
  "Every query on an object that was not fitted (or not solved, or not analysed) is refused with the library's not-fitted error, and a failed call leaves it refused; a second fit gives the same result as a fresh object fitted on the second data, fitting again, or with the records in another order, gives the same result (or an equally good one when several are optimal). "
  "No call modifies the caller's data, and repeated queries return equal results.",
  ["histories", "inputs"], "all sequences of constructor, fit, failing fit, refit, query and transform calls for every estimator class",
  "Tests call fit once per object.",
  [B+"base.py", B+"binning.py", B+"binning_process.py", "optbinning/scorecard/scorecard.py"], [("fitted flag", B+"base.py"), ("built/analysed flags", B+"binning_statistics.py")], [("is_fitted", "fitted flag", B+"base.py")], ["fit", "transform", "binning_table"])
p("C23", "Pre-binning yields admissible ordered candidate splits",
  "Every pre-binning method yields strictly increasing split points strictly inside the data range, no more pre-bins than the maximum requested, and for the tree method no pre-bin smaller than the requested minimum; equal-width and equal-frequency splits are where their definitions put them, and the entropy (MDLP) method only splits where the description-length criterion accepts. "
  "The final bins therefore never exceed the maximum number of pre-bins.",
  ["inputs", "configurations"], "all samples with ties, few distinct values and all methods, sizes and counts",
  "Tests check one data set.",
  [B+"prebinning.py", B+"mdlp.py"], [("methods", B+"prebinning.py"), ("MDLP recursion", B+"mdlp.py")], [], ["MDLP.splits", "OptimalBinning.splits"])
p("C24", "Outlier removal removes exactly the outliers and nothing else",
  "Outlier detectors flag exactly the values outside the bounds their method defines, and binning with an outlier detector or fixed bounds is the same as binning the sample from which exactly those clean records were removed; missing and special records are always kept.",
  ["inputs", "configurations"], "all samples and detector parameters",
  "The outlier test module is not run in this environment.",
  [B+"outlier.py", B+"preprocessing.py"], [("detectors", B+"outlier.py"), ("removal", B+"preprocessing.py split_data")], [], ["RangeDetector.get_support", "OptimalBinning.binning_table"])
p("C25", "Categorical binning keeps every category in exactly one bin",
  "For categorical variables each observed category is in exactly one bin, categories rarer than the cutoff (and categories absent from user groups) are exactly the ones in the others bin, whose row counts exactly their records; bins are contiguous in the order of event rate or mean. "
  "Transforming a category never seen in training gives the requested value for unknowns, or the documented default.",
  ["inputs", "configurations"], "all categorical samples, cutoffs, user groups and unknown options, binary and continuous targets",
  "Tests use one categorical column.",
  [B+"preprocessing.py", B+"binning_statistics.py", B+"transformations.py"], [("cutoff", B+"preprocessing.py categorical_cutoff"), ("grouping", B+"binning_statistics.py bin_categorical"), ("unknowns", B+"transformations.py")], [], ["OptimalBinning.splits", "OptimalBinning.transform"])
p("C26", "Model performance metrics equal their definitions",
  "The Gini, Kolmogorov-Smirnov and regression metrics and the curves reported for scorecards equal their definitions for every target and score vector, including tied scores, and do not depend on the order of the records.",
  ["inputs"], "all target and score vectors",
  "The metrics are only exercised through one plot test.",
  ["optbinning/metrics/classification.py", "optbinning/metrics/regression.py"], [("metrics", "optbinning/metrics/classification.py, regression.py")], [], ["gini", "ks", "regression metrics"])
p("C27", "Plots draw exactly the rows and values of the tables they stand for",
  "Every figure of the library (binning tables, piecewise and two-dimensional tables, monitoring, sketch progress) shows, for every combination of plot arguments, one bar or cell per shown row at its position with the counts of that row, the metric value of that same row (also for the rows of other categories, special codes and missing values when some of these rows are hidden), its label, and the data range of the actual scale; plotting does not change the table.",
  ["inputs"], "all binnings and combinations of plot arguments",
  "Tests only call plot and check that a file is written or an exception is raised.",
  ["optbinning/binning/binning_statistics.py:plot", "optbinning/binning/piecewise/binning_statistics.py:plot", "optbinning/binning/multidimensional/binning_statistics_2d.py:plot", "optbinning/scorecard/monitoring.py:psi_plot"], [("plots", "BinningTable.plot and the other plot methods")], [], ["plot", "add_special", "add_missing", "show_bin_labels", "style"])
p("C28", "Generated counterfactuals are the closest admissible ones",
  "A counterfactual result with status OPTIMAL minimises the requested objectives over all admissible counterfactuals: with the weighted method no admissible counterfactual (or set of counterfactuals) has a smaller weighted sum of proximity, closeness to the data, outcome difference and diversity; with the hierarchical method the objectives are minimised in the order of their priorities, each within the given relative tolerance of the better-placed ones.",
  ["inputs", "configurations"], "all queries, objectives, weights, methods, constraints and numbers of counterfactuals",
  "The counterfactual test module is not run in this environment and compares no objective values.",
  ["optbinning/scorecard/counterfactual/mip.py", "optbinning/scorecard/counterfactual/multi_mip.py", "optbinning/scorecard/counterfactual/problem_data.py"], [("objectives", "optbinning/scorecard/counterfactual/mip.py compute_objectives"), ("hierarchy", "optbinning/scorecard/counterfactual/mip.py hierarchical_model")], [], ["Counterfactual.generate", "Counterfactual.display"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
