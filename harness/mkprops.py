"""Writes /verif/properties.jsonl (the listed properties, one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe, hook_needed=None)))

p("P01", "Model initialisation is valid, faithful and reproducible",
  "A model built from any data/uncertainty pair keeps the data, never holds a zero uncertainty, weights every cell by the inverse squared uncertainty, and after initialisation has profiles H (factors x features) that are strictly positive and contributions W (samples x factors) that are strictly positive for ls-nmf. "
  "Matrices supplied by the caller with the full shape are the starting point exactly as supplied (non-positive H cells become a tiny positive number), a partial H supplies the first factor rows, and every cell it gives as positive stays positive, in its given proportion to the other given rows, in a column-normalised H; drawn values scale with the square root of the column (H) or row (W) mean of the data per factor; k-means starts from the centroids of the clusters, of the data as they are or scaled to unit variance, with each sample in its cluster; the same seed always reproduces the same matrices bit for bit and different seeds do not. "
  "Invalid input (a missing value in data or uncertainty, wrongly shaped W) makes training refuse with -1 and leaves the matrices and results untouched, and an uninitialised model initialises itself before training.",
  ["inputs", "configurations"], "every data/uncertainty pair, factor count, method name, seed, init method and choice of supplied W/H",
  "test_sa constructs one small dataset and checks shapes only; partial H, non-positive cells, seed reproducibility over methods and the refusal path are not asserted.",
  ["esat/model/sa.py"],
  [("constructor clipping and weights", "esat/model/sa.py SA.__init__"), ("initialisation", "esat/model/sa.py SA.initialize"), ("validation gate", "esat/model/sa.py SA.train")],
  ["attributes V, U, We, W, H, seed, method after construction and initialize()", "return value of train()"])

p("P02", "Every training iteration is the weighted NMF update",
  "One ls-nmf iteration multiplies H and then W by the ratio of the weighted data to the weighted reconstruction (uncertainty weights, updated H used for W), so W and H stay non-negative, zeros stay zero, and the uncertainty-weighted loss never increases from one iteration to the next. "
  "One ws-nmf iteration replaces W by the weighted least-squares solution for the current H (so the loss does not increase while H is held) and multiplies H by the square root of the ratio built from the positive and negative parts of the new W, so H stays non-negative for non-negative data while W may be negative. "
  "When H is held, H is bitwise unchanged in every iteration for both methods while W is still updated; with a positive delay d together with holding, H is held for iterations 0..d and updated from iteration d+1 on.",
  ["inputs", "configurations"], "every positive (ws-nmf: any) data matrix, uncertainty matrix, starting W/H, method, hold flag and delay",
  "test_ls_nmf/test_ws_nmf call one update on one dataset and compare shapes/one loss decrease; no test covers hold/delay or the formula itself.",
  ["esat/model/ls_nmf.py", "esat/model/ws_nmf.py", "esat/model/sa.py"],
  [("multiplicative update", "esat/model/ls_nmf.py LSNMF.update"), ("weighted semi-nmf update", "esat/model/ws_nmf.py WSNMF.update"), ("hold/delay logic", "esat/model/sa.py SA.train")],
  ["return of LSNMF.update / WSNMF.update", "W, H, q_list after train(max_iter=k) for consecutive k"])

p("P03", "Training stops exactly by the documented convergence rule",
  "Training performs one loss evaluation per iteration, declares convergence at the first iteration i >= converge_n at which the loss fell by less than converge_delta over the last converge_n recorded losses, and then stops; otherwise it runs exactly max_iter iterations and reports not converged. "
  "The recorded loss list has one entry per iteration performed, the reported number of steps is the number of iterations completed before the final one (all of them when not converged), and a NaN loss stops training at once without reporting convergence.",
  ["inputs", "configurations"], "every dataset and every max_iter / converge_delta / converge_n combination, including converge_n of 1 and max_iter below converge_n",
  "Tests train with one or two parameter sets and only assert that a result exists.",
  ["esat/model/sa.py"],
  [("sliding window of losses", "esat/model/sa.py SA.train")],
  ["q_list, converged, converge_steps after train()"],
  [("prior losses window", "last converge_n losses", "SA.train")])

p("P04", "Reported results of a model describe its own final matrices",
  "After training, the reconstruction equals W times H, the reported loss equals the uncertainty-weighted squared residual of the final W and H and equals the last recorded loss, the robust loss equals the same sum with every scaled residual beyond alpha contributing alpha times its magnitude instead of its square, and the per-factor losses add up to the loss of the model. "
  "The robust loss is never larger than the true loss, equals it when no residual exceeds alpha, and does not decrease when alpha increases; the metadata records the parameters the run was actually given, and the summary shows the model's own figures.",
  ["inputs", "configurations"], "every dataset, final state and alpha",
  "Tests check that Q values are positive on one dataset; the per-cell cut-off rule and the sum over factors are not asserted.",
  ["esat/metrics.py", "esat/model/sa.py"],
  [("loss functions", "esat/metrics.py q_loss, qr_loss, q_factor"), ("final bookkeeping", "esat/model/sa.py SA.train")],
  ["WH, Qtrue, Qrobust, q_list, metadata, q_loss/qr_loss/q_factor return values"])

p("P05", "A batch returns every model once, in order, whatever the schedule",
  "A batch run of n models returns exactly n trained models, the i-th one carrying model number i, the i-th seed of the batch seed's sequence, and (when a stack of starting matrices was given) the i-th starting W/H, with the batch's training options applied. "
  "The result does not depend on how workers are scheduled, how many workers there are, or whether the batch runs sequentially or in parallel: every model is bitwise the one that training it alone would give.",
  ["schedules", "inputs", "configurations"], "every completion order of the workers, worker count, models count, seed, starting matrices, hold/delay options",
  "test_batchsa cannot run without the extension and would only check one run; no test varies the completion order or compares sequential with parallel.",
  ["esat/model/batch_sa.py"],
  [("ordering of results by model number", "esat/model/batch_sa.py BatchSA.train"), ("worker task", "esat/model/batch_sa.py _train_task")],
  ["results list of a BatchSA after train()"])

p("P06", "The best model of a batch is the one with the lowest loss",
  "After a successful batch the selected best model is the model with the smallest robust loss (or smallest true loss when configured so), a model whose loss is not a number is never selected while another is finite, and ties go to the earliest model. "
  "A failure while training is reported as an unsuccessful run with a message instead of an exception, and a successful run returns success with an empty message. A sequential run with a time limit ends, unsuccessful, after the first model that took longer, however long. The log of the run and details() show every model under its number with its seed, losses, convergence and steps, and the best one.",
  ["schedules", "inputs", "fault_sequences"], "every set of model losses including ties and NaN, both selection criteria, every completion order, failures in a worker",
  "Tests only check that a best model index exists.",
  ["esat/model/batch_sa.py"],
  [("running minimum over the results", "esat/model/batch_sa.py BatchSA.train"), ("exception to (False, message)", "esat/model/batch_sa.py BatchSA.train")],
  ["best_model and return value of train()"])

p("P07", "Bootstrap datasets are whole-row block resamples of the data",
  "Every bootstrap dataset has exactly as many rows as the original, and every row, in data and uncertainty alike, is the original row named by the recorded index. "
  "With block resampling the index is a concatenation of runs of consecutive samples of the configured block length (non-overlapping blocks start at multiples of the block length; only a block at the end of the data or the last one drawn may be shorter), every sample of the data can be drawn, and a block length larger than half the data is reduced to half rather than failing; without blocks rows are drawn independently with replacement. "
  "Each of the requested runs is present exactly once under its number and has the same content whether runs execute in parallel, in any completion order, or sequentially, and the same seed reproduces all of them.",
  ["schedules", "inputs", "configurations"], "every sample count, block length (including longer than half the data and not dividing it), overlap flag, seed and completion order of the workers",
  "test_bootstrap cannot run without the extension and would check one configuration; index/row agreement and schedules are not tested.",
  ["esat/error/bootstrap.py"],
  [("block construction and drawing", "esat/error/bootstrap.py Bootstrap._block_resample"), ("keyed collection of unordered results", "esat/error/bootstrap.py Bootstrap._train")],
  ["bs_results[i]['index'] and bs_results[i]['model'].V/U after run()"])

p("P08", "Bootstrap factors are mapped to the best correlated base factor",
  "Every bootstrap factor is mapped to the base factor with the highest squared correlation of contributions (the same-numbered factor on ties), and it counts as mapped only when that value reaches the threshold. "
  "In the mapping table every bootstrap-factor row distributes exactly the number of runs over the base factors and 'unmapped', the per-factor tables use exactly the mapped profiles, and the reported percentiles, means, deviations and quartiles, the loss table and the box plots of a factor are those of exactly the runs next to the base model's own. The summary shows the mapping, the losses and every factor once. "
  "Running, summarising and plotting a bootstrap leaves the base model's data, W and H unchanged.",
  ["inputs", "configurations", "histories"], "every base model, number of runs, threshold and order of result queries",
  "The bootstrap test only checks that tables are not None.",
  ["esat/error/bootstrap.py"],
  [("best match search", "esat/error/bootstrap.py map_contributions/map_factors"), ("result compilation", "esat/error/bootstrap.py _compile_results, _factor_statistics"), ("views", "esat/error/bootstrap.py summary, plot_results")],
  ["mapping of every run, mapping table, factor statistics, base model arrays"])

p("P09", "DISP finds, for each level, the largest displacement that keeps dQ",
  "For every selected factor and feature and each change level dQ, displacement reports a lower and an upper profile value that bracket the base value and at which the recomputed loss, with all other profile values and the contributions held, has risen by the level (within the threshold), unless the search depth is exhausted or no value reaches the level (then the lower limit is zero). "
  "Limits are reported as share of the feature and as concentration consistently, and the swap flag and loss drop are those of the refit started from the displaced profile. Intervals are nested: a larger dQ level never gives a narrower interval, factors and features that were not selected keep their base value as both limits, and the base model is left unchanged.",
  ["inputs", "configurations"], "every base model, selection of features, change levels and search depth",
  "test_displacement needs the extension and only checks that results exist.",
  ["esat/error/displacement.py"],
  [("doubling and bisection search", "esat/error/displacement.py _increase_disp(_p), _decrease_disp(_p)"), ("result compilation", "esat/error/displacement.py _compile_results")],
  ["increase_results, decrease_results, compiled_results after run()"])

p("P10", "DISP results do not depend on how the search is scheduled",
  "The compiled displacement intervals, the swap percentages and swap counts per factor and level, and the reported largest loss drop are the same for parallel and sequential execution and for every completion order of the workers, and every swap is counted for the factor and the level at which it happened.",
  ["schedules", "configurations"], "every completion order of the per-feature workers and both execution modes",
  "No test controls the completion order; a wrong order can attribute one factor's swaps to another.",
  ["esat/error/displacement.py"],
  [("collection of unordered results", "esat/error/displacement.py _parallel_disp"), ("swap accounting", "esat/error/displacement.py _compile_results")],
  ["compiled_results, swap tables, largest Q change"])

p("P11", "BS-DISP aggregates every bootstrap run exactly once",
  "BS-DISP performs one displacement on every bootstrap run, and its compiled table takes for each factor, feature and level the profile statistics over exactly the runs 1..n: no run is skipped, none is counted twice. "
  "The result is the same for parallel and sequential execution and for every completion order, swap percentages are the average over all runs, and the number of runs whose loss dropped counts every run once.",
  ["schedules", "histories", "configurations"], "every number of bootstrap runs (including one), selected features and completion order",
  "No test exercises bs_disp in this environment; aggregation over runs is asserted nowhere.",
  ["esat/error/bs_disp.py"],
  [("per-run displacement", "esat/error/bs_disp.py run/_parallel_disp"), ("aggregation", "esat/error/bs_disp.py __compile_results")],
  ["compiled_results, swap tables, fraction of dQ after run()"])

p("P12", "The set of active constraints and expressions follows the edit history",
  "After any sequence of adding and removing, the active constraints are exactly the accepted ones not yet removed, in the order they were accepted and with the values they were given, and the active expressions are exactly the added ones not yet removed. "
  "A matrix element has at most one active constraint: a second request for it is refused until the first is removed. A request that names an element outside the factor profile or contribution matrix, an unknown constraint type or target, or that lacks a value its type requires is refused; refused requests, and removing what is not there, change nothing.",
  ["histories", "inputs"], "every sequence of add/remove calls with valid and invalid arguments",
  "test_constrained adds one of each kind; no sequences, no invalid requests.",
  ["esat/rotational/constrained.py"],
  [("registry edits", "esat/rotational/constrained.py add_constraint, remove_constraint, add_expression, remove_expression")],
  ["constraints and expressions after each call"])

p("P13", "A constrained run enforces its constraints and reports its own state",
  "In every iteration of a constrained training, before the factorization update, an element set to zero is zero, an element set to its base value has the value of the base model, an element with limits is moved to the violated limit and otherwise left alone, and a pulled element moves only in the requested direction (or towards its target) by at most its dQ limit, taking the target when that is within the limit; expressions move only the elements they name, towards values with which every expression is zero (or as near to it as positive values come), all the way when the summed dQ limit allows it and never beyond that limit, and all other elements are left alone. "
  "An element set to zero ends numerically zero. The loss lists hold one entry per iteration, describing that iteration's matrices; training stops by the documented rule (Q(main) changing by no more than converge_delta over converge_n iterations, or max_iterations); the resulting model holds the last iterate, with the reconstruction and losses of its own W and H, and the tables and plots show those values. The base model is unchanged, and with no constraint and no expression nothing is trained.",
  ["inputs", "histories", "configurations"], "every base model and set of constraints over profile and contribution elements",
  "The existing test only checks that training returns a model.",
  ["esat/rotational/constrained.py"],
  [("constraint and expression moves", "esat/rotational/constrained.py _apply_constraints, _apply_expressions, _pull_*"), ("iteration and bookkeeping", "esat/rotational/constrained.py train"), ("views", "esat/rotational/constrained.py plot_Q, evaluate_constraints, evaluate_expressions")],
  ["matrices given to the update in every iteration", "constrained_model W, H, WH, Qtrue, Q lists after train()"])

p("P14", "Feature categories and processed data follow the edit history",
  "After any sequence of category changes, the data handed to a model contains exactly the features whose latest category is not 'bad', in their loaded order, with data and uncertainty columns aligned and equal to the loaded values, and the uncertainty of a 'weak' feature is exactly three times its loaded value no matter how often or in which order categories were set or the data was read. "
  "Requests for an unknown feature or category are refused and change nothing, and the metrics table always lists each loaded feature once with its current category.",
  ["histories", "inputs"], "every sequence of category assignments and reads over every dataset",
  "test_datahandler loads one dataset and reads it once; no category histories.",
  ["esat/data/datahandler.py"],
  [("category assignment", "esat/data/datahandler.py set_category"), ("processing", "esat/data/datahandler.py _set_dataset, get_data")],
  ["get_data(), feature lists, metrics after every call"])

p("P15", "Loading cleans data without misaligning values and uncertainties",
  "Loading keeps every sample that has some data and some uncertainty; the processed data drops exactly the samples with a missing data or uncertainty value in a modelled feature, and the excluded and location columns, keeps the remaining data and uncertainty aligned row by row and column by column with the loaded values, and replaces zero values so that no exact zero reaches a model. Files may be separated by any character or be Excel sheets; without a named index column the first column is the index. Excluded and location columns may hold text. A missing file ends the program. "
  "The per-feature summary (signal-to-noise ratio: mean over the samples of (value - uncertainty)/uncertainty where the value exceeds its uncertainty; minimum, quartiles, maximum) is that of the loaded data, and reading the data gives the same result every time without changing the loaded data or the frames that were passed in.",
  ["inputs", "configurations"], "every numeric dataset with zeros, missing values, excluded columns and location columns, from files or frames",
  "Tests load one clean dataset.",
  ["esat/data/datahandler.py"],
  [("loading", "esat/data/datahandler.py _read_data, _load_data, load_dataframe"), ("summary", "esat/data/datahandler.py _load_data"), ("processing", "esat/data/datahandler.py _set_dataset")],
  ["get_data(), input_data, uncertainty_data, metrics"])

p("P16", "Splitting by location and merging conserve the samples",
  "Splitting a dataset by its location columns yields one handler per distinct location (latitude and longitude compared to five decimals), whose samples are exactly the samples of that location, in order, with their own uncertainties; together they contain every sample once, and each part models the same columns as the whole. Without location columns there are no parts. "
  "Merging handlers yields the samples of all of them and its own, in that order, each labelled with its source, with data and uncertainty aligned, leaves the other handlers unchanged, and the merged handler can hand its data to a model. A merge of no handlers, with the wrong number of labels or with different columns is refused and changes nothing.",
  ["inputs", "histories"], "every dataset, location assignment and set of handlers",
  "No test splits or merges.",
  ["esat/data/datahandler.py"],
  [("split", "esat/data/datahandler.py split_locations"), ("merge", "esat/data/datahandler.py merge")],
  ["handlers returned by split_locations(), merge()"])

p("P17", "Saved work is restored exactly; unreadable files never raise",
  "Every object that offers save and load (model, batch, bootstrap, displacement, BS-DISP, constrained model, simulator) restored from its own save is equal to the original in all matrices, results and options, and goes on training exactly as the original would; the text files each of them writes contain its matrices, tables and metadata. "
  "Saving to a relative or missing directory writes nothing and returns nothing (False for the simulator), and loading a path that is relative, missing, truncated at any byte, empty, unrelated, or the save of another class returns nothing instead of raising.",
  ["crash_points", "inputs", "configurations"], "every object state, every truncation point of the file, every header option",
  "test_save/test_load cover one complete save of one model.",
  ["esat/model/sa.py", "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py", "esat/rotational/constrained.py", "eval/simulator.py"],
  [("save/load pairs", "save() and load() of each class")],
  ["return values of save/load, files written"])

p("P18", "Factor estimation scores held-out cells and selects the best count",
  "For every sampled model the training error is the mean squared residual over the cells selected for training and the test error the mean over exactly the remaining cells, so the two partition the dataset, the test cells take the requested share of the cells and do not influence the model they score. "
  "The result table has one row per factor count from minimum to maximum with the averages over exactly the models of that count, whatever order the workers finish in; the estimated count is the one with the highest reported estimate, and a count that happened not to be sampled does not prevent an estimate. A sample that fails is reported, and the same seed gives the same table.",
  ["schedules", "inputs", "configurations"], "every dataset, test share, factor range and completion order",
  "The estimator has no test.",
  ["esat/estimator.py"],
  [("mask and errors", "esat/estimator.py _get_mask, _random_sample"), ("collection", "esat/estimator.py _update_pbar, run"), ("selection", "esat/estimator.py _results"), ("figure", "esat/estimator.py plot")],
  ["results table, estimated factor, figure"])

p("P19", "Swap detection and factor matching pick the best correlated factor",
  "Two factor profile sets are reported as swapped exactly when some factor correlates better with a differently numbered factor than with its own, so a set never swaps with itself and scaling a factor never matters. "
  "Matching two solutions (by profiles, contributions, their product or all; by relative error, contribution or mass correlation) assigns factors one-to-one so that no other assignment agrees better, reports the agreement of exactly the assigned pairs, names the best of the compared models, works on the matrices of each model under its factor and feature names, and leaves both solutions as they were. A PMF5 result of which a file is missing yields no comparison.",
  ["inputs", "configurations"], "every pair of solutions with non-constant factors, every method, equal or different factor counts, and batches with missing models",
  "No test calls the comparison on anything but a fixed example.",
  ["esat/utils.py", "eval/factor_comparison.py"],
  [("swap test", "esat/utils.py compare_all_factors"), ("assignment search", "eval/factor_comparison.py FactorCompare.compare"),
   ("assignment of a base model", "eval/factor_comparison.py FactorCompareV2.determine_map"), ("PMF5 files", "eval/factor_comparison.py FactorCompare.load_pmf_output")],
  ["return of compare_all_factors", "factor map and correlations of FactorCompare", "mappings of FactorCompareV2"])

p("P20", "The factor catalogue assigns every factor to exactly one cluster",
  "After any sequence of models, batches and single factors, every factor given to the catalogue (outlier models excepted, when these are excluded) belongs to exactly one cluster: the one it agrees with best on average if that agreement is within the threshold, otherwise a new one. "
  "The table has one row per cluster with its number of members, their mean recorded agreement and their share of the models counted, which is one more than the highest model number; queries name the best agreeing cluster by the metric used and change nothing.",
  ["inputs", "histories"], "every sequence of models and batches added, every method, threshold and outlier setting, and factors comparable by profile only",
  "The catalogue has no test.",
  ["eval/factor_catalog.py"],
  [("model registration", "eval/factor_catalog.py add_model, add_batch"), ("clustering", "eval/factor_catalog.py add_factor, check_factor, Factor.check"), ("table", "eval/factor_catalog.py to_df"), ("queries", "eval/factor_catalog.py check_matrix, compare_factor")],
  ["clusters, table and query results"])

p("P21", "Synthetic data are reproducible, positive and self-consistent",
  "The same seed and settings reproduce profiles, contributions, data and uncertainties bit for bit. Data are the product of contributions and profiles with relative noise of the requested mean and scale, outliers of the requested share and magnitude, and uncertainties in the requested proportion to the data; all are positive and of the requested shape, and the frames and the synthetic model hold exactly what was generated. "
  "Updating a contribution changes only the named factor, to values that follow the requested curve, and recalculates data already generated; profiles given are used and left as they were. Comparing a batch of permuted sources recovers the permutation, and the figures show the matched pairs of the model asked for.",
  ["inputs", "configurations", "histories"], "every seed, size, noise and outlier setting and sequence of profile, contribution and data requests",
  "The simulator has no runnable test.",
  ["eval/simulator.py"],
  [("sources", "eval/simulator.py __init__, generate_profiles"), ("curves", "eval/simulator.py update_contribution"), ("data", "eval/simulator.py _generate_data, _generate_dfs, _create_sa"), ("comparison", "eval/simulator.py compare, plot_comparison, plot_profile_comparison")],
  ["arrays, frames, synthetic model and figures of the simulator"])

p("P22", "Perturbation runs vary only the uncertainty, reproducibly",
  "Each perturbed model is the base data trained from the base model's factors, with the requested algorithm and options, under the base uncertainties times its recorded multipliers; these are one outside the requested share of cells and lognormal of the requested sigma inside, per feature. "
  "Models and multipliers are stored by run number whatever order the workers finish in, the same seed reproduces all of them, and neither data nor base model change. The comparison maps factors one-to-one with the best agreement, and tables, perturbed profiles, contributions and figures follow that mapping.",
  ["schedules", "inputs", "configurations"], "every base model or none, share, sigma (single or per feature), number of runs and completion order, also on one core",
  "The perturbation analysis has no test.",
  ["eval/perturbation.py"],
  [("multipliers", "eval/perturbation.py perturb"), ("runs", "eval/perturbation.py run, _parallel_perturb"), ("comparison", "eval/perturbation.py compare"), ("figures", "eval/perturbation.py plot_*")],
  ["perturbed models, multipliers, tables and figures"])

p("P23", "Imputation fills the gaps and nothing else",
  "Imputing a dataset replaces every value that is missing from the data or the uncertainty (NaN, or the named marker when one is named) with a finite number of the requested rule: the mean, median or most frequent of the column's present values, the mean of the nearest rows, or the iterative imputation of scikit-learn. "
  "Present values, shape, index and column names, and the dataset handed in, stay as they were; a column without any value is refused rather than dropped, and the same seed gives the same frames.",
  ["inputs", "configurations"], "every pattern of missing values, marker and supported imputer",
  "The tests of the imputer cover one frame and one gap pattern.",
  ["esat/data/impute.py"],
  [("imputation", "esat/data/impute.py DataImputer")],
  ["returned data and uncertainty"])

p("P24", "Analysis tables and figures show the model and data asked for",
  "Every table and figure of the model analysis shows the selected model in its present state, or the override matrices given: factor shares, masses and contributions, residuals scaled by the model's uncertainty, estimates against observations, the statistics and metrics of each feature; factors are numbered from 1 and features from 0, an item that does not exist draws nothing, and batch figures are labelled by model. "
  "Figures of the data show the named features, each sample once and in the order of time; aggregated plots average the same samples in every panel; what is returned is what is shown, and neither model nor data are changed.",
  ["inputs", "configurations", "histories"], "every data handler, batch, selected model and item asked for",
  "The tests check that figures are created, not the numbers in them.",
  ["esat/data/analysis.py", "esat/data/datahandler.py", "esat/utils.py"],
  [("model analysis", "esat/data/analysis.py ModelAnalysis, BatchAnalysis"), ("data figures", "esat/data/datahandler.py plot_*"), ("aggregation", "esat/data/analysis.py aggregate_output")],
  ["traces of the plotly figures shown", "returned tables"])

p("P25", "Error and constrained figures show the results of the last run",
  "The figures and tables of the bootstrap, displacement and BS-displacement show what the models trained in the last run hold: the share and mass of a factor in every run, the runs mapped to each factor, quantiles of Q and of the profile, the range of a factor for the dQ asked for (or the default of the method), the share of swaps, and in the summary the ranges of every method given. "
  "Those of a constrained model show base and constrained shares, masses, contributions and Q, and every constraint and expression as added with its value before and after. Factors count from 1, an item that does not exist draws nothing, items are labelled by their names, and drawing changes no result.",
  ["inputs", "configurations", "histories"], "every completed run, factor, feature and dQ asked for",
  "The tests call the plots and look at none of the numbers.",
  ["esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py", "esat/error/error.py", "esat/rotational/constrained.py"],
  [("bootstrap figures", "esat/error/bootstrap.py show_*, plot_*"), ("displacement figures", "esat/error/displacement.py, bs_disp.py summary, plot_*"), ("error summary", "esat/error/error.py plot_summary"), ("constrained figures", "esat/rotational/constrained.py plot_*, evaluate_*")],
  ["traces of the plotly figures shown", "results held by the trained models"])

p("P26", "The command line runs a project as it is configured",
  "Every command of esat_cli works on the project directory given and does what its configuration files and options say, with values read as the types they stand for: a run, a constrained run and the error methods asked for save exactly what the library gives for the same settings, under the configured name, and change no other result; -1, empty and left-out settings have their documented meaning (best model, optimal block, the model's seed, all features, ignored constraints). "
  "Tables and figures show the result last saved under the configured name, of the model, factor or feature asked for (or the default), and change nothing; what was never run shows nothing. A simulated project runs on the data it generated. Setup commands write the documented defaults.",
  ["inputs", "configurations", "histories"], "every history of commands, configurations and options of a project",
  "The command line tests follow one path through a few commands and look at exit codes only.",
  ["esat/cli/esat_cli.py", "esat/configs.py", "esat/model/batch_sa.py", "eval/simulator.py"],
  [("commands", "esat/cli/esat_cli.py all commands"), ("configuration defaults", "esat/configs.py"), ("typed settings", "esat/model/batch_sa.py BatchSA.__init__, eval/simulator.py Simulator.__init__")],
  ["command line exit and files", "figures and log messages of the commands"])

p("P27", "The recommended bootstrap block size fits the dataset",
  "The block size a DataHandler recommends (optimal_block) is a whole number, at least one and at most the longest block ceil(min(3 sqrt(n), n/3)) of n samples: the mean over the features in use of the Politis-White block lengths for the circular bootstrap (largest significant autocorrelation by the rule of Politis, flat-top kernel, corrected variance), rounded down; when the length of some feature cannot be determined it is a fifth of the samples, at least one. "
  "It follows features being excluded and included again, is the same for files and for tables, does not depend on the uncertainties, and can be used by Bootstrap as it is.",
  ["inputs", "configurations", "histories"], "every dataset and history of excluded and included features",
  "No test looks at the recommended size; it depends on the correlation structure of the data.",
  ["esat/data/datahandler.py", "esat/model/recombinator.py"],
  [("recommended size", "esat/data/datahandler.py DataHandler._determine_optimal_block"), ("block lengths", "esat/model/recombinator.py optimal_block_length, lam, mlag")],
  ["stationary bootstrap lengths as such", "rounding at a threshold"])

p("P28", "Figures comparing PMF5 with ESAT show the solutions as they are",
  "Each figure of CompareAnalyzer shows the PMF5, LS-NMF and WS-NMF solution, every factor of each exactly once, with the factors corresponding by the given mappings side by side and under their own names: shares of the feature over the factors, the part of one factor, or the estimate of all of them (daily means), against the measured values; residual histograms and their table (min, mean, max, count with absolute residual at or above the threshold) are those of the feature asked for. "
  "A feature is chosen by name, or by position when the name is left out or unknown; any number of factors and features given as list or index works; no figure changes a table.",
  ["inputs", "configurations", "histories"], "all solutions, mappings and sequences of figures",
  "The comparison is only used by notebooks; no test calls it.",
  ["esat/data/test_tools.py"],
  [("figures", "esat/data/test_tools.py CompareAnalyzer plot_factor_contribution, plot_fingerprints, plot_factors, plot_feature_timeseries, timeseries_plot, feature_histogram")],
  ["colours, heights and layout"])

p("P29", "The optimised (Rust) training performs the specified iterations",
  "With the compiled module available, a training performs the ls-nmf or ws-nmf iterations of the specification on exactly the matrices of the model, whatever their memory order (files, frames, transposed, resampled or restored data): each iteration is the published update for the weights, H is held or released after the delay, zeros stay zero, the ls-nmf loss never rises, ws-nmf contributions are the (smallest) weighted least squares solution. "
  "It stops at the first iteration at which the last converge_n losses fell by less than converge_delta, or after max_iter, and reports losses, steps, convergence, Q(true), Q(robust), WH and progress of the solution it returns, for any model number, to any callable and also from a parallel batch; batches, bootstraps, displacements and BS-DISP built on it hold models whose losses are their own. "
  "It agrees with the Python training, a replaced update step is used instead of it, and a failure returns False and leaves the model unchanged.",
  ["inputs", "configurations", "histories"], "all data, memory orders, methods, model numbers, converge_n/converge_delta/max_iter, hold_h/delay_h and start matrices",
  "Production installations train with the compiled module; no test runs it, and a wrong memory order gives plausible but wrong factors.",
  ["rust/lib.rs", "esat/model/sa.py"],
  [("iterations", "rust/lib.rs ls_nmf_update_cpu, ws_nmf_update_cpu"), ("losses", "rust/lib.rs calculate_q_cpu, calculate_q_robust_cpu, matrix_merge"),
   ("arguments and results", "rust/lib.rs ls_nmf, ws_nmf; esat/model/sa.py SA.train")],
  ["the GPU implementation (needs a CUDA build)", "the appearance of progress bars", "ws-nmf on nearly singular systems in single precision"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
