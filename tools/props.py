#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run this after editing it)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DIRECT = (
    "Stateless model checking of the implementation itself: the real code is executed for "
    "every answer to every nondeterministic choice within the stated bounds. "
)


def P(id, title, statement, over, text, why, files, mechanism, technique, note):
    return dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=files, mechanism=mechanism, technique=technique, note=note,
    )


PROPS = [
    P(
        "C01",
        "Every submitted call runs exactly once and is answered on its own handle",
        "Every call handed to the parallel evaluator inside its context is executed "
        "exactly once on a worker, with the arguments it was given and the shared "
        "defaults, and is returned exactly once by waiting, on the handle that submitting "
        "returned, carrying that call's own result or the exception it raised, whatever "
        "picklable value that is (numbers, tuples, arrays, frames, empty or false values, "
        "errors such as running out of memory). Waiting returns completed calls one at a "
        "time, returns as long as a call is outstanding, and refuses when none is.",
        ["schedules", "inputs", "histories"],
        "All interleavings of main process, workers and queue buffers, all "
        "submit/wait sequences, all kinds of results and exceptions.",
        "The tests submit a handful of calls on whatever schedule the machine happens to "
        "produce; a lost, duplicated or swapped result needs a particular interleaving, or "
        "a kind of result they do not use.",
        ["gama/utilities/generic/async_evaluator.py"],
        [("AsyncEvaluator.submit / wait_next, matching futures by id",
          "gama/utilities/generic/async_evaluator.py"),
         ("evaluator_daemon worker loop", "gama/utilities/generic/async_evaluator.py")],
        "stateless model checking (delay-bounded schedules) of the real evaluator",
        "All schedules with at most 2 delays (3 in thorough) over 1-3 workers and up to 4 "
        "calls; processes, queues and psutil are stand-ins whose semantics are listed in "
        "DESIGN.md.",
    ),
    P(
        "C02",
        "No worker outlives its context; a lost worker costs only its own call",
        "When the context of the parallel evaluator ends, whether normally, through an "
        "exception, or by a timeout or user interrupt striking at any moment inside it, all "
        "its worker processes are gone and reaped, idle ones without delay and busy ones however busy they "
        "were, the original "
        "error reaches the caller, and the evaluator can not be entered again. With "
        "resource usage recorded or limited, a worker that dies is replaced, and exceeding "
        "the memory limit costs the worker that uses most memory, never the main process "
        "and never the last worker: all calls not taken down with a worker are still "
        "answered.",
        ["schedules", "crash_points", "fault_sequences"],
        "All interleavings, every point at which the context can be interrupted, every call "
        "during which a worker can die or exceed the memory limit.",
        "The tests leave the context at a few fixed points on the machine's schedule, and "
        "no test kills a worker or exceeds the memory limit.",
        ["gama/utilities/generic/async_evaluator.py"],
        [("AsyncEvaluator.__exit__: stop commands, then terminate and wait",
          "gama/utilities/generic/async_evaluator.py"),
         ("AsyncEvaluator._control_memory_usage / _get_memory_usage",
          "gama/utilities/generic/async_evaluator.py")],
        "stateless model checking (schedules x interruption, death and memory faults)",
        "All schedules with at most 1 further delay (2 in thorough) for every fault point; "
        "a worker is not killed while it holds a queue's internal lock.",
    ),
    P(
        "C03",
        "Evolutionary search keeps exactly what it found, whatever fails or ends it",
        "At every point at which an evolutionary search can end (evaluation budget, timeout, "
        "user interrupt), its output holds only distinct individuals that were successfully "
        "evaluated in this very search, with the fitness measured, never more than the "
        "population size, and loses none of them while they fit; with a single objective "
        "it holds the best ones. Start candidates are evaluated before anything else, no "
        "individual is evaluated twice, the evaluation budget is used exactly, every "
        "completed evaluation is reported exactly once, and failing evaluations, dying "
        "workers, tiny populations and restarts never stall or abort the search. A next "
        "search may start from the output of the previous one.",
        ["histories", "fault_sequences", "schedules"],
        "All outcomes of evaluations, all completion orders, all interruption points, all "
        "restart points, sequences of searches.",
        "The tests run the search with evaluations that succeed, on one completion order, "
        "with no interruption and one search per object.",
        ["gama/search_methods/async_ea.py", "gama/genetic_programming/operator_set.py",
         "gama/genetic_programming/selection.py"],
        [("async_ea main loop", "gama/search_methods/async_ea.py"),
         ("OperatorSet.wait_next", "gama/genetic_programming/operator_set.py"),
         ("create_from_population", "gama/genetic_programming/selection.py")],
        "stateless model checking of the real search over outcomes, orders, interrupts",
        "Up to 5-6 evaluations, 1-3 workers, populations 1-4, every outcome of every "
        "evaluation; evaluations themselves are stubs, genetic draws fixed.",
    ),
    P(
        "C04",
        "Successive halving promotes by the rules and returns its highest rung",
        "Asynchronous successive halving starts every pipeline on the lowest rung, start "
        "candidates first, evaluates each rung on exactly its share of data (minimum times "
        "the reduction factor per rung, capped at the maximum, which only the top rung "
        "uses), promotes a pipeline as soon as completing evaluations of its rung allow one "
        "more promotion (at most one in every reduction-factor of them), always the best "
        "not yet promoted one of the highest rung due, and never evaluates a pipeline twice "
        "on a rung. With a limit on complete evaluations it ends when that many are done. "
        "Whenever and however it is interrupted, its output is exactly the "
        "pipelines evaluated on the highest rung reached, or nothing when none was, only "
        "top rung evaluations are reported as complete, a failure is reported as what it "
        "was, and the caller's list of start "
        "candidates is left as it was.",
        ["histories", "configurations", "schedules", "fault_sequences"],
        "All scores, failures, completion orders and interruption points; all combinations "
        "of rung settings in the bounds.",
        "One system test runs the search on a clock and only looks at the resulting model; "
        "no promotion decision is checked.",
        ["gama/search_methods/asha.py"],
        [("asha / get_job / evaluate_on_rung", "gama/search_methods/asha.py")],
        "stateless model checking of the real search against a promotion-rule monitor",
        "Up to 14 evaluations of which up to 7 have all outcomes, 9 rung settings, every "
        "interruption point; evaluations themselves are stubs.",
    ),
    P(
        "C05",
        "Warm starts are honoured, and random search reports all it evaluated",
        "A fit evaluates the pipelines it is given to start with before any other; without "
        "an explicit start a repeated fit starts from the result of the previous one, and "
        "with an empty start from new random pipelines; the caller's list is never changed "
        "and anything but a list of pipelines is refused before the search. Pipelines to "
        "start with are evaluated on the data of this fit and with the steps that data "
        "needs, wherever they come from. The result of a search only holds pipelines evaluated in that search, each once, and the model "
        "is the best pipeline in it; the result of random search "
        "is everything evaluated without a crash of the evaluation.",
        ["histories", "schedules", "fault_sequences"],
        "All sequences of fits with every kind of start, every interruption point and "
        "every outcome and order of the evaluations within the bounds.",
        "The tests fit a single time with one start; stale results only show in later fits.",
        ["gama/gama.py", "gama/search_methods/random_search.py",
         "gama/search_methods/async_ea.py", "gama/search_methods/asha.py"],
        [("Gama._search_phase", "gama/gama.py"),
         ("random_search", "gama/search_methods/random_search.py")],
        "stateless model checking of fit histories and of random search",
        "Histories of up to three fits, up to five evaluations of random search.",
    ),
    P(
        "C06",
        "No genetic operator leaves the search space or the length limit",
        "Every pipeline that is created at random, by mutation or by crossover consists of "
        "one learner of the search space preceded by preprocessing steps of the search "
        "space, each with exactly its hyperparameters set to values the search space "
        "allows, and has no more steps than the configured maximum length (one step if "
        "there is no preprocessing in the search space). The operators produce such a "
        "pipeline from any parents they are applicable to, for any outcome of the random "
        "draws.",
        ["inputs", "configurations", "histories"],
        "All parents, all random draws, all length limits and shapes of search space in the "
        "bounds, and sequences of operators.",
        "The tests apply each operator to one or two fixed individuals with whatever the "
        "random generator yields.",
        ["gama/genetic_programming/mutation.py", "gama/genetic_programming/crossover.py",
         "gama/genetic_programming/operations.py",
         "gama/genetic_programming/operator_set.py", "gama/gama.py"],
        [("random_valid_mutation_in_place and mut_*",
          "gama/genetic_programming/mutation.py"),
         ("random_crossover", "gama/genetic_programming/crossover.py"),
         ("create_random_expression", "gama/genetic_programming/operations.py"),
         ("wiring of max_pipeline_length", "gama/gama.py")],
        "exhaustive enumeration of all random draws of the real operators",
        "Exhaustive over draws and parents within 7 small search spaces; the shipped search "
        "spaces with at most 2 non-default draws.",
    ),
    P(
        "C07",
        "Offspring are new pipelines with a lineage, and parents stay untouched",
        "Copying, mutation and crossover leave their parents exactly as they were, share no mutable "
        "part with them, and return a fresh individual with its own identity, no fitness, "
        "the identities of its actual parents and the name of the operator that was applied. "
        "The offspring differs from its parents in the way its operator says, and as long "
        "as the retry limit allows, a pipeline that was evaluated before is not proposed "
        "again.",
        ["inputs", "histories"],
        "All parents, all random draws, all sets of previously evaluated pipelines, followed "
        "by any in-place change of the offspring.",
        "The tests look at one or two fixed individuals and never check for sharing between "
        "parents and offspring or the recorded lineage.",
        ["gama/genetic_programming/operator_set.py",
         "gama/genetic_programming/components/individual.py",
         "gama/genetic_programming/components/primitive_node.py",
         "gama/genetic_programming/mutation.py", "gama/genetic_programming/crossover.py"],
        [("OperatorSet.mate / mutate / try_until_new",
          "gama/genetic_programming/operator_set.py"),
         ("Individual.copy_as_new", "gama/genetic_programming/components/individual.py")],
        "exhaustive enumeration of all random draws of the real operators",
        "Exhaustive over draws and parents within small search spaces.",
    ),
    P(
        "C08",
        "The text and the exported code of a pipeline denote exactly that pipeline",
        "Writing a pipeline as text and reading it back gives the same operators and "
        "hyperparameter values, and a text with a missing, unknown or impossible part is "
        "refused. The exported script runs on its own and defines exactly the operators, "
        "hyperparameters, preprocessing steps, ensemble members and weights of the model "
        "it was exported from, for any column names and any number of columns; export is "
        "refused before there is a model, and an existing file is only overwritten, and "
        "then replaced, if that was allowed.",
        ["inputs", "configurations", "histories"],
        "All pipelines of small search spaces, every value of every hyperparameter of the "
        "shipped ones, all mixes of column kinds.",
        "The tests export two fixed pipelines and one small ensemble, and read back a "
        "handful of texts.",
        ["gama/genetic_programming/components/individual.py",
         "gama/genetic_programming/components/primitive_node.py",
         "gama/utilities/export.py", "gama/postprocessing/best_fit.py",
         "gama/postprocessing/ensemble.py", "gama/gama.py"],
        [("Individual.from_string / pipeline_str",
          "gama/genetic_programming/components/individual.py"),
         ("individual_to_python, transformers_to_str", "gama/utilities/export.py"),
         ("to_code", "gama/postprocessing/ensemble.py")],
        "exhaustive enumeration of pipelines, written and read back by the real code",
        "All pipelines of up to 3 steps of 7 small spaces; all hyperparameter values and "
        "operator pairs of the shipped spaces; models of real fits.",
    ),
    P(
        "C09",
        "Selection and elimination respect dominance on all objectives",
        "Parents are picked by binary tournaments in which an individual of a better front "
        "always beats one of a worse front, ties within a front going to the less crowded, "
        "counting every objective; the individual dropped from an overfull population is "
        "never one that is better on all objectives than another that stays. A Pareto front "
        "holds exactly the items that no other item equals or exceeds on every objective "
        "(of equal items only one), whatever the order in which items are added.",
        ["inputs", "histories"],
        "All populations of objective vectors (ties, infinities, one to three objectives) "
        "and all random draws within the bounds, all insertion orders.",
        "The tests use a few hand-made populations with distinct values and two objectives.",
        ["gama/genetic_programming/nsga2.py", "gama/genetic_programming/selection.py",
         "gama/utilities/generic/paretofront.py"],
        [("nsga2_select / nsga2", "gama/genetic_programming/nsga2.py"),
         ("create_from_population / eliminate_from_pareto",
          "gama/genetic_programming/selection.py"),
         ("ParetoFront", "gama/utilities/generic/paretofront.py")],
        "exhaustive enumeration of populations and draws against a reference model",
        "Exhaustive for populations of up to 4 over small value sets, one to three "
        "objectives.",
    ),
    P(
        "C10",
        "The best models stay available, and only those take up memory and disk",
        "After any sequence of evaluations, the record holds every evaluation with its "
        "score and error exactly once, ranks them correctly, and for precisely the "
        "configured number of best successful ones (all, if unlimited) of the present fit "
        "the fitted models and the predictions can be had back unchanged, the predictions "
        "restricted to one and the same sample of rows for all of them. Every other "
        "evaluation has its models and predictions discarded, in memory and on disk, and "
        "the latest evaluation of a pipeline can always be looked up.",
        ["histories", "configurations"],
        "All sequences of evaluations (ties, failures, repeated individuals, several "
        "objectives, new fits) for all limits in the bounds.",
        "The tests save a few evaluations with distinct scores and do not look at the disk.",
        ["gama/utilities/evaluation_library.py"],
        [("EvaluationLibrary.save_evaluation / n_best",
          "gama/utilities/evaluation_library.py"),
         ("Evaluation.to_disk / remove_from_disk", "gama/utilities/evaluation_library.py"),
         ("determine_sample_indices", "gama/utilities/evaluation_library.py")],
        "exhaustive exploration of operation histories of the real library against a model",
        "All histories of 4 operations (5 in thorough) for 25 settings.",
    ),
    P(
        "C11",
        "An ensemble is the greedy weighted selection of the best models, and usable",
        "The ensemble starts from the best model (the ten best for more than ten members) "
        "and grows to exactly the configured size, each time by a model that improves the "
        "score of the weighted average most, judged on labels and predictions of the same "
        "rows, as many as configured, and only using as many of the best models as "
        "allowed. It predicts the average of its models by these weights, also when no "
        "time was left, after its cache is removed, and after being pickled.",
        ["inputs", "configurations", "histories"],
        "All small libraries of predictions, all metrics supported, sizes, limits on models "
        "and rows, row samples.",
        "The tests only check that a fit ensemble predicts; a wrong weight or a wrong row "
        "still gives a plausible prediction.",
        ["gama/postprocessing/ensemble.py"],
        [("build_fit_ensemble, expand_ensemble", "gama/postprocessing/ensemble.py"),
         ("Ensemble.fit and _get_weighted_mean_predictions",
          "gama/postprocessing/ensemble.py")],
        "exhaustive enumeration of model libraries against a set-valued greedy oracle",
        "Up to 3 models (12 for the large start) over 6 prediction vectors and 5 metrics; "
        "the weights are read off real predictions of stub models.",
    ),
    P(
        "C12",
        "A pipeline is scored on data it was not trained on, or reported as failed",
        "Evaluating a pipeline cross validates it: each row is predicted by the model of "
        "the one fold that did not train on it, the prediction (of the kind the "
        "first metric needs) is stored at that row, each "
        "score is the mean over the folds of that metric in the order the metrics were "
        "given, a subsample only reduces the training rows (to the requested amount, "
        "stratified, at most all), and evaluating again uses the same rows; row labels of "
        "the data never matter and the data is not changed. If anything fails or time runs "
        "out at any point, the evaluation has the worst score on every metric, no "
        "predictions, no models and the actual error, while a user interrupt or an outer "
        "timeout reaches the caller.",
        ["inputs", "configurations", "crash_points", "fault_sequences"],
        "All combinations of task, folds, subsample, metrics and row labels, a fault or "
        "timeout at every call into the pipeline.",
        "The tests evaluate two pipelines on ordinary data and never look at which rows "
        "were used, nor fail halfway.",
        ["gama/genetic_programming/compilers/scikitlearn.py"],
        [("evaluate_pipeline", "gama/genetic_programming/compilers/scikitlearn.py"),
         ("evaluate_individual", "gama/genetic_programming/compilers/scikitlearn.py")],
        "exhaustive fault injection and enumeration of settings on the real evaluation",
        "Recording pipelines on 20-23 rows; a fault of five kinds or a timeout at every "
        "call of transform, fit, predict and predict_proba.",
    ),
    P(
        "C13",
        "Fit and predict speak the language of the user's data, row by row",
        "After fitting on any supported form of data (frame or array, any row labels or "
        "column names, categories and missing values, target as series, array, column or "
        "frame, some targets missing), predictions for the same kind of data come one per "
        "row in row order, in the labels of the user (classification, whatever type they "
        "have) or as numbers (regression), with probabilities whose columns follow the "
        "sorted labels, sum to one and agree with the predicted label, for single models "
        "and ensembles and every metric. Rows are matched by position, never by row label, "
        "rows without target are ignored, and the user's data is left unchanged. What was "
        "learned is the relation in the data: a relation any tree finds is predicted back.",
        ["inputs", "configurations"],
        "All pairs (triples in thorough) of the ways to present the data, the labels, the "
        "columns, the metric and the model.",
        "The tests fit a few data sets in a few forms; it is the combinations (an array "
        "with text labels and an ensemble scored by log loss) that go wrong.",
        ["gama/gama.py", "gama/GamaClassifier.py", "gama/GamaRegressor.py",
         "gama/data_formatting.py", "gama/postprocessing/ensemble.py"],
        [("Gama.fit / predict / _prepare_for_prediction", "gama/gama.py"),
         ("GamaClassifier.predict / predict_proba", "gama/GamaClassifier.py"),
         ("format_x_y", "gama/data_formatting.py")],
        "exhaustive enumeration of input forms through real fits and predictions",
        "Real fits with one or two evaluations run inline, on 24 rows.",
    ),
    P(
        "C14",
        "What is left on disk is exactly what was asked for, after any history",
        "After any sequence of fits (on the same or other data, completed or interrupted) "
        "and cleanups, the output directory holds exactly what the storage setting "
        "names: nothing, the models and predictions of all evaluations made, the logs, or "
        "both, and a cleanup removes exactly what it is told to. Whatever was removed, the "
        "last successful fit can still predict, the next fit works as on a fresh instance, "
        "and files which the instance did not create, or directories that were not empty, "
        "are refused at construction rather than touched. A construction that is refused "
        "for its settings leaves nothing behind.",
        ["histories", "configurations", "crash_points"],
        "All histories of up to 3 operations (4 in thorough), all storage settings.",
        "The tests run a single fit per setting; what a second fit, an interrupt or a "
        "cleanup in between leaves behind is never looked at.",
        ["gama/gama.py", "gama/utilities/cli.py", "gama/utilities/evaluation_library.py"],
        [("Gama.fit / cleanup / __init__ output directory", "gama/gama.py"),
         ("EvaluationLibrary.clear_cache", "gama/utilities/evaluation_library.py")],
        "exhaustive enumeration of operation histories on real instances and directories",
        "Each history starts from a fresh instance in a scratch directory.",
    ),
    P(
        "C15",
        "Callbacks see every evaluation once and can not break or prolong a fit",
        "Every completed evaluation is given exactly once, in order of completion, to every "
        "registered callback, of this fit and of later ones. An error in a callback (even "
        "one that can not be printed) neither ends the search, nor keeps the evaluation "
        "from the other callbacks or from the log, nor changes which pipelines are "
        "evaluated; a user interrupt or timeout striking in it ends the search there, and the "
        "fit still delivers a model. A callback that loses time, or swallows the timeout, "
        "does not let the search go on after the time it was given, but for a few "
        "seconds.",
        ["fault_sequences", "histories", "schedules"],
        "Every misbehaviour (of five kinds) at every call of every callback, one (or two "
        "in thorough) besides the one in the scenario.",
        "The tests have no callback that misbehaves, and a swallowed timeout only matters "
        "when it strikes at that very moment.",
        ["gama/gama.py", "gama/genetic_programming/operator_set.py",
         "gama/genetic_programming/compilers/scikitlearn.py"],
        [("Gama._safe_outside_call / _on_evaluation_completed", "gama/gama.py"),
         ("OperatorSet.wait_next", "gama/genetic_programming/operator_set.py")],
        "exhaustive fault injection in callbacks during real fits on a virtual clock",
        "Real fits of 3 (4) evaluations run inline; timed ones on a clock the check moves.",
    ),
    P(
        "C16",
        "The logs tell what happened, and a report reads exactly that from them",
        "For every evaluation the evaluation log has one row, in order of completion, with "
        "its id, pipeline, parents, origin, scores and duration, whatever text errors or "
        "values contain, and over several fits. The report made of a log directory shows "
        "exactly these evaluations with numeric scores per metric (missing if failed), the "
        "running best of each, the phases, and the search method and its settings, "
        "whatever the metrics, the regularization and the name of the directory. Updating "
        "a report as the log grows, at any rows, gives the same as reading it in one go.",
        ["inputs", "histories", "configurations"],
        "All searches, metrics and error texts in the bounds, all pairs of row boundaries "
        "at which a report is made and updated.",
        "The tests read one log that was made earlier, in one go.",
        ["gama/logging/evaluation_logger.py", "gama/logging/GamaReport.py",
         "gama/logging/utility_functions.py", "gama/gama.py"],
        [("EvaluationLogger.log_evaluation", "gama/logging/evaluation_logger.py"),
         ("GamaReport.update", "gama/logging/GamaReport.py")],
        "exhaustive enumeration of logs and of the points at which they are read",
        "Logs of real fits of 4 (6) evaluations run inline, compared to the evaluations "
        "that callbacks saw.",
    ),
    P(
        "C17",
        "Formatting and encoding keep rows, labels and categories straight",
        "Formatting data keeps every row with its own label, in order, whatever the "
        "containers and row labels; drops exactly the rows without label when asked; turns "
        "columns of text, or of few whole numbers, into categories as documented; never "
        "changes the data given; and refuses what is unsupported. The encoding learned on "
        "one data set gives, for any other with the same columns, one row per row with no "
        "missing category or text left, equal rows for equal rows, different rows for "
        "different categories of few values, independent of the other rows, and copes with "
        "unseen and missing categories. The fixed steps put before a pipeline leave no "
        "missing values.",
        ["inputs"],
        "All sets of rows without label, all pairs (triples) of kinds of columns, "
        "containers and row labels, new data with known, unseen and missing categories.",
        "The tests format a few frames; misaligned rows need row labels they do not use.",
        ["gama/data_formatting.py", "gama/utilities/preprocessing.py"],
        [("format_x_y / format_y / infer_categoricals_inplace", "gama/data_formatting.py"),
         ("basic_encoding / basic_pipeline_extension",
          "gama/utilities/preprocessing.py")],
        "exhaustive enumeration of small data sets through the real functions",
        "5 rows; the oracle is computed per row and per column in plain Python.",
    ),
    P(
        "C18",
        "The search space is exactly what the configuration says, and stays so",
        "A configuration gives one building block per operator with exactly the "
        "hyperparameters and values it lists, shared hyperparameters resolved, values as "
        "given, and learners and preprocessing told apart; for a metric that needs probabilities, learners "
        "without them are left out. Merging two configurations gives the union of their "
        "operators, hyperparameters and values, the same whatever the order, itself when "
        "merged with itself. Neither parsing, merging, nor any number of fits or other "
        "instances changes a configuration or the space of an instance: operators left out "
        "of a fit because its data is too wide or too large are left out of that fit only, "
        "and never leave nothing to choose from. Malformed configurations are refused.",
        ["inputs", "histories"],
        "All configurations with up to 2 learners, 2 preprocessors and 2 shared "
        "hyperparameters in 5 forms, all pairs of 73 of them, the shipped ones; histories "
        "of 2-3 fits on narrow and wide, small and large data.",
        "The tests parse the shipped configurations only and merge two small ones.",
        ["gama/configuration/parser.py", "gama/gama.py"],
        [("pset_from_config / merge_configurations", "gama/configuration/parser.py")],
        "exhaustive enumeration of configurations through the real parser",
        "Oracle: the space computed from the configuration in plain Python.",
    ),
    P(
        "C19",
        "Scores are those scikit-learn defines for the same labels and predictions",
        "For every supported metric, any labels and any predictions or probabilities, the "
        "scores computed during search, from stored predictions, and by scoring a fitted "
        "model on any rows equal what scikit-learn gives for that metric with its own "
        "averaging, with losses negated so that more is better in comparisons. That holds "
        "for any type of label, also if the scored rows lack some classes. Metrics given "
        "by name, object or sequence mean the same, in the order given, and anything else "
        "is refused at construction.",
        ["inputs", "configurations"],
        "All labels and predictions over 3 classes and 3 (4) rows, all subsets of 6 (8) "
        "rows scored with fitted models.",
        "The tests compare a few scores on well behaved data; averaging and absent classes "
        "matter only on particular labels.",
        ["gama/utilities/metrics.py", "gama/gama.py", "gama/GamaClassifier.py"],
        [("Metric / scoring_to_metric", "gama/utilities/metrics.py"),
         ("Gama.score", "gama/gama.py")],
        "exhaustive enumeration of labels and predictions through the real metrics",
        "Oracle: the documented scikit-learn function called directly.",
    ),
    P(
        "C20",
        "Fits, searches and evaluations keep to their time limits",
        "Whatever the evaluations take, search ends when its share of the total time is "
        "over (the rest is left to preprocessing and post-processing, as the post-"
        "processing was told), and uses that share if it has work left; each evaluation is "
        "cut off after the limit per evaluation (a tenth of the total, at least a second, "
        "if not given) or at the end of the search, and is then reported as failed for "
        "that reason, not before. A second fit gets the full time again. Time keeping "
        "reports for each activity the time it took, also after errors, allows one "
        "activity at a time, and what is left of the total.",
        ["schedules", "histories", "configurations"],
        "All mixes of durations, all limits and time fractions in the bounds, a delay at "
        "every reading of the clock, all histories of 4 (6) operations of the time keeper.",
        "Tests with real time can only use short times and wide margins, and a deadline "
        "missed by a late evaluation needs the particular moment.",
        ["gama/gama.py", "gama/utilities/generic/timekeeper.py",
         "gama/utilities/generic/stopwatch.py",
         "gama/genetic_programming/compilers/scikitlearn.py",
         "gama/search_methods/asha.py"],
        [("Gama.fit / _search_phase time budget", "gama/gama.py"),
         ("evaluate_individual deadline",
          "gama/genetic_programming/compilers/scikitlearn.py"),
         ("TimeKeeper", "gama/utilities/generic/timekeeper.py")],
        "exhaustive enumeration of durations and delays of real fits on a virtual clock",
        "Time passes only inside evaluations, between fits and where the check chooses.",
    ),
    P(
        "C21",
        "The same seed gives the same search, scores and model",
        "With one worker, an instance constructed with a given seed and then fitted "
        "evaluates the same pipelines in the same order, with the same scores, and ends "
        "with the same model and predictions as any other run with that seed and those "
        "settings and data. This holds whatever the process did before (other draws, "
        "other instances or fits, an interrupted fit), for every search and kind of "
        "model, for repeated fits, and whatever the storage setting, the identifiers "
        "given to evaluations, or the process and its hash seed.",
        ["configurations", "histories"],
        "All histories before construction, searches, spaces, seeds, identifiers.",
        "The tests never run the same search twice; a draw from an unseeded source, or an "
        "order that follows a set, an identifier or a file name, shows only across runs.",
        ["gama/gama.py", "gama/search_methods/asha.py", "gama/configuration/parser.py",
         "gama/genetic_programming/mutation.py",
         "gama/postprocessing/ensemble.py"],
        [("Gama.__init__ seeding", "gama/gama.py"),
         ("asha promotion order", "gama/search_methods/asha.py"),
         ("merge_configurations", "gama/configuration/parser.py")],
        "exhaustive enumeration of histories before a seeded run of the real search",
        "Compared over identifiers, storage, processes and hash seeds; each run repeated.",
    ),
    P(
        "C22",
        "Instances used side by side do not influence each other",
        "Several instances in one process, with different tasks, data, settings and "
        "storage, and their operations (construct, fit, fit again, clean up, predict, "
        "export) in any order, each behave as if it were alone: the same evaluations, "
        "model, labels, predictions and exported code, the workers and memory limit of its "
        "own settings, and its own files and logs and nothing in those of another. "
        "A long history of fits needs no more files, threads or stack than a short one.",
        ["histories", "configurations"],
        "All interleavings of the operations of two instances (three in thorough), for "
        "all pairs of four kinds of instance.",
        "The tests hold one instance at a time; worker counts, memory limits, log handlers "
        "and storage are set in places the whole process shares.",
        ["gama/gama.py", "gama/utilities/generic/async_evaluator.py",
         "gama/logging/utility_functions.py", "gama/genetic_programming/operator_set.py"],
        [("AsyncEvaluator class attributes", "gama/utilities/generic/async_evaluator.py"),
         ("register_file_log", "gama/logging/utility_functions.py"),
         ("Gama.fit", "gama/gama.py")],
        "exhaustive enumeration of operation interleavings of real instances",
        "The oracle is each instance running its own operations alone.",
    ),
    P(
        "C23",
        "The command line does what its arguments say",
        "Any valid combination of arguments runs the search its arguments describe: the "
        "task implied by the target or asked for, the metric, length, times, workers and "
        "data given, with everything not given as the library's default; it writes the "
        "model and the script exactly where asked, and these predict as the fitted "
        "instance does. Invalid arguments (a missing file or target, an existing output, "
        "an unknown format, task or number) are refused before anything is run or "
        "written, and a dry run writes nothing and searches nothing.",
        ["configurations", "inputs"],
        "All single deviations and pairs from a plain invocation, and invalid ones.",
        "The command line has few tests, none of which combine arguments or look at what "
        "is left on disk.",
        ["gama/utilities/cli.py", "gama/data_loading.py", "gama/gama.py"],
        [("main / make_parser / parse_args", "gama/utilities/cli.py")],
        "exhaustive enumeration of invocations of the real command line interface",
        "The search itself runs inline on a tiny search space.",
    ),
    P(
        "C24",
        "Files are loaded as what they say and used as the data in them",
        "A file with any supported names, kinds of columns, separator, quoting, header and "
        "missing values is loaded with its rows and values in order, its columns named and "
        "typed as its header (or its metadata) says, and any column chosen as target apart "
        "from the others. Fitting, predicting and scoring from a file equal doing so on "
        "the same data in memory, and the prediction for a row does not depend on which "
        "other rows, or which categories, its file happens to hold.",
        ["inputs"],
        "All pairs (triples) of kinds of columns, names, dialects and targets; all subsets "
        "of rows of a file to predict on.",
        "The tests load a few well-formed files; quoting, absent headers, odd names and "
        "files with fewer categories than the training file are combinations.",
        ["gama/data_loading.py", "gama/gama.py", "gama/GamaClassifier.py"],
        [("file_to_pandas / arff_to_pandas / csv_to_pandas", "gama/data_loading.py"),
         ("load_feature_metadata_from_file", "gama/data_loading.py"),
         ("Gama.fit_from_file / predict_from_file / score_from_file", "gama/gama.py")],
        "exhaustive enumeration of small files through the real loaders, fits and predictions",
        "The oracle is the table from which the file was written.",
    ),
    P(
        "C25",
        "What the user sets is what is used, in every fit",
        "Every setting given by the user for the search, the ensemble, the workers and "
        "the pipelines is the one in effect in the first and every later fit, whatever the "
        "data of the fits before, also if another instance used the same search or "
        "post-processing object before, and what is not given is as documented: the population "
        "and number of evaluations and restarts of the evolutionary search, the resources "
        "of each stage of successive halving, the size, models and time of an ensemble, "
        "the length of pipelines, the number of workers, and the methods of a preset. "
        "Settings that can not be met are refused or met as far as the data allows, never "
        "ignored.",
        ["configurations", "histories"],
        "All combinations of set and unset settings, and sequences of fits on data of "
        "several sizes.",
        "The tests check defaults and a handful of values on one fit; that a value "
        "survives a fit on smaller data, or zero is not taken for unset, is not covered.",
        ["gama/search_methods/asha.py", "gama/search_methods/async_ea.py",
         "gama/search_methods/base_search.py", "gama/postprocessing/ensemble.py",
         "gama/gama.py", "gama/genetic_programming/operator_set.py"],
        [("BaseSearch.hyperparameters / dynamic_defaults", "gama/search_methods/base_search.py"),
         ("AsynchronousSuccessiveHalving.dynamic_defaults", "gama/search_methods/asha.py"),
         ("EnsemblePostProcessing.__init__", "gama/postprocessing/ensemble.py"),
         ("Gama.__init__", "gama/gama.py")],
        "exhaustive enumeration of settings and sequences of real fits",
        "Observed through the evaluations made, the model, and the public hyperparameters.",
    ),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            fh.write(
                json.dumps(
                    dict(
                        id=p["id"],
                        title=p["title"],
                        statement=p["statement"],
                        quantifier=dict(over=p["over"], text=p["text"]),
                        why_tests_cant=p["why"],
                        anchors=dict(
                            files=p["files"],
                            mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                        ),
                    )
                )
                + "\n"
            )
    manifest = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -c 'import sys; sys.path[:0]=[\"/repo\",\".\"]; "
        "import gama, mc.core'",
        checks=[
            dict(
                property=p["id"],
                quick_cmd=f"./run.py {p['id']} --tier quick",
                thorough_cmd=f"./run.py {p['id']} --tier thorough",
                technique=p["technique"],
                level="model_checking",
                level_note=DIRECT + p["note"],
            )
            for p in PROPS
            if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))
        ],
        not_applicable=NOT_APPLICABLE,
        notes="Every check drives the code in /repo directly; there are no hooks in /repo.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
