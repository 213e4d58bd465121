"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
I = "instancespace/"
SB, SR, ST = I+"stage_builder.py", I+"stage_runner.py", I+"stages/stage.py"
IS, MOD, DM, SER = I+"instance_space.py", I+"model.py", I+"data/model.py", I+"_serialisers.py"
MD, OP = I+"data/metadata.py", I+"data/options.py"
PP, PR, SI, PI, PY, CL, TR = (I+"stages/%s.py" % s for s in
  ("preprocessing", "prelim", "sifted", "pilot", "pythia", "cloister", "trace"))
FI = I+"utils/filter.py"

p("C01", "A built schedule runs every added stage once, after what it needs",
  "A successful build yields a schedule in which every added stage occurs exactly once and nothing else does. Every data input of a stage is an initial input or an output of a stage of a strictly earlier step. Stages whose needs cannot all be met make the build raise an error, so that no stage is ever dropped silently, and stages without conflicts whose needs can be met always build.",
  ["programs", "inputs"], "all sets of stages with arbitrary declared inputs and outputs, and all initial inputs",
  "Tests build three hand-written stage sets; the statement ranges over every graph of stages.",
  [SB, SR], [("greedy step-by-step resolution", SB+":StageBuilder._resolve_stages"), ("readiness test of one stage", SB+":StageBuilder._stage_resolves"), ("runnability check of the finished order", SR+":StageRunner._check_stage_order_is_runnable")],
  ["StageBuilder.build", "StageRunner._stage_order"])
p("C02", "RunBefore and RunAfter order the schedule and are not data",
  "If a stage declares RunBefore[T] it is placed in a strictly earlier step than T, and if it declares RunAfter[T] in a strictly later step than T, in every schedule the build returns; when no schedule can satisfy the markers, building raises an error. A marker never has to be supplied as an input of the run and its value has no effect on the stage. A marker among the outputs of a stage is rejected when the stage is added.",
  ["programs", "inputs"], "all stage sets with any mix of ordering markers, including cyclic and unsatisfiable ones",
  "The tests contain no stage with an ordering marker; both the presence of markers and their combination with data dependencies are unbounded.",
  [SB, SR, ST], [("restriction pairs", SB+":StageBuilder._get_ordering_restrictions"), ("pending predecessors block a stage", SB+":StageBuilder._stage_resolves"), ("markers are stripped from required inputs", SB+":StageBuilder._strip_run_restriction_arguments"), ("marker recognition", ST+":is_run_restriction")])
p("C03", "Stages whose order would matter never share a step; ambiguity is an error",
  "Two stages in the same step never have an output in common, and no stage reads an argument which another stage of the same step rewrites (has as both an input and an output). When two stages that would share a step produce the same output, or two stages that become ready together rewrite the same argument, building raises a resolution error instead of choosing an order.",
  ["programs", "inputs"], "all stage sets, including those with several stages that rewrite or produce the same argument",
  "Tests exercise one mutating stage; the conflict rules quantify over all pairs of ready stages in all steps.",
  [SB], [("mutating stages run first, duplicates rejected", SB+":StageBuilder._mutating_stages_check"), ("shared output check", SB+":StageBuilder._resolve_stages")])
p("C04", "Building is repeatable and does not depend on the order of adding stages",
  "Building from the same stages gives the same steps (as sets of stages) or the same failure whatever order the stages were added in and however often build is called. Building changes neither the initial inputs given by the caller nor the set of added stages, and adding a stage twice is an error.",
  ["programs", "histories"], "all stage sets, all insertion orders, all numbers of builds of one builder",
  "Tests build once from one insertion order.",
  [SB], [("deterministic set-valued resolution", SB+":StageBuilder._resolve_stages"), ("copy of the initial inputs", SB+":StageBuilder._resolve_stages"), ("duplicate check", SB+":StageBuilder.add_stage")])
p("C05", "A full run executes each stage once in order, on the latest values",
  "Running everything executes each scheduled stage exactly once, step by step, and each stage receives for every input the value most recently produced for it in this run, or else the initial input. Iterating over the run yields each stage paired with its own output in that same order, and both forms end with every output of every stage, the latest producer winning. A second full run does not depend on anything left over from an earlier run.",
  ["programs", "histories", "inputs"], "all schedules, all stage behaviours, all initial inputs, and any calls made before the run",
  "Tests run one three-stage pipeline once; the statement ranges over all schedules and over all earlier histories of the runner.",
  [SR, IS], [("run loop", SR+":StageRunner.run_all"), ("generator form", SR+":StageRunner.run_iter"), ("argument passing and storing of outputs", SR+":StageRunner.run_stage"), ("facade", IS+":InstanceSpace.build")],
  ["StageRunner.run_all", "StageRunner.run_iter", "InstanceSpace.build"])
p("C06", "A stage cannot run before every earlier step has completed",
  "Asking to run a single stage raises a running error, without executing it or changing any state, unless every stage of every earlier step has been executed since the last restart or rollback. When it is allowed, exactly that stage is executed.",
  ["histories", "programs"], "all schedules and all sequences of single-stage, partial and full runs",
  "Tests check one premature call on a fresh runner.",
  [SR], [("schedule cursor test", SR+":StageRunner.run_stage"), ("cursor advance", SR+":StageRunner._progress_schedule"), ("cursor reset", SR+":StageRunner._rollback_to_schedule_index")],
  state=[("_current_schedule_item", "first step that is not complete", SR), ("_stages_ran", "stages executed since the last restart or rollback", SR)])
p("C07", "Rerunning an earlier stage rolls back everything that came after its step",
  "When a stage of an earlier step is run again, it only sees values which existed when its own step had completed: nothing produced by a later step is visible to it or to the stages that follow. Every stage of every later step must then be executed again before a still later step is allowed. Outputs of the rerun replace the old ones for all later stages.",
  ["histories", "programs"], "all schedules and all sequences of runs and reruns",
  "No test reruns a stage after a later step changed its arguments.",
  [SR], [("snapshot per step", SR+":StageRunner.run_stage"), ("restoring the snapshot", SR+":StageRunner._rollback_to_schedule_index")],
  state=[("_schedule_output_data", "values available at the end of each completed step", SR)])
p("C08", "Stages cannot alter each other's inputs; overrides last for one call",
  "Whatever a stage does to the objects it is given, neither the caller's initial inputs nor the values seen by later stages change: only returned outputs have an effect. Arguments passed explicitly to a single-stage run take priority over stored values for that call and are not remembered afterwards.",
  ["programs", "histories", "inputs"], "all stages (including ones that mutate their inputs in place), all overrides",
  "No test uses a stage that mutates its inputs or an override that would leak.",
  [SR], [("deep copy before each execution", SR+":StageRunner.run_stage"), ("overrides applied to a copy of the available arguments", SR+":StageRunner.run_stage")])
p("C09", "Running until a stage executes it, all earlier steps and nothing later",
  "Running until a given stage executes every stage of every earlier step exactly once and then the given stage, and no stage of a later step. The returned values are the initial inputs overlaid by the outputs of exactly the stages that were executed, and the remaining stages can then be continued from there.",
  ["programs", "inputs", "histories"], "all schedules and all target stages",
  "No test covers running until a stage.",
  [SR, IS], [("prefix loop", SR+":StageRunner.run_until_stage"), ("facade", IS+":InstanceSpace.run_until_stage")])
p("C10", "Options files are applied exactly, with defaults for what is missing",
  "Every option present in an options file (under its own or its documented legacy name, in any letter case) is set to exactly the given value, and every option which is absent keeps its default. Unknown sections or options, options given twice under two names, and content that is not an options object are rejected, and a file that cannot be read or is rejected yields no options rather than an exception or a partial result.",
  ["inputs", "configurations"], "all JSON documents and all subsets of options",
  "Tests load about twenty fixed documents; the interaction of names, letter case, legacy names and missing fields is a product space.",
  [OP], [("per-section loading", OP+":InstanceSpaceOptions._load_dataclass"), ("field validation", OP+":InstanceSpaceOptions._validate_fields"), ("top level", OP+":InstanceSpaceOptions.from_dict"), ("file errors", OP+":from_json_file")])
p("C11", "Metadata columns are partitioned by prefix, complete and in order",
  "Reading a metadata table makes exactly the columns whose name starts with feature_ (in any letter case) the features and exactly those starting with algo_ the algorithms, in table order, with names and data columns aligned. The instance and source columns become labels in row order, numeric instance identifiers become text, and values are taken over unchanged.",
  ["inputs"], "all tables: any number and order of columns, any letter case, one or more rows",
  "Tests read a handful of tables with the columns in the usual order.",
  [MD], [("column classification", MD+":Metadata.from_data_frame")])
p("C12", "Building a space from files gives the parsed inputs or nothing",
  "Loading an instance space from a directory or from two files uses exactly the metadata and the options stored in those files, and gives no instance space (rather than an exception) when either file is missing, unreadable or invalid. Reading never modifies the files.",
  ["inputs", "fault_sequences"], "all pairs of metadata and options files, including missing, empty, binary and malformed ones",
  "Tests cover a few missing or malformed files.",
  [IS, MD, OP], [("composition of the two loaders", IS+":instance_space_from_files"), ("directory form", IS+":instance_space_from_directory"), ("metadata loader", MD+":from_csv_file"), ("options loader", OP+":from_json_file")])
p("C13", "Feature and algorithm selection keeps names and columns aligned",
  "When particular features or algorithms are requested, the result contains exactly the columns with the requested names that exist, in the original order and with each name still paired with its own unchanged data column. Nothing changes when no selection is requested or when none of the requested names exists.",
  ["inputs", "configurations"], "all matrices, all lists of distinct names, all selections (in any order, with unknown names)",
  "The tests select fixed names from one table; alignment has to hold for every subset, order and unknown name.",
  [PP], [("selection by name", PP+":PreprocessingStage.select_features_and_algorithms")])
p("C14", "Missing-value removal keeps rows, columns and labels aligned",
  "Instances are dropped only if all their features or all their performances are missing, and features only if at least 20 per cent of their remaining values are missing; everything else is kept with unchanged values in the original order. Features, performances, instance labels, sources and feature names stay aligned row by row and column by column.",
  ["inputs"], "all matrices with any pattern of missing values, with or without sources",
  "Tests use a few fixed patterns; the alignment ranges over every pattern.",
  [PP], [("row and column masks", PP+":PreprocessingStage.remove_instances_with_many_missing_values"), ("empty-row pass", PP+":PreprocessingStage._run")])
p("C15", "Good performance, the best algorithm and easiness follow the options",
  "An algorithm is good on an instance exactly when the configured criterion (maximise or minimise; absolute threshold or relative margin to the best) says so. The best performance is the row extreme over the algorithms and the best algorithm is one that attains it; the number of good algorithms is the count of good ones; an instance is easy exactly when that count exceeds the configured fraction of the algorithms.",
  ["inputs", "configurations"], "all performance matrices and all four combinations of the options, any thresholds",
  "Tests compare with fixed MATLAB outputs for two option combinations.",
  [PR], [("criteria", PR+":PrelimStage._prelim"), ("best algorithm", PR+":PrelimStage._select_best_algorithms"), ("counting and easiness", PR+":PrelimStage._prelim")])
p("C16", "Bounding clips to the median plus or minus five times the IQR",
  "With bounding on, every value becomes itself if it lies within the column median plus or minus five times the column interquartile range, and the nearer bound otherwise; the reported bounds are those numbers, and missing values do not affect them. With bounding off the values reach normalisation unchanged.",
  ["inputs"], "all feature matrices (finite values and missing values)",
  "Tests compare one matrix with stored output.",
  [PR], [("clipping", PR+":PrelimStage._bound")])
p("C17", "Normalisation standardises every column and reports its parameters",
  "With normalisation on, every column of the processed features and performances is the standardised power transform of the shifted column: the reported minimum, exponent, mean and deviation reproduce the column exactly, and missing entries stay missing. Row and column positions are preserved, and with normalisation off the values are left as they were.",
  ["inputs"], "all non-constant matrices",
  "Tests compare one matrix with stored output.",
  [PR], [("transformation", PR+":PrelimStage._normalise")])
p("C18", "Instance subsets keep all per-instance data aligned",
  "When the experiment is restricted to a subset of instances (a fraction, an index file counted from 1, or a density filter), every per-instance array and the labels and sources contain exactly the selected instances, in one common order, unchanged; indices outside the data are ignored. Without a restriction nothing is dropped.",
  ["inputs", "configurations"], "all data sets, all fractions, all index files, all filter settings",
  "Tests use one index file and one fraction and compare shapes or fixed rows.",
  [PR], [("subset selection", PR+":PrelimStage._filter"), ("application of the subset", PR+":PrelimStage._run")])
p("C19", "The density filter keeps separated instances and covers the rest",
  "No two instances that are kept are both within the minimum feature distance and in the agreement which the filter type asks for (none, close performances, all algorithms good on both, or both of these). Every removed instance has an earlier kept instance for which both hold, so the first instance is always kept. The input data are not changed.",
  ["inputs", "configurations"], "all matrices, distances and the four filter types",
  "Tests compare a single data set with stored output.",
  [FI], [("pairwise elimination", FI+":filter_instance"), ("uniformity and entry", FI+":do_filter")])
p("C20", "Raw data are preserved and the caller's arrays are never modified",
  "The raw features and performances reported after preprocessing and preparation equal the data selected from the input, untouched by bounding, transformation or normalisation. No analysis step modifies the arrays, lists or tables which its caller passed in.",
  ["inputs", "configurations"], "all inputs and options of the data-preparation steps",
  "Tests never compare the inputs before and after a call for all option combinations.",
  [PP, PR], [("raw copies", PR+":PrelimStage._run"), ("no in-place writes to inputs", PR+":PrelimStage._prelim")])
p("C21", "Feature selection keeps features, names and indices aligned",
  "The processed feature matrix after automatic feature selection consists of exactly the selected columns of its input in the order of the reported indices, and the reported names are the names of those columns. All per-instance data are passed on unchanged (or restricted to one common subset), with selection off or three or fewer features everything is kept, and a single feature is an error.",
  ["inputs", "configurations"], "all data sets, thresholds, cluster numbers and outcomes of the search",
  "Tests run two data sets with fixed seeds and check lengths or stored values.",
  [SI], [("assembly of the result", SI+":SiftedStage._sifted"), ("selection by correlation", SI+":SiftedStage.select_features_by_performance"), ("decoding of the best combination", SI+":SiftedStage._find_best_combination")])
p("C22", "Correlation keeps relevant features; the search minimises the worst error",
  "A feature survives the correlation step exactly when, for some algorithm, it is that algorithm's most correlated feature or its significant absolute correlation reaches the threshold. The combination search ranks combinations of one feature per cluster by their worst error over the algorithms, a lower worst error always being preferred.",
  ["inputs", "configurations"], "all correlation matrices, significance levels, thresholds and clusterings",
  "Tests use one correlation matrix.",
  [SI], [("thresholding per algorithm", SI+":SiftedStage.select_features_by_performance"), ("fitness", SI+":SiftedStage.cost_fcn")])
p("C23", "The projection is the reported matrix applied to the features",
  "The two-dimensional coordinates are exactly the features multiplied by the reported projection matrix, for the analytic, the numerical and the pre-calculated solution. The reconstruction matrices for features and for performances are disjoint, complete parts of one solution whose reported error and R2 they reproduce, the numerical solution is the best of all tries, a supplied solution is used as it is, and the summary pairs each feature name with its own column of the projection.",
  ["inputs", "configurations"], "all data sets, feature and algorithm counts, numbers of tries, and supplied solutions",
  "Tests compare three stored data sets within a tolerance.",
  [PI], [("projection", PI+":PilotStage.pilot"), ("decoding a solution", PI+":PilotStage.numerical_solve"), ("error function", PI+":PilotStage.error_function")])
p("C24", "Instance-space bounds come from all corner points, minus impossible ones",
  "The corner points are all combinations of the minimum and maximum of each feature, each once. A corner is removed exactly when some pair of significantly correlated features would take values contradicting the sign of a correlation beyond the threshold, and both boundaries are hull vertices of the projected corners (all of them, or those that remain); if the remaining corners have no hull the full boundary is used.",
  ["inputs", "configurations"], "all feature matrices, projections and thresholds",
  "Tests use one data set of ten features.",
  [CL], [("corner enumeration", CL+":CloisterStage._generate_boundaries"), ("hull", CL+":CloisterStage._compute_convex_hull"), ("correlations", CL+":CloisterStage._compute_correlation")])
p("C25", "The recommended algorithm is the one predicted good with most precision",
  "For every instance the recommended algorithm is the one with the highest precision among the algorithms predicted to be good on it, and no algorithm is recommended when none with a positive precision is predicted good (an only algorithm is recommended wherever it is predicted good). The variant with a default differs only there, where it recommends the algorithm that is good most often.",
  ["inputs"], "all prediction matrices and precisions",
  "Tests check three hand-made cases.",
  [PY], [("selection", PY+":PythiaStage._determine_selections")])
p("C26", "The prediction summary describes each algorithm and the selectors",
  "The summary has one row per algorithm and one each for the oracle and the selector, and every accuracy, precision, recall, mean and deviation in a row is that algorithm's or selector's own value on the actual performances. The selector's precision and recall count only instances with a recommendation, its other statistics use the variant with a default, and no performance data are changed. The inputs of the models are standardised with the reported means and deviations.",
  ["inputs"], "all performance matrices, selections and metrics",
  "Tests check shapes and a few fixed numbers.",
  [PY], [("summary table", PY+":PythiaStage._generate_summary"), ("standardisation", PY+":PythiaStage._compute_znorm")])
p("C27", "Footprint measures count the instances inside and reach the summary",
  "The area, number of elements, number of good elements, density and purity of a footprint are those of its polygon and of the instances inside it, and an empty footprint has zero measures. The footprint summary has one row per algorithm in order, holding that algorithm's own good and best footprints and their shares of the whole space.",
  ["inputs", "configurations"], "all point sets, good masks and polygons",
  "Tests use a few fixed clusters.",
  [TR], [("measures", TR+":TraceStage.throw"), ("summary", TR+":TraceStage.summary"), ("assembly", TR+":TraceStage.trace")])
p("C28", "Footprints do not depend on how the work is scheduled",
  "The good and best footprints computed for every algorithm are the same whether algorithms are analysed sequentially or in parallel, with any number of workers and any completion order: each algorithm's result is stored at its own position and depends only on that algorithm's data.",
  ["schedules", "inputs"], "all completion orders of the workers and all data sets",
  "Tests compare one parallel run; completion order is up to the scheduler.",
  [TR], [("indexed collection of results", TR+":TraceStage.compute_algorithm_qualities"), ("per-algorithm computation", TR+":TraceStage.process_algorithm")])
p("C29", "Contradictory best footprints are resolved for the purer one only",
  "When two best footprints overlap, the one with the higher purity on the shared region is left unchanged and the other loses the region; with equal purity both are left unchanged. Footprints without overlap are never changed, and every changed footprint has its measures recomputed or becomes empty.",
  ["inputs"], "all pairs of footprints and all instance sets",
  "Tests use one overlapping pair.",
  [TR], [("contradiction resolution", TR+":TraceStage.contra"), ("refinement", TR+":TraceStage.tight")])
p("C30", "Inputs and results are passed on field by field without mix-ups",
  "Every named result of a run appears in the model under its own name with the value the run produced, and every part of the metadata and options reaches the stages under its own name. Algorithm numbers in the model count from one, with zero for no algorithm.",
  ["inputs"], "all result dictionaries, all metadata and options",
  "Tests build models from fixed values and never check all fields with distinct values.",
  [DM, MOD, IS, OP], [("model assembly", MOD+":Model.from_stage_runner_output"), ("part assembly", DM+":*.from_stage_runner_output"), ("inputs", IS+":_InstanceSpaceInputs.from_metadata_and_options"), ("preparation options", OP+":PrelimOptions.from_options")])
p("C31", "Saved tables hold the model's data under the right labels",
  "Every saved table contains the corresponding data of the model, with each row under its own instance or boundary label and each column under its own feature, algorithm or coordinate name, and reading it back gives the saved values. Saving leaves the model unchanged, so that saving twice writes the same files.",
  ["inputs", "histories"], "all models and any sequence of save calls",
  "Tests check that the files of one model equal stored files or merely exist.",
  [SER, MOD], [("tables", SER+":save_instance_space_to_csv"), ("labelled writing", SER+":_write_array_to_csv"), ("boundary labels", SER+":_make_bind_labels")])
p("C32", "Colour tables map data monotonically onto 0 to 255",
  "Every colour index is an integer from 0 to 255, the smallest value (of the column, or of the whole table for shared scales) gets 0 and the largest 255, and larger values never get smaller indices. Constant data get a single valid colour.",
  ["inputs"], "all finite matrices, including constant ones",
  "Tests check one matrix.",
  [SER], [("per-column scale", SER+":_colour_scale"), ("shared scale", SER+":_colour_scale_g")])
p("C33", "The archive holds every saved file once and never itself",
  "The archive of a results directory contains every file saved in it, except ignore files and the archive itself, with identical content. Creating it does not change or delete any file of the directory, and creating it again gives the same content.",
  ["inputs", "histories"], "all flat directories of result files",
  "Tests never open the archive.",
  [MOD], [("archiving", MOD+":Model.save_zip")])
p("C34", "Graphs show the model's data under the right names",
  "Saving the graphs of a model writes one for every feature and, for every algorithm, one for its performance (scaled over all algorithms, and on its own), for whether it is good, whether it is predicted to be good, and its footprint. Each shows the feature's or algorithm's own values at the coordinates of the instances and its title names it; scaled values run from 0 at the smallest to 1 at the greatest value of that feature or algorithm (over all algorithms: of the logarithms of all). The graphs of the best and of the recommended algorithm, and of the portfolio's footprints, show every instance under the name of the algorithm recorded for it, or under None, and every such algorithm with its own footprint.",
  ["inputs"], "all models whose tables have no missing values",
  "Tests check at most that files exist.",
  [SER, MOD], [("which graphs", SER+":save_instance_space_graphs"), ("values", SER+":_draw_scatter"), ("good and bad", SER+":_draw_binary_performance"), ("footprints", SER+":_draw_footprint"), ("portfolio", SER+":_draw_portfolio_footprint")])
p("C35", "The same run gives the same results",
  "Running a stage again on the same data, metadata and options gives exactly the same results: preparation (including a random subset of the instances), feature selection, projection, models and footprints, in the same process or in another one, after runs on other data, with any number of workers, and whatever random numbers other code has drawn in between. Every random choice a stage makes is made from a fixed seed.",
  ["inputs", "histories"], "all stages, data and options; all earlier runs and states of shared generators",
  "Tests run each stage once, and compare with results recorded loosely or not at all.",
  ["instancespace/stages/prelim.py", "instancespace/stages/sifted.py", "instancespace/stages/pilot.py", "instancespace/stages/pythia.py"],
  [("random subset", "instancespace/stages/prelim.py:PrelimStage._filter"), ("clustering and search", "instancespace/stages/sifted.py:SiftedStage._sifted"), ("starting points", "instancespace/stages/pilot.py:PilotStage.pilot"), ("folds and candidates", "instancespace/stages/pythia.py:PythiaStage.pythia"), ("models", "instancespace/stages/pythia.py:PythiaStage._fitmatsvm")])
p("C36", "Footprints are fitted to dense groups, without impure pieces",
  "The footprint of a set of instances of interest (fewer than three distinct points: an empty one) is the union of outlines around the dense groups of their distinct points. With k the twentieth part of the number of instances of interest, rounded up, at least 3 and at most 50, two points are neighbours when their distance is at most the radius for which k points would be expected if the points were spread evenly over their bounding box (radius^2 * pi * points = k * area of the box). Groups are the sets of points linked through neighbours which contain a point with at least k other points within the radius; every point of a group carries the group's number (from 1), all others are noise (-1), whatever the order of the points. Exactly the points of a group are outlined (points on one line have no outline and no polygon). Unless all instances are of interest, the outline is cut into triangles, and exactly those triangles are removed in which the share of instances of interest among the instances inside is below the purity asked for; triangles with no instance inside stay. When a footprint is refined after a contradiction, each of its parts with at least three instances of interest inside is outlined anew from exactly those instances, in the same way, and the results are united; without any such part there is no polygon.",
  ["inputs"], "all sets of instances, instances of interest, purities, polygons of any number of parts",
  "Tests fit a handful of recorded footprints and compare areas, where a different group, radius, or piece moves the result by little.",
  ["instancespace/stages/trace.py"],
  [("groups", "instancespace/stages/trace.py:TraceStage.dbscan"), ("radius", "instancespace/stages/trace.py:TraceStage.epsilon"), ("group size", "instancespace/stages/trace.py:TraceStage.run_dbscan"), ("outlines", "instancespace/stages/trace.py:TraceStage.build"), ("impure pieces", "instancespace/stages/trace.py:TraceStage.fit_poly"), ("refined parts", "instancespace/stages/trace.py:TraceStage.tight")])
out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
