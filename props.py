"""What decides each property: contracts (proved) and the replay on the real code."""
PROPS = {}


def prop(pid, contracts=(), level="proof", bounded=(), assumptions=(), note="", **kw):
    PROPS[pid] = dict(contracts=list(contracts), level=level, bounded=list(bounded),
                      assumptions=list(assumptions), note=note, **kw)


def of(module, *names):
    return [f"{module}:{n}" for n in names]


B = lambda *n: of("builder", *n)
R = lambda *n: of("runner", *n)

prop("C01", B("build", "_resolve_stages", "_stage_resolves", "_mutating_stages_check", "_get_mutating_stages",
              "_get_ordering_restrictions", "_get_restrictions_for_stage", "_named_tuple_to_stage_arguments",
              "_strip_run_restriction_arguments", "is_run_restriction") + R("__init__", "_check_stage_order_is_runnable") +
     of("space", "InstanceSpace~added once|all inputs"),
     assumptions=["termination of _resolve_stages: the proved invariants give that every iteration but the last places a stage not placed "
                  "before; that a finite set is then exhausted is not mechanised"],
     note="Loop invariants on the real _resolve_stages: every added stage once, needs met by earlier steps; build hands exactly that "
          "schedule to a runner whose own check never refuses it.")
prop("C02", B("build", "_resolve_stages", "_get_ordering_restrictions", "_get_restrictions_for_stage", "_stage_resolves",
              "_strip_run_restriction_arguments", "is_run_restriction", "add_stage") + R("run_stage~markers|declared", "run_all"),
     note="Ordering pairs are part of the invariant of _resolve_stages; run_all executes the schedule in its order; markers carry no data.")
prop("C03", B("build", "_resolve_stages", "_mutating_stages_check", "_get_mutating_stages", "_named_tuple_to_stage_arguments"),
     note="No shared outputs and no reader of a rewritten argument in a step; ambiguity raises.")
prop("C04", B("build", "_resolve_stages", "add_stage", "_stage_resolves", "_get_mutating_stages", "_mutating_stages_check"),
     bounded=["independence from insertion order across two builds: replayed on permutations (the contract fixes every step as a function "
              "of the sets alone)"],
     note="Frame conditions (inputs and stage set unchanged) and duplicate rejection are proved.")
prop("C05", R("run_all", "run_iter", "run_stage", "_progress_schedule", "_rollback_to_schedule_index", "__init__") + of("space", "build", "run_iter"),
     assumptions=["the caller of the generator does nothing to the runner between two yields",
                  "the builder's guarantee on needed inputs (C01) is the precondition"],
     note="Ghost history of executions: loop invariants say which stage the c-th execution was and on which values, from any earlier state.")
prop("C06", R("run_stage", "_progress_schedule", "_rollback_to_schedule_index", "__init__") + of("space", "run_stage"),
     note="Gate, execution and cursor advance for every well-formed schedule and every reachable state.")
prop("C07", R("run_stage", "_progress_schedule", "_rollback_to_schedule_index") + of("space", "run_stage"),
     note="Values carry the step which produced them; nothing later is visible after a rollback.")
prop("C08", R("run_stage", "run_all~latest value|initial inputs|available values", "run_until_stage~latest value|initial inputs|available values") +
     of("space", "run_stage"),
     bounded=["that deepcopy shares nothing with its argument is a library contract; objects are mutated in the replay"],
     note="Deep copy, override priority and exact overlay of the outputs on the stored values.")
prop("C09", R("run_until_stage", "run_stage", "_progress_schedule", "_rollback_to_schedule_index") + of("space", "run_until_stage"),
     assumptions=["the stage asked for is in the schedule", "the builder's guarantee on needed inputs (C01) is the precondition"],
     note="The same ghost history as C05, stopped after the stage asked for; the state left satisfies the precondition of run_stage.")
prop("C13", ["preprocessing:select_features_and_algorithms"],
     note="Every obligation of the selection function is discharged for all sizes and values.")
P = lambda *n: of("prelim", *n)
PP = lambda *n: of("preprocessing", *n)
prop("C14", PP("remove_instances_with_many_missing_values", "_run"),
     note="Kept rows and columns are characterised exactly, by counting facts over all tables; the stage wires the parts.")
prop("C15", P("_prelim~best|good|judg|easy|count|returned", "_select_best_algorithms", "_run~preparation|output"),
     bounded=["a random choice between several best algorithms is replayed; the contract allows any that attains the best"],
     note="Criteria, best performance, counts and easiness for every table with missing values (no infinities).")
prop("C16", P("_bound", "_prelim~bound|returned", "_run~preparation|output"),
     note="Clipping at the reported bounds for every table in which every column has a value.")
prop("C17", P("_normalise", "_prelim~normalis|returned|as they were", "_run~preparation|output"),
     bounded=["Box-Cox itself is scipy's: its exponent is an uninterpreted function of the column"],
     note="Every entry is the standardised transform by the reported parameters.")
prop("C18", P("_filter", "_run~subset|output"),
     note="Selected rows are characterised exactly for every restriction; files and random splits are library contracts.")
prop("C20", PP("_run", "select_features_and_algorithms~rows kept|every kept column", "remove_instances_with_many_missing_values~kept|belong") +
     P("_run", "_prelim~caller|as they were", "_normalise~given is kept", "_bound~caller", "_filter~given is kept|belongs") +
     of("pilot", "pilot~is kept", "analytic_solve~is kept|are kept|given", "numerical_solve~is kept", "error_function~given") +
     of("cloister", "_compute_correlation~given", "_generate_boundaries~given", "_compute_convex_hull~given") +
     of("pythia", "pythia~is kept", "_determine_selections~given", "_compute_znorm~given", "_generate_summary~is kept", "_fitmatsvm~is kept", "_check_precalcparams~kept") +
     of("trace", "_trace~kept", "build~kept", "contra~kept", "process_algorithm~kept", "from_polygon~kept", "tight~kept", "fit_poly~kept",
        "run_dbscan~kept", "dbscan~kept", "dist~kept", "epsilon~kept") +
     of("sifted", "_sifted~is kept|passed on", "select_features_by_performance~kept", "_compute_correlation~kept", "cost_fcn~is kept", "_find_best_combination~is kept", "evaluate_cluster~kept"),
     bounded=["serialisers and the fits inside a model: replayed with arguments compared before and after"],
     note="Frame conditions of preparation, selection, projection, boundary, model and footprint stages; raw data follow the subset only.")
S = lambda *n: of("space", *n)
prop("C12", S("instance_space_from_files", "instance_space_from_directory", "InstanceSpace"),
     bounded=["reading the metadata and the options themselves: see C10 and C11; that files are not modified is replayed"],
     note="Which files are read, what the space is made of, and that nothing is made when either cannot be read.")
prop("C19", of("filters", "filter_instance", "do_filter") + P("_filter~the filter gets"),
     note="Loop invariants on the real filter: removed exactly when close to an earlier kept instance in the agreement asked for.")
prop("C30", S("Data", "PrelimOut", "SiftedOut", "PilotOut", "CloisterOut", "PythiaOut", "TraceOut", "FeatSel", "Model", "from_options",
              "from_metadata_and_options", "InstanceSpace", "build", "run_until_stage", "model", "run_stage",
              "run_iter", "metadata", "options"),
     note="Every field of the model and of the inputs, for all values.")
prop("C24", of("cloister", "_decimal_to_binary_matrix", "_compute_correlation", "_generate_boundaries", "_compute_convex_hull", "_run"),
     bounded=["that ConvexHull returns the vertices of the hull, and pearsonr the correlation: scipy's, replayed"],
     note="Loop invariants over all sign patterns: every corner once, removed exactly when some pair contradicts.")
prop("C11", of("metadata", "from_data_frame", "from_csv_file"),
     bounded=["pandas.read_csv itself; tables whose rows pandas cannot read: replayed"],
     note="Columns divided exactly by their names for every table with one instances column; order and alignment by positions.")
prop("C10", of("options", "_validate_fields", "_load_dataclass", "from_dict", "from_json_file", "default_options",
               *["default_" + s for s in ("parallel", "perf", "auto", "bound", "norm", "selvars", "sifted", "pilot", "cloister", "pythia",
                                          "trace", "outputs")]),
     bounded=["json.loads and the file system: the document is any JSON value; replayed on real files"],
     note="Loading and validation for every section, whatever its options and legacy names; the wiring of the sections.")
PY = lambda *n: of("pythia", *n)
FITTED = "_fitmatsvm~own|probability|one per|is that of|the best one"
prop("C25", PY("_determine_selections", "pythia~selection|y_hat|precision", "_run", FITTED),
     bounded=["the models themselves (scikit-learn): their predictions are arbitrary; replayed on fitted models"],
     note="The recommendation for all predictions and precisions; the caller hands on the recorded precisions and predictions.")
prop("C26", PY("_generate_summary", "_compute_znorm", "pythia", "_run", FITTED),
     bounded=["fitting and cross-validation (scikit-learn, scikit-optimize): replayed; which predictions the scores are of is a known finding"],
     note="Every cell of the summary, the standardisation, and every result of every model at its own position, for all tables.")
PI = lambda *n: of("pilot", *n)
prop("C23", PI("pilot", "analytic_solve", "numerical_solve", "error_function", "_run"),
     bounded=["the minimiser, the eigenvectors and the inverse: library contracts (some point and its value; some vectors; the inverse), replayed"],
     note="Coordinates, parts, error and fit for every table and every solution; a loop invariant over all tries.")
TR = lambda *n: of("trace", *n)
prop("C27", TR("from_polygon", "throw", "summary", "build", "_trace~summary|space|hard|every algorithm", "_run"),
     bounded=["polygon operations (shapely), alpha shapes: library contracts, replayed on real polygons"],
     note="Measures of every polygon over every set of instances; every cell of the summary for any number of algorithms.")
prop("C28", TR("compute_algorithm_qualities", "process_algorithm", "build~kept", "tight~kept", "fit_poly~kept", "run_dbscan", "dbscan~kept"),
     bounded=["the thread pool is a contract: every task once, completion in any order; replayed with 1 to 4 workers"],
     note="A loop invariant over an arbitrary completion order; frame conditions of a task.")
prop("C29", TR("contra", "_trace~pairs|best|kept"),
     bounded=["refitting (tight) is an uninterpreted function of the polygon and the instances; replayed on real polygons"],
     note="All rounds by a loop invariant, for every pair of polygons; every pair of algorithms once, in order.")
SR = lambda *n: of("serialisers", *n)
prop("C31", SR("save_instance_space_to_csv", "_write_array_to_csv", "_make_bind_labels") + of("saving", "save_to_csv", "save_for_web", "save_to_mat", "save_instance_space_output_mat"),
     bounded=["what pandas writes and reads back, and the corners of polygons (shapely): library contracts; replayed with every file read back"],
     note="Which files are written, and every cell and label of every one, for every model with any number of algorithms.")
prop("C32", SR("_colour_scale", "_colour_scale_g", "_colour_scale_g of a vector", "save_instance_space_for_web"),
     bounded=["image files: replayed"],
     note="Every colour of every table of finite values, and which table of colours goes to which file.")
prop("C33", of("saving", "save_zip"),
     assumptions=["the directory has no folders of its own"],
     bounded=["zipfile and the listing of a directory: library contracts; replayed on real archives, unpacked and compared, twice"],
     note="A loop invariant over the files of any directory: what is added, under which name, once.")
prop("C34", of("graphs", "save_instance_space_graphs", "_draw_scatter", "_draw_binary_performance", "_draw_good_bad_footprint", "_draw_footprint",
               "_draw_portfolio_selections", "_draw_portfolio_footprint", "_draw_sources") + of("saving", "save_graphs"),
     assumptions=["tables without missing values, at least one instance, feature and algorithm"],
     bounded=["what matplotlib draws of the points and patches given to it is a library contract; the figures are read back when they are saved"],
     note="Which graphs there are, from which column with which name, and the points of every one, for every model.")
SI = lambda *n: of("sifted", *n)
prop("C21", SI("_sifted", "_run", "_find_best_combination", "select_features_by_performance~matrix|selected features|kept", "select_features_by_clustering"),
     bounded=["silhouette scores (evaluate_cluster) only inform; no cluster is empty (scikit-learn with fewer distinct features than clusters is not covered)"],
     note="Every way through the selection, every outcome of the search; features, names, numbers and instances stay aligned.")
prop("C22", SI("select_features_by_performance", "_compute_correlation", "cost_fcn", "_find_best_combination", "select_features_by_clustering"),
     bounded=["the genetic search (pygad) is a contract: some solution; cross-validated errors are functions of the coordinates and labels"],
     note="Relevance of every feature for every correlation table; a loop invariant gives the worst error over all algorithms.")
RD = of("seeds", "pilot", "evaluate_cluster", "select_features_by_clustering", "_find_best_combination", "_sifted", "pythia", "_fitmatsvm", "_filter",
        "_generate_params")
prop("C35", RD,
     assumptions=["a library choosing from a fixed seed chooses the same every time; other library functions are functions of their arguments"],
     bounded=["that the libraries repeat themselves, in one process and in others: replayed"],
     note="Every random choice of every stage is made from a fixed seed or from a generator started from one, on every path.")
prop("C36", of("footprints", "fit_poly", "tight", "epsilon", "run_dbscan", "dbscan") + TR("build", "dist"),
     bounded=["alpha shapes and polygon operations (shapely): library contracts, replayed on real polygons"],
     note="Which pieces of every outline are cut out, which parts are fitted again, which points are outlined.")
for _i in range(1, 37):
    if f"C{_i:02d}" not in PROPS:
        prop(f"C{_i:02d}", level="exploration",
             bounded=["all of it: no contract is discharged for this property yet, only replayed cases"],
             note="Bounded: the contract is evaluated on seeded cases of the real code; no obligation is discharged yet.")
PROPS["C23"]["scale"] = 1.5
PROPS["C35"]["scale"] = 2.0
