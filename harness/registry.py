"""The properties, what decides each and where it is anchored."""
PROPS = {}

TRUST = ["TLC and the JSON encoding of recorded executions are trusted",
         "executions are bounded: sizes and numbers are those listed under coverage"]


def P(pid, family, title, statement, over, text, why, files, mech, state=(),
      observe=(), level="model_checking", technique=None, note=None, assumptions=None):
    PROPS[pid] = dict(
        id=pid, family=family, level=level,
        technique=technique or "TLA+ specification, TLC model checking and trace validation",
        note=note or "TLC explores the specification exhaustively for small constants and judges every "
                     "recorded execution of the real code; executions are bounded and sampled.",
        assumptions=list(assumptions or []) + TRUST,
        prop={"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})


OPT = "skopt/optimizer/optimizer.py"
ST_OPT = [("Xi, yi", "everything observed so far, in order", OPT),
          ("_n_initial_points", "how many initial points are still to be observed", OPT),
          ("models", "the surrogates kept", OPT),
          ("_next_x, cache_", "the suggestion and the batch handed out", OPT)]

P("O01", "opt", "The initial design is used up, in order, before the surrogate",
  "Until as many points have been observed as initial points were requested, the ask/tell optimizer "
  "suggests the points of the generated initial design in order (or fresh random points when none was "
  "generated) and no surrogate is trained; from then on, suggestions come from the surrogate. "
  "The number of observations told decides this, whether they come one by one, in batches, through "
  "run(), through a copy or at points of the user's own; asking when no surrogate could be trained is "
  "an error.",
  ["histories", "configurations"],
  "Every sequence of ask, batch ask, tell, batch tell, run, copy, refresh and rejected calls; every "
  "size and generator of the initial design, every kind of surrogate.",
  "Tests walk a few straight ask/tell loops; the boundary has to hold for every interleaving of "
  "batches, copies and untrained tells.",
  [OPT], [("_ask", OPT + ":Optimizer._ask"), ("_tell", OPT + ":Optimizer._tell"),
          ("constructor", OPT + ":Optimizer.__init__")], ST_OPT,
  ["Optimizer.ask", "Optimizer.run", "Optimizer.models"])

P("O02", "opt", "History and results are exactly what was observed, in order",
  "After any sequence of calls, the optimizer's history is the list of all observations accepted so "
  "far, in order and unchanged, and every result shows that history, with the best value being the "
  "smallest one observed and the best point the first that attained it. "
  "A result obtained earlier does not change when more observations follow.",
  ["histories", "inputs"],
  "Every sequence of single and batch observations, with or without training, run() and copies; "
  "ties, negative values, repeated points.",
  "Tests check the length of the history or its best value after one loop; order, ties, batches and "
  "earlier results need every history.",
  [OPT, "skopt/utils.py"], [("_tell", OPT + ":Optimizer._tell"),
                            ("create_result", "skopt/utils.py:create_result"),
                            ("get_result", OPT + ":Optimizer.get_result")], ST_OPT,
  ["Optimizer.Xi", "Optimizer.yi", "OptimizeResult"])

P("O03", "opt", "A rejected call leaves the optimizer as it was",
  "Telling points outside the space or of the wrong length, values of the wrong shape or type, batches "
  "whose points and values do not match, or non-positive times, and asking for an invalid number of "
  "points or an unknown strategy, raises an error. "
  "After such an error the history, the surrogates, the initial design and the pending suggestion or "
  "batch are what they were before.",
  ["histories", "inputs"],
  "Every kind of invalid call at every point of every history.",
  "Tests provoke a few errors on a fresh optimizer and never look at what is left behind.",
  [OPT, "skopt/space/space.py"], [("_check_y_is_valid", OPT + ":Optimizer._check_y_is_valid"),
          ("check_x_in_space", "skopt/space/space.py:check_x_in_space"), ("ask", OPT + ":Optimizer.ask")],
  ST_OPT, ["Optimizer.tell", "Optimizer.ask"])

P("O04", "opt", "Asking has no side effects and repeats its answer until something is told",
  "Once a surrogate is trained, asking again without telling anything returns the same point, and "
  "repeating a batch request (same size and strategy, with no other batch request in between) returns "
  "the same batch; asking never changes history or surrogates. "
  "Telling an observation or refreshing the suggestion makes the next batch request start from the "
  "current history instead of repeating the old batch.",
  ["histories"], "Every interleaving of ask, batch ask, tell and refresh, also on copies.",
  "Tests compare two calls in a row at one moment; staleness and stability depend on what happened "
  "between the calls.",
  [OPT], [("ask", OPT + ":Optimizer.ask"), ("update_next", OPT + ":Optimizer.update_next"),
          ("_tell", OPT + ":Optimizer._tell")], ST_OPT, ["Optimizer.ask", "Optimizer.update_next"])

P("O05", "opt", "Batches follow the constant liar strategy",
  "A batch request returns exactly the number of points asked for; once a surrogate is in use, each "
  "further point is chosen by a surrogate trained on the whole history plus the preceding points of the "
  "batch, with the minimum, mean or maximum of the observed values (and times, apart) as their value, "
  "as the strategy says. "
  "During the initial design the batch consists of the next design points, and the lies never reach the "
  "optimizer's own history or surrogates.",
  ["histories", "inputs", "configurations"],
  "Every history, batch size and strategy, with and without evaluation times, before, across and after "
  "the end of the initial design.",
  "Tests check the length and distinctness of a batch, never which values the hidden copies were "
  "trained on.",
  [OPT], [("ask", OPT + ":Optimizer.ask"), ("copy", OPT + ":Optimizer.copy")], ST_OPT,
  ["Optimizer.ask(n_points, strategy)", "training sets seen by a recording regressor"])

P("O06", "opt", "Surrogates are trained on all observations; kept ones respect the queue size",
  "Each time the optimizer trains a surrogate after an observation, it is a fresh one, trained on "
  "exactly all observations so far, in order; none is trained when the caller asks for that. "
  "The optimizer keeps the trained surrogates in order, at most the requested number with the oldest "
  "dropped, does not change one it keeps, and leaves the caller's estimator unfitted and unchanged.",
  ["histories", "configurations"], "Every history of single and batch observations, every queue size.",
  "Tests count surrogates after one loop; what each was trained on is never looked at.",
  [OPT], [("_tell", OPT + ":Optimizer._tell")], ST_OPT,
  ["Optimizer.models", "training sets seen by a recording regressor"])

P("O07", "opt", "A copy continues where the original stands and is independent of it",
  "A copy of an optimizer has the same history, initial design, configuration and, once a surrogate is "
  "in use, a surrogate trained on that history, so that everything promised of an optimizer holds of "
  "the copy from there on. "
  "Whatever is done to a copy leaves the original and all other copies unchanged, and the other way "
  "round.",
  ["histories", "configurations"], "Every history before the copy and every interleaving of calls on "
  "originals, copies and copies of copies.",
  "Tests copy once and compare one attribute; aliasing shows only when both sides go on.",
  [OPT], [("copy", OPT + ":Optimizer.copy")], ST_OPT, ["Optimizer.copy"])

P("O09", "opt", "Evaluation times are kept apart from objective values",
  "With a per-second acquisition function each observation is a value with a positive time: results "
  "report the values and the logarithms of the times separately, the best value is the smallest value "
  "whatever the times, and the two surrogate outputs are trained on the values and on the logarithms "
  "of the times respectively.",
  ["histories", "inputs"], "Every history of value/time pairs, including times larger and smaller than "
  "the values, told one by one, in batches or through run().",
  "Tests check that the time predictions improve, with one shape of data; mixed-up columns need "
  "adversarial magnitudes.",
  [OPT, "skopt/utils.py"], [("tell", OPT + ":Optimizer.tell"), ("_tell", OPT + ":Optimizer._tell"),
          ("create_result", "skopt/utils.py:create_result")], ST_OPT,
  ["OptimizeResult.func_vals", "OptimizeResult.log_time"])

P("O10", "config", "An optimizer is built from what was named, or not at all",
  "Surrogates and initial designs are chosen by name in any spelling or given as objects, acquisitions and their "
  "optimizers by their exact names; anything else is rejected when the optimizer is made. "
  "The surrogates trained are of the kind named, with the settings given, one per output for acquisitions per "
  "second; Gaussian processes get a normalised space and, by name, one length scale per column and a kernel for "
  "categories exactly when all dimensions are categorical. Gradient refinement is used exactly when asked for, "
  "which requires a surrogate with gradients, or automatically when the surrogate has them. "
  "The numbers of initial points, also under the deprecated name, and of surrogates kept are those requested.",
  ["configurations"],
  "Every combination of surrogate, spelling, acquisition, acquisition optimizer, design and kind of space.",
  "Tests construct some of the combinations and never look at what was built.",
  [OPT, "skopt/utils.py"], [("constructor", OPT + ":Optimizer.__init__"), ("cook_estimator", "skopt/utils.py:cook_estimator"),
          ("cook_initial_point_generator", "skopt/utils.py:cook_initial_point_generator"),
          ("has_gradients", "skopt/utils.py:has_gradients")], ST_OPT,
  ["Optimizer.models", "Optimizer.ask", "cook_initial_point_generator"])

SP = "skopt/space/space.py"
TR = "skopt/space/transformers.py"
ST_SP = [("transformer", "how a dimension is represented in the warped space", SP),
         ("low, high, categories, prior, base", "what a dimension contains", SP)]

P("S01", "space", "Transforming to the warped space and back gives the same point",
  "For every dimension and space, transforming points of the space and transforming them back gives the "
  "same values, of the same kinds, whatever the prior, base, bounds, categories and transformation. "
  "Transformed points lie within the transformed bounds, and every point within the transformed bounds "
  "stands for the nearest value of the space.",
  ["inputs", "configurations"],
  "Every kind of dimension (real and integer with uniform and log-uniform priors of several bases, "
  "categories of strings, numbers, booleans, tuples and mixtures), every transformation, every value, "
  "alone and combined into spaces.",
  "Tests try a few dimensions with round numbers; the round trip has to hold at the borders and for every "
  "combination of prior, base and transformation.",
  [SP, TR], [("inverse_transform", SP + ":Space.inverse_transform"),
             ("transformers", TR + ":Normalize, LogN, LabelEncoder, CategoricalEncoder, Pipeline")], ST_SP,
  ["Dimension.transform", "Dimension.inverse_transform", "Space.transform"])

P("S02", "space", "The warped space is laid out as documented",
  "Each dimension takes the documented columns of the warped space: one for numbers, labels and two "
  "categories, one per category for one-hot encoding; normalised dimensions lie in [0, 1], log-uniform "
  "ones are warped by the logarithm to their base, and one-hot columns are in the order of the "
  "categories. "
  "A space has the columns and bounds of its dimensions one after the other, in order, and points are "
  "transformed independently of each other.",
  ["inputs", "configurations"],
  "Every dimension of the universe above and every combination of several of them.",
  "Tests look at shapes and a few values; an exchanged column or a bound in the wrong unit is invisible "
  "to them.",
  [SP, TR], [("transform", SP + ":Space.transform"), ("transformed_bounds", SP + ":transformed_bounds"),
             ("transformed_size", SP + ":transformed_size")], ST_SP,
  ["Space.transform", "Space.transformed_bounds", "Space.transformed_n_dims"])

P("S03", "space", "Dimension descriptions mean what is documented",
  "Two numbers describe a uniform range, with a prior or a prior and base as third and fourth entry; it is "
  "an integer dimension exactly if both bounds are integers; any other sequence lists categories; invalid "
  "ranges are rejected. "
  "YAML descriptions give the same dimensions as the constructors, unnamed dimensions are named by their "
  "position, and looking up a name finds the first dimension of that name and its position.",
  ["inputs"], "Every sequence of up to two entries, and a grid of longer ones, over integers, floats, numpy "
  "numbers, strings and booleans; YAML files of random dimensions in every documented shape.",
  "Tests list a few shorthand notations; the grammar overlaps (categories that look like ranges) in many "
  "more.",
  [SP], [("check_dimension", SP + ":check_dimension"), ("from_yaml", SP + ":Space.from_yaml"),
         ("__getitem__", SP + ":Space.__getitem__")], ST_SP,
  ["check_dimension", "Space.from_yaml", "Space[...]"])

P("S04", "space", "Membership, distance and equality of spaces respect every dimension",
  "A point is in a space exactly if it has one value per dimension and each value belongs to its "
  "dimension. The distance of two points is the sum over the dimensions of the distance of the numbers, or "
  "0 or 1 for categories, is symmetric and only defined inside. "
  "Two spaces are equal exactly if they have equal dimensions in the same order.",
  ["inputs"], "Random spaces with points whose values are inside, on the border, outside or missing, and "
  "pairs of spaces which differ in a single respect.",
  "Tests compare a handful of points; each dimension in each position matters.",
  [SP], [("__contains__", SP + ":Space.__contains__"), ("distance", SP + ":Space.distance"),
         ("__eq__", SP + ":Space.__eq__")], ST_SP, ["x in Space", "Space.distance", "=="])

P("S05", "space", "Samples and suggestions lie in the space and have the right types",
  "Random samples lie in the space with values of the dimensions' types, as many as requested, the same "
  "for the same seed; every category and small integer with positive probability does occur and none "
  "with prior 0 does; ranges are covered according to their prior. "
  "Everything the optimizer suggests, one by one or in batches, is a point of the space.",
  ["inputs", "seeds", "histories"], "Random spaces, sample sizes up to 600 and seeds; optimizers of all "
  "surrogates.",
  "Tests draw from a few dimensions; values at borders and after rounding depend on prior, base and "
  "transformation.",
  [SP, OPT], [("rvs", SP + ":Space.rvs"), ("ask", OPT + ":Optimizer.ask")], ST_SP,
  ["Space.rvs", "Optimizer.ask"])

BASE = "skopt/optimizer/base.py"
WRAP = [BASE, "skopt/optimizer/gp.py", "skopt/optimizer/forest.py", "skopt/optimizer/gbrt.py",
        "skopt/optimizer/dummy.py"]
CB = "skopt/callbacks.py"
ST_MIN = [("x0, y0", "the points, and possibly values, the caller provided", BASE),
          ("n_calls", "evaluations left", BASE), ("callbacks", "called after every recording", BASE)]

P("M01", "minimize", "Minimisers use the budget and report exactly what they evaluated",
  "Without callbacks that stop it, a minimiser evaluates the objective exactly n_calls times in all, first "
  "at the provided points in order when their values are not given, and never more. "
  "The result lists every point, provided or evaluated, with its value, in order, and the first of the "
  "smallest values; a surrogate is trained after every recording from the end of the initial points on, "
  "and only the last few are kept when a limit is set.",
  ["configurations", "histories"],
  "Every combination of budget, number of initial points, provided points with or without values, design, "
  "surrogate, acquisition and callbacks, for gp_, forest_, gbrt_ and dummy_minimize and base_minimize.",
  "Tests run a few combinations on one space; counting goes wrong at the seams between provided points, "
  "initial points and the loop.",
  WRAP, [("base_minimize", BASE + ":base_minimize"), ("dummy_minimize", WRAP[4] + ":dummy_minimize")], ST_MIN,
  ["OptimizeResult of *_minimize", "calls of the objective"])

P("M02", "minimize", "Callbacks see every recording, can stop the search, and errors surface",
  "After every recording each callback is called exactly once, in the order given, with a result showing "
  "everything recorded so far; when any of them returns a true value, no further evaluation is made and "
  "that result is returned, after the remaining callbacks have been called. "
  "An exception of the objective reaches the caller unchanged and nothing more is evaluated or called.",
  ["histories", "fault_sequences", "configurations"],
  "Every sequence of callback answers and of failing evaluations, for all minimisers.",
  "Tests use one callback that stops at a fixed iteration.",
  WRAP + ["skopt/utils.py", CB], [("eval_callbacks", "skopt/utils.py:eval_callbacks"),
                                  ("loop", BASE + ":base_minimize")], ST_MIN,
  ["callbacks of *_minimize", "exceptions"])

P("M03", "minimize", "Invalid requests are rejected before anything is evaluated",
  "A minimiser that cannot honour a request raises an error without a single evaluation of the objective: "
  "no initial points, a budget below the number of initial and provided points, provided points outside of "
  "the space or of the wrong size, values that do not match the points, callbacks that cannot be called, "
  "invalid dimensions, or unknown acquisition, generator, optimizer or surrogate.",
  ["configurations", "inputs"],
  "Every way to make a valid call invalid, combined with every minimiser and the other arguments.",
  "Tests check that some of the errors are raised, not that nothing was evaluated before.",
  WRAP, [("argument checks", BASE + ":base_minimize"), ("Optimizer", OPT + ":Optimizer.__init__")], ST_MIN,
  ["*_minimize"])

P("M04", "minimize", "A minimiser evaluates what the ask/tell loop with its settings suggests",
  "The points evaluated by a minimiser are the suggestions an ask/tell optimizer with the same settings, "
  "seed and observations makes, one after the other: the settings of the call reach the optimizer and the "
  "search has no other state.",
  ["configurations", "histories", "inputs"],
  "Random combinations of space, seed, design, acquisition, budget and provided points.",
  "Tests compare one configuration, if any; a dropped argument still gives a plausible search.",
  WRAP, [("base_minimize", BASE + ":base_minimize"), ("ask/tell", OPT + ":Optimizer")], ST_MIN,
  ["x_iters"])

P("C01", "minimize", "Stopping criteria decide exactly as documented",
  "Each stopping criterion stops the search at the first recording at which its documented condition holds "
  "and at no other: the last two points closer than delta, the n_best smallest values within delta, no "
  "improvement beyond the threshold in the last n iterations, a value at or below the threshold, the "
  "remaining time below the longest iteration. "
  "The timer reports the time between recordings.",
  ["histories", "inputs"],
  "Every sequence of objective values and durations, with ties, repeated points, values at the threshold "
  "and every parameter of the criteria, alone and combined.",
  "Tests use one or two hand made results per criterion.",
  [CB], [("criteria", CB + ":DeltaXStopper, DeltaYStopper, HollowIterationsStopper, DeadlineStopper, "
                           "ThresholdStopper"), ("TimerCallback", CB + ":TimerCallback")], (),
  ["callbacks of *_minimize"])

P("D02", "minimize", "A checkpoint always holds everything recorded, and searches resume from it",
  "After every recording the checkpoint file is a loadable result holding every observation made so far, and the "
  "objective exactly when it is to be stored; "
  "when the search fails or is interrupted later the file still holds everything recorded before. "
  "A search continued with the points and values of a checkpoint evaluates none of them again and ends with "
  "all of them followed by the new ones.",
  ["crash_points", "histories", "configurations"],
  "A failure at every evaluation, for every combination of callbacks, minimisers and storage options, and "
  "chains of interrupted and resumed searches.",
  "Tests save a checkpoint of one complete run.",
  [CB, "skopt/utils.py", BASE], [("CheckpointSaver", CB + ":CheckpointSaver"),
                                 ("dump, load", "skopt/utils.py:dump, load")],
  [("checkpoint file", "everything recorded at the last call of the saver", CB)],
  ["skopt.load(checkpoint)"])

P("S06", "minimize", "The caller's objects are left alone and can be shared",
  "Dimensions, spaces, estimators, points, callbacks and settings which are handed to an optimizer, "
  "minimiser, generator, search or space are the same for the caller after every operation, whether it "
  "succeeds or raises. "
  "Several of them can therefore share these objects: each gets exactly what it would get with its own "
  "copies.",
  ["schedules", "histories", "configurations"],
  "Every interleaving of the operations of optimizers with different surrogates, generators, minimisers and "
  "spaces on the same objects.",
  "Tests hand every object to one user only.",
  ["skopt/utils.py", SP, OPT, BASE, "skopt/sampler/lhs.py"],
  [("normalize_dimensions", "skopt/utils.py:normalize_dimensions"),
   ("generate", "skopt/sampler/lhs.py:Lhs.generate"), ("Optimizer", OPT + ":Optimizer.__init__")],
  [("transformer of a dimension", "how its values are warped", SP)],
  ["Dimension", "Optimizer.ask", "InitialPointGenerator.generate", "*_minimize"])

ACQ = "skopt/acquisition.py"
ST_ACQ = [("next_xs_", "the proposals of the acquisitions after the last training", OPT),
          ("gains_", "accumulated gains of the acquisitions", OPT)]
P("A01", "acq", "Acquisition values and gradients are those of their definitions",
  "For predicted mean and deviation, expected improvement, probability of improvement and lower confidence "
  "bound have the values of their definitions for every incumbent, margin and exploration parameter, "
  "per-second variants are scaled by the expected inverse of the log-normal time, and points the surrogate "
  "is certain about have no improvement. "
  "The gradients are the derivatives of these values, and the value at a point does not depend on the points "
  "evaluated together with it.",
  ["inputs"], "A grid of means, deviations including 0, incumbents, margins, exploration parameters and their "
  "gradients, one by one and in batches; real surrogates.",
  "Tests compare a few values and check gradients at random points numerically.",
  [ACQ], [("gaussian_ei", ACQ + ":gaussian_ei"), ("gaussian_pi", ACQ + ":gaussian_pi"),
          ("gaussian_lcb", ACQ + ":gaussian_lcb"), ("per second", ACQ + ":_gaussian_acquisition")], (),
  ["gaussian_ei", "gaussian_pi", "gaussian_lcb"])

P("A02", "acq", "Suggestions optimise the acquisition over all sampled candidates",
  "Once a surrogate is trained, the suggestion is the candidate with the best acquisition value among "
  "n_points sampled points, for the incumbent that is the smallest value observed so far, lies included, and "
  "the requested margin and exploration; with gradient refinement it is at least as good as every candidate. "
  "This holds for single suggestions, batches, copies and every minimiser.",
  ["histories", "configurations"],
  "Histories of single and batch observations, copies and batches over all acquisitions and their "
  "parameters, with surrogates of known predictions and with the real ones.",
  "Tests check that suggestions are inside the space or that a search gets close to the optimum.",
  [OPT, ACQ, BASE], [("_tell", OPT + ":Optimizer._tell"), ("acquisition", ACQ + ":_gaussian_acquisition")], ST_ACQ,
  ["Optimizer.ask", "x_iters of *_minimize"])

P("O08", "acq", "Hedging follows the acquisition whose proposals turned out best",
  "With gp_hedge every acquisition proposes its best candidate after each training and the suggestion is one "
  "of these proposals. "
  "An acquisition's gain is minus the sum of what the next surrogates predict at its proposals, carried over "
  "to copies, and the higher the gain the more likely its proposal, with certainty for a large eta.",
  ["histories"], "Histories of observations, copies and batches, with surrogates of known predictions.",
  "Tests only check that the option runs.",
  [OPT], [("_tell", OPT + ":Optimizer._tell"), ("copy", OPT + ":Optimizer.copy")], ST_ACQ, ["Optimizer.ask"])

SA = "skopt/sampler/"
ST_GEN = [("num_generated", "points a Sobol generator has made", SA + "sobol.py")]
P("G01", "sampler", "Latin hypercube and grid designs cover every dimension evenly",
  "A Latin hypercube design of n points has, in every dimension after its prior, exactly one point in each of "
  "the n equal parts, in the middle when centred, up to the rounding of integers and categories; optimising "
  "a criterion returns the best of the designs it considered. "
  "A grid design is the full factorial design with the documented levels when that fits the number of points, "
  "with the missing points on the grid for them, and distinct points of the next larger one otherwise, in "
  "any number of dimensions.",
  ["configurations", "inputs", "seeds"],
  "All settings, 1 to 7 dimensions of every kind, 1 to 40 points, directly, by name and through optimizers.",
  "Tests look at one or two designs on one space; the stratification has to hold for all of them.",
  [SA + "lhs.py", SA + "grid.py"], [("Lhs.generate", SA + "lhs.py:Lhs.generate"),
                                    ("Grid.generate", SA + "grid.py:Grid.generate")], ST_GEN,
  ["Lhs.generate", "Grid.generate", "Optimizer(initial_point_generator=...)"])

P("G02", "sampler", "Low discrepancy designs are the sequences they are named after",
  "Point i of a Halton design has as coordinates the radical inverses of i plus the skipped number in the "
  "given or the first primes as bases, whatever the number of dimensions and points; a Hammersly design adds "
  "a regular grid as its last coordinate. "
  "Every aligned block of 2^m points of a Sobol design has one point in each of the 2^m parts of every "
  "dimension, also when shifted, and one in every elementary rectangle of the first two dimensions; a "
  "generator that skips points refuses to repeat its sequence.",
  ["configurations", "histories", "inputs"],
  "1 to 60 dimensions of every kind, all settings, histories of requests of different sizes and dimensions to "
  "the same generator.",
  "Tests compare the first few points of small designs.",
  [SA + "halton.py", SA + "hammersly.py", SA + "sobol.py"],
  [("Halton", SA + "halton.py:Halton.generate"), ("Hammersly", SA + "hammersly.py:Hammersly.generate"),
   ("Sobol", SA + "sobol.py:Sobol.generate, _sobol")], ST_GEN,
  ["Halton.generate", "Hammersly.generate", "Sobol.generate"])

P("G03", "sampler", "A design depends on the request only",
  "Every valid request for n points gives n points inside the space, and the same request with the same seed "
  "gives the same points from any generator with the same settings, whatever the generator was used for "
  "before, including refused requests; for sequences, smaller designs are the beginning of larger ones. "
  "Given a seed, the global random state is neither used nor changed.",
  ["histories", "configurations", "seeds"],
  "Histories of requests to several generators of every kind, over different spaces and sizes.",
  "Tests use a fresh generator for every design.",
  [SA + "sobol.py", SA + "lhs.py", SA + "grid.py", SA + "halton.py", SA + "hammersly.py", "skopt/utils.py"],
  [("generate", SA + "sobol.py:Sobol.generate"),
   ("by name", "skopt/utils.py:cook_initial_point_generator")], ST_GEN,
  ["InitialPointGenerator.generate"])

SV = "skopt/searchcv.py"
ST_SEARCH = [("optimizers", "one optimizer per subspace", SV),
             ("n_iter", "candidates still to evaluate in the subspace", SV),
             ("cv_results_", "one row per evaluated candidate", SV)]
P("B01", "search", "A cross-validated search spends its budget exactly, subspace by subspace",
  "Fitting evaluates the subspaces in the order given, each with its own number of candidates, in batches of "
  "the requested size with a smaller last one; every candidate is fitted once per split and nothing else is. "
  "After each batch every callback is called once, in order, with everything evaluated in this subspace so "
  "far, and a true answer of any of them ends the search of this subspace only. "
  "The rows of the results are the evaluations in order, total_iterations is the budget, an error of the "
  "estimator surfaces unless a score for errors is set, and fitting again with the same seed gives the same "
  "candidates.",
  ["configurations", "histories", "faults"],
  "One to three subspaces with numbers of candidates, batch sizes, any answers of up to three callbacks, "
  "failing estimators, repeated fits.",
  "Tests run a few searches with one batch size and count the rows.",
  [SV], [("_run_search", SV + ":BayesSearchCV._run_search"), ("_step", SV + ":BayesSearchCV._step"),
         ("total_iterations", SV + ":BayesSearchCV.total_iterations")], ST_SEARCH,
  ["estimator.fit", "callbacks", "cv_results_", "optimizer_results_"])

P("B02", "search", "A cross-validated search scores and selects what it claims",
  "Every candidate consists of values of its own subspace under the right parameter names, as native types; "
  "the optimizer of the subspace is told the negated mean test score of each candidate. "
  "Scores, ranks, the best candidate over all subspaces and the refitted estimator agree with the scores of "
  "the splits, fit parameters reach every fit with those of the call taking precedence, and the search space, "
  "the settings and the estimator handed in stay as they were.",
  ["configurations", "inputs"],
  "Subspaces of one to four parameters of every kind and way to describe them, with scores that tie, are "
  "negative or come from failing splits.",
  "Tests look at the best score of a search on a data set.",
  [SV, "skopt/utils.py"], [("_step", SV + ":BayesSearchCV._step"), ("fit", SV + ":BayesSearchCV.fit"),
                           ("point_asdict", "skopt/utils.py:point_asdict")], ST_SEARCH,
  ["estimator parameters", "cv_results_", "best_params_", "optimizer_results_"])

LE = "skopt/learning/"
GPR, KER, FOR, GBR = (LE + "gaussian_process/gpr.py", LE + "gaussian_process/kernels.py", LE + "forest.py",
                      LE + "gbrt.py")
P("R02", "learn", "A surrogate is determined by its settings and the data of its last fit",
  "Whatever an estimator was fitted to before, and whether it is new, a clone or restored from a pickle, it "
  "predicts what any other estimator with the same settings and integer seed fitted to the same data predicts, "
  "for one row or many, with or without deviations. "
  "Fitting and predicting change neither the settings (estimators nested in them included) nor the data handed "
  "in nor the global random state, and later changes of the data by the caller have no effect.",
  ["histories", "configurations"],
  "Every history of fits, changes of settings, clones and pickles of three Gaussian processes, forests or "
  "quantile regressors, directly and as cooked for optimizers.",
  "Tests fit every estimator once.",
  [GPR, FOR, GBR, "skopt/utils.py"],
  [("fit", GPR + ":GaussianProcessRegressor.fit"), ("quantiles", GBR + ":GradientBoostingQuantileRegressor.fit")],
  [("kernel_, alpha_, L_", "the fitted process", GPR), ("regressors_", "one per quantile", GBR)],
  ["fit", "predict", "get_params"])

P("L01", "learn", "Gaussian processes predict the posterior of their kernel and noise",
  "The predicted mean and covariance are the posterior given the training data for the fitted kernel and the "
  "noise that was given or estimated, which is reported and not part of the predicted deviation, in the units "
  "of the data when these are normalised; without training data they are the prior. "
  "The gradients of mean and deviation are the derivatives of these predictions, for every composition of "
  "kernels.",
  ["configurations", "inputs"],
  "Kernels composed by sums, products and powers, noise given, estimated or in alpha, normalised or not, "
  "hyperparameters tuned or fixed, one to three dimensions.",
  "Tests compare gradients for two kernels and the noise level of one fit.",
  [GPR, KER], [("predict", GPR + ":GaussianProcessRegressor.predict"), ("noise", GPR + ":GaussianProcessRegressor.fit")],
  [("kernel_, alpha_, K_inv_", "the fitted process", GPR)], ["GaussianProcessRegressor.predict"])

P("L02", "learn", "Forests and quantile regressors report the spread of what they learned",
  "A forest predicts the mean over its trees of the mean of the training values in the leaf, and as variance the "
  "mean of the variances in the leaves (at least min_variance) plus the variance of the means, with or without "
  "bootstrap. "
  "A quantile regressor predicts every quantile as a gradient boosting for that quantile does, in the order "
  "given; its mean is the median and its deviation half the range from the 0.16 to the 0.84 quantile.",
  ["configurations", "inputs"],
  "Numbers and depths of trees, leaf sizes, smallest variances, offsets of the values, orders and kinds of "
  "quantiles.",
  "Tests check single values on one data set.",
  [FOR, GBR], [("_return_std", FOR + ":_return_std"), ("predict", GBR + ":GradientBoostingQuantileRegressor.predict")],
  [("estimators_", "the trees", FOR), ("regressors_", "one per quantile", GBR)], ["predict"])

P("L03", "learn", "Gradients of kernels are their derivatives, for every composition",
  "For sums, products and powers of kernels of any depth, the gradient with respect to a point follows the "
  "rules of differentiation from the gradients of the parts, which are the derivatives of their values; it is "
  "finite at the training points. "
  "The kernel for categories decays by the length scale of every feature that differs, and its gradient for "
  "the hyperparameters is the derivative by their logarithms.",
  ["configurations", "inputs"],
  "Random kernel expressions over all kernels with one or more length scales in one to three dimensions; "
  "categories as numbers and strings.",
  "Tests check the gradients of simple kernels at random points.",
  [KER], [("gradient_x", KER + ":Kernel.gradient_x"), ("HammingKernel", KER + ":HammingKernel.__call__")], (),
  ["gradient_x", "HammingKernel"])

UT = "skopt/utils.py"
P("R01", "repro", "The same settings, seed and calls give the same results",
  "Optimizers and searches made with the same settings and integer seed and given the same calls give the same "
  "suggestions and results and are in the same state, whatever other objects exist and do in between, "
  "whatever happens to the global random state, which they neither use nor change, and whatever the number "
  "of jobs; sampling a space with a seed depends on nothing else.",
  ["histories", "configurations", "seeds", "schedules"],
  "Interleaved histories of three objects with every kind of surrogate, acquisition, design and call, with "
  "uses of the global random state in between.",
  "Tests compare two runs in the same process from the same start.",
  [OPT, BASE, UT, "skopt/space/space.py"],
  [("random states", OPT + ":Optimizer.__init__"), ("base_minimize", BASE + ":base_minimize")],
  [("rng", "the random state of the optimizer", OPT)], ["ask", "tell", "run", "*_minimize", "Space.rvs"])

P("D01", "repro", "Stored results and optimizers come back equal and independent",
  "What is loaded equals what was dumped or pickled at that time in every observable part, including the "
  "predictions of its models and its random state, without the objective exactly when that was left out; "
  "dumping leaves the result alone. "
  "Restored optimizers continue as the original does, and changes of the original, of restored ones or of the "
  "file of one never show in another.",
  ["histories", "configurations"],
  "Histories of dumps to several files in several formats, loads, pickles, deep copies and changes of results "
  "and optimizers with every kind of surrogate.",
  "Tests dump and load one result and compare a few fields.",
  [UT, OPT], [("dump, load", UT + ":dump, load"), ("state", OPT + ":Optimizer")],
  [("specs", "the arguments of the search, with the objective", BASE)],
  ["dump", "load", "pickle of Optimizer and OptimizeResult"])

PL = "skopt/plots.py"
P("U01", "report", "Names and positions of parameters correspond",
  "An objective wrapped for named arguments is called exactly once per point with every value under the name of "
  "its dimension and its value is passed on; points of another length and dimensions without a name or that are "
  "no dimensions are rejected before it is called. "
  "Dictionaries and lists of points and dimensions convert to each other in the order of the sorted names, and "
  "a space finds its dimensions by name or position, one or several, and nothing under unknown names.",
  ["inputs", "configurations"],
  "Every subset and order of names, kinds of dimensions and of sequences, and malformed points and dimensions.",
  "Tests convert one point of one space.",
  [UT, "skopt/space/space.py"], [("use_named_args", UT + ":use_named_args"), ("point_asdict", UT + ":point_asdict"),
                                 ("Space.__getitem__", "skopt/space/space.py:Space.__getitem__")], (),
  ["use_named_args", "point_asdict, point_aslist, dimensions_aslist", "Space[...]"])

P("U02", "report", "The expected minimum is a minimum of the last model found from the starts",
  "expected_minimum returns a point within the bounds and the prediction of the last model there, which is not "
  "above the predictions at the best observation and at the random starting points; with categories, and for "
  "random sampling, it is the sampled point with the smallest prediction. "
  "The same seed gives the same answer and the result is left alone.",
  ["inputs", "configurations"],
  "Results with Gaussian processes, forests and boosted trees over real, log-uniform, normalised, integer and "
  "categorical spaces, and any number of starts, none included.",
  "Tests compare two settings on one result.",
  [UT], [("expected_minimum", UT + ":expected_minimum"),
         ("random sampling", UT + ":expected_minimum_random_sampling")], (),
  ["expected_minimum, expected_minimum_random_sampling"])

P("U03", "defaults", "Settings left out are the documented defaults, settings given are honoured",
  "Calling the package with settings left out is the same as giving their defaults. Optimizer: GP, 10 initial "
  "points, random, gp_hedge, auto, xi 0.01, kappa 1.96, 10000 candidates, 5 restarts, no queue limit, cl_min, "
  "training when told. Minimisers: 100 calls and the same; gp_hedge for gp_minimize and EI for the others, quiet, "
  "extra trees for forest_minimize, gaussian noise for gp_minimize. Acquisitions, dimensions, designs, surrogates, "
  "BayesSearchCV, stoppers, dump, expected_minimum and partial_dependence: as in their signatures. "
  "Any other value for one of these settings makes a difference.",
  ["configurations"],
  "Every function with each setting, pairs of settings and all settings left out, over seeds.",
  "Tests give the settings they look at.",
  [OPT, BASE, "skopt/optimizer/gp.py", "skopt/optimizer/forest.py", "skopt/optimizer/gbrt.py", UT],
  [("constructor", OPT + ":Optimizer.__init__"), ("base_minimize", BASE + ":base_minimize"),
   ("gp_minimize", "skopt/optimizer/gp.py:gp_minimize"), ("forest_minimize", "skopt/optimizer/forest.py:forest_minimize")],
  (), ["every function with settings"])

ST_RES = [("x_iters, func_vals", "everything observed", UT), ("models", "the surrogates kept", UT)]
P("V01", "report", "Convergence and regret plots show the observed minima and regrets",
  "The convergence trace of a result shows after n calls the smallest of its first n values, a regret trace the "
  "sum of the first n values less the true minimum (by default the smallest value of all results); of lists of "
  "results every trace and their average are shown. Calls count from one, a given true minimum is marked in the "
  "convergence plot, also when it is zero, and results are left alone.",
  ["histories", "configurations"],
  "Every history of values of up to three results, alone, in lists and labelled, with and without a true minimum.",
  "Tests only look that plotting does not fail.",
  [PL], [("plot_convergence", PL + ":plot_convergence"), ("plot_regret", PL + ":plot_regret")], ST_RES,
  ["lines of the axes returned"])

P("V02", "report", "Plots of evaluations show every evaluation where it was made",
  "For the dimensions asked for, in that order, or all that are not constant, the matrix shows below the diagonal "
  "every evaluated point at its coordinates (categories by their position), in plot_evaluations coloured in order, "
  "and the best or given point; histograms on the diagonal and alone count every evaluation once, in bins from "
  "the lower to the upper bound, categories by name. Axes carry the labels, bounds, scale and category names of "
  "their dimensions.",
  ["histories", "configurations"],
  "Every history of evaluations over one to four dimensions of every kind, every selection and order of "
  "dimensions by name or position, with own labels or without.",
  "Tests only look that plotting does not fail.",
  [PL], [("plot_evaluations", PL + ":plot_evaluations"), ("plot_histogram", PL + ":plot_histogram"),
         ("axes", PL + ":_format_scatter_plot_axes")], ST_RES, ["artists of the axes returned"])

P("V03", "report", "Plots of the model show its partial dependence and predictions",
  "Partial dependence on one or two dimensions is, at evenly spaced positions from bound to bound (categories in "
  "order), the mean of the model over the samples with these dimensions fixed there. The plots of the objective "
  "show it for the last model and mark the best or given point. "
  "The plot of a one-dimensional process shows mean and 1.96 deviations of the model asked for, the observations "
  "that model was fitted to, and the acquisition for these with its optimum.",
  ["histories", "configurations", "inputs"],
  "One to four dimensions of every kind and transform, models of every dependence on their columns, one or more "
  "samples, given or random, grids of several sizes, every former model of a result.",
  "Tests only look that plotting does not fail.",
  [PL], [("partial_dependence", PL + ":partial_dependence"), ("plot_objective", PL + ":plot_objective"),
         ("plot_gaussian_process", PL + ":plot_gaussian_process")], ST_RES,
  ["partial_dependence", "artists of the axes returned"])
