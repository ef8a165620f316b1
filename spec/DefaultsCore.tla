---------------------------- MODULE DefaultsCore ----------------------------
(* The values of settings which are left out, and other values for them, as
   Python literals.  A use is [fn, omit]: a function of the package called
   with every setting but those in omit.                                      *)
EXTENDS Base

\* shared by the minimisers
Loop == [ n_calls |-> "100", n_initial_points |-> "10", initial_point_generator |-> "'random'",
          n_points |-> "10000", xi |-> "0.01", kappa |-> "1.96", model_queue_size |-> "None",
          verbose |-> "False" ]
LoopOther == [ n_calls |-> "90", n_initial_points |-> "9", initial_point_generator |-> "'halton'",
          n_points |-> "9000", xi |-> "2.5", kappa |-> "0.25", model_queue_size |-> "2",
          verbose |-> "True" ]
And(f, g) == [ x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x] ]
Only(f, S) == [ x \in DOMAIN f \cap S |-> f[x] ]

Default ==
  [ Optimizer |-> [ base_estimator |-> "'GP'", n_initial_points |-> "10", initial_point_generator |-> "'random'",
        acq_func |-> "'gp_hedge'", acq_optimizer |-> "'auto'", model_queue_size |-> "None",
        xi |-> "0.01", kappa |-> "1.96", eta |-> "1.0", n_points |-> "10000", n_restarts_optimizer |-> "5",
        strategy |-> "'cl_min'", fit |-> "True" ],
    base_minimize |-> And(Loop, [ acq_func |-> "'EI'", n_restarts_optimizer |-> "5", acq_optimizer |-> "'lbfgs'" ]),
    gp_minimize |-> And(Loop, [ acq_func |-> "'gp_hedge'", n_restarts_optimizer |-> "5", acq_optimizer |-> "'auto'",
        noise |-> "'gaussian'" ]),
    forest_minimize |-> And(Loop, [ acq_func |-> "'EI'", base_estimator |-> "'ET'" ]),
    gbrt_minimize |-> And(Loop, [ acq_func |-> "'EI'", acq_optimizer |-> "'auto'" ]),
    dummy_minimize |-> Only(Loop, {"n_calls", "initial_point_generator", "verbose"}),
    gaussian_ei |-> [ xi |-> "0.01", y_opt |-> "0.0", return_grad |-> "False" ],
    gaussian_pi |-> [ xi |-> "0.01", y_opt |-> "0.0", return_grad |-> "False" ],
    gaussian_lcb |-> [ kappa |-> "1.96", return_grad |-> "False" ],
    Real |-> [ prior |-> "'uniform'", base |-> "10", transform |-> "'identity'", name |-> "None" ],
    Integer |-> [ prior |-> "'uniform'", base |-> "10", transform |-> "'identity'", name |-> "None" ],
    Categorical |-> [ prior |-> "None", transform |-> "'onehot'", name |-> "None" ],
    Sobol |-> [ skip |-> "0", randomize |-> "True" ],
    Halton |-> [ min_skip |-> "0", max_skip |-> "0", primes |-> "None" ],
    Hammersly |-> [ min_skip |-> "0", max_skip |-> "0", primes |-> "None" ],
    Lhs |-> [ lhs_type |-> "'classic'", criterion |-> "'maximin'", iterations |-> "1000" ],
    Grid |-> [ border |-> "'exclude'", use_full_layout |-> "True", append_border |-> "'only'" ],
    RandomForestRegressor |-> [ n_estimators |-> "10", min_samples_split |-> "2", min_samples_leaf |-> "1",
        bootstrap |-> "True", min_variance |-> "0.0", max_depth |-> "None", return_std |-> "False" ],
    ExtraTreesRegressor |-> [ n_estimators |-> "10", min_samples_split |-> "2", min_samples_leaf |-> "1",
        bootstrap |-> "False", min_variance |-> "0.0", max_depth |-> "None", return_std |-> "False" ],
    GradientBoostingQuantileRegressor |-> [ quantiles |-> "[0.16, 0.5, 0.84]", return_std |-> "False",
        return_quantiles |-> "False" ],
    GaussianProcessRegressor |-> [ alpha |-> "1e-10", n_restarts_optimizer |-> "0", normalize_y |-> "False",
        noise |-> "None", return_std |-> "False", return_cov |-> "False", return_mean_grad |-> "False" ],
    BayesSearchCV |-> [ n_iter |-> "50", n_points |-> "1", refit |-> "True", return_train_score |-> "False",
        error_score |-> "'raise'" ],
    DeltaYStopper |-> [ n_best |-> "5" ],
    HollowIterationsStopper |-> [ threshold |-> "0" ],
    dump |-> [ store_objective |-> "True" ],
    expected_minimum |-> [ n_random_starts |-> "20" ],
    expected_minimum_random_sampling |-> [ n_random_starts |-> "100000" ],
    partial_dependence |-> [ j |-> "None", n_samples |-> "250", n_points |-> "40" ] ]

Other ==
  [ Optimizer |-> [ base_estimator |-> "'RF'", n_initial_points |-> "9", initial_point_generator |-> "'halton'",
        acq_func |-> "'LCB'", acq_optimizer |-> "'sampling'", model_queue_size |-> "2",
        xi |-> "2.5", kappa |-> "0.25", eta |-> "100.0", n_points |-> "9000", n_restarts_optimizer |-> "4",
        strategy |-> "'cl_max'", fit |-> "False" ],
    base_minimize |-> And(LoopOther, [ acq_func |-> "'LCB'", n_restarts_optimizer |-> "4", acq_optimizer |-> "'sampling'" ]),
    gp_minimize |-> And(LoopOther, [ acq_func |-> "'LCB'", n_restarts_optimizer |-> "4", acq_optimizer |-> "'sampling'",
        noise |-> "0.5" ]),
    forest_minimize |-> And(LoopOther, [ acq_func |-> "'LCB'", base_estimator |-> "'RF'" ]),
    gbrt_minimize |-> And(LoopOther, [ acq_func |-> "'LCB'", acq_optimizer |-> "'sampling'" ]),
    dummy_minimize |-> Only(LoopOther, {"n_calls", "initial_point_generator", "verbose"}),
    gaussian_ei |-> [ xi |-> "0.02", y_opt |-> "0.1", return_grad |-> "True" ],
    gaussian_pi |-> [ xi |-> "0.02", y_opt |-> "0.1", return_grad |-> "True" ],
    gaussian_lcb |-> [ kappa |-> "1.97", return_grad |-> "True" ],
    Real |-> [ prior |-> "'log-uniform'", base |-> "2", transform |-> "'normalize'", name |-> "'a'" ],
    Integer |-> [ prior |-> "'log-uniform'", base |-> "2", transform |-> "'normalize'", name |-> "'a'" ],
    Categorical |-> [ prior |-> "[0.8, 0.1, 0.1]", transform |-> "'normalize'", name |-> "'a'" ],
    Sobol |-> [ skip |-> "8", randomize |-> "False" ],
    Halton |-> [ min_skip |-> "7", max_skip |-> "9", primes |-> "(7, 5, 3)" ],
    Hammersly |-> [ min_skip |-> "7", max_skip |-> "9", primes |-> "(7, 5, 3)" ],
    Lhs |-> [ lhs_type |-> "'centered'", criterion |-> "'correlation'", iterations |-> "2" ],
    Grid |-> [ border |-> "'include'", use_full_layout |-> "False", append_border |-> "'exclude'" ],
    RandomForestRegressor |-> [ n_estimators |-> "9", min_samples_split |-> "9", min_samples_leaf |-> "4",
        bootstrap |-> "False", min_variance |-> "0.1", max_depth |-> "2", return_std |-> "True" ],
    ExtraTreesRegressor |-> [ n_estimators |-> "9", min_samples_split |-> "9", min_samples_leaf |-> "4",
        bootstrap |-> "True", min_variance |-> "0.1", max_depth |-> "2", return_std |-> "True" ],
    GradientBoostingQuantileRegressor |-> [ quantiles |-> "[0.1, 0.5, 0.9]", return_std |-> "True",
        return_quantiles |-> "True" ],
    GaussianProcessRegressor |-> [ alpha |-> "1e-2", n_restarts_optimizer |-> "3", normalize_y |-> "True",
        noise |-> "'gaussian'", return_std |-> "True", return_cov |-> "True", return_mean_grad |-> "True" ],
    BayesSearchCV |-> [ n_iter |-> "48", n_points |-> "2", refit |-> "False", return_train_score |-> "True",
        error_score |-> "0.0" ],
    DeltaYStopper |-> [ n_best |-> "4" ],
    HollowIterationsStopper |-> [ threshold |-> "1" ],
    dump |-> [ store_objective |-> "False" ],
    expected_minimum |-> [ n_random_starts |-> "2" ],
    expected_minimum_random_sampling |-> [ n_random_starts |-> "50000" ],
    partial_dependence |-> [ j |-> "1", n_samples |-> "200", n_points |-> "30" ] ]

\* values at the far end of what is allowed, or nearer to the default
Third ==
  [ gp_minimize |-> [ noise |-> "1e-6", n_restarts_optimizer |-> "6" ],
    base_minimize |-> [ n_restarts_optimizer |-> "6", kappa |-> "20.0" ],
    Optimizer |-> [ n_points |-> "12000", n_restarts_optimizer |-> "6", kappa |-> "20.0", strategy |-> "'cl_mean'",
        base_estimator |-> "'ET'", acq_func |-> "'PI'" ],
    Lhs |-> [ iterations |-> "100", criterion |-> "'ratio'" ],
    Grid |-> [ border |-> "'only'" ],
    Sobol |-> [ skip |-> "64" ],
    gaussian_ei |-> [ xi |-> "0.0", y_opt |-> "-0.1" ],
    gaussian_pi |-> [ xi |-> "0.0", y_opt |-> "-0.1" ],
    gaussian_lcb |-> [ kappa |-> "0.0" ],
    RandomForestRegressor |-> [ n_estimators |-> "11", max_depth |-> "3", min_variance |-> "1e-3" ],
    ExtraTreesRegressor |-> [ n_estimators |-> "11", max_depth |-> "3", min_variance |-> "1e-3" ],
    GaussianProcessRegressor |-> [ alpha |-> "1.0" ],
    DeltaYStopper |-> [ n_best |-> "2" ],
    expected_minimum |-> [ n_random_starts |-> "1" ],
    expected_minimum_random_sampling |-> [ n_random_starts |-> "100" ],
    partial_dependence |-> [ n_samples |-> "251", n_points |-> "41" ] ]

Functions == DOMAIN Default
Settings(fn) == DOMAIN Default[fn]
\* the minimisers agree on what they share, but for the acquisition
Minimisers == {"base_minimize", "gp_minimize", "forest_minimize", "gbrt_minimize", "dummy_minimize"}
\* settings whose other value need not show in a short history
Quiet(fn) == CASE fn = "gbrt_minimize" -> {"acq_optimizer"}
               [] fn = "GaussianProcessRegressor" -> {"n_restarts_optimizer"}
               [] OTHER -> {}
=============================================================================
