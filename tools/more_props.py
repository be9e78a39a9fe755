D = S + "distributions"
prop("C07", "Supports, default links and starting values are compatible",
     "For every distribution, each default link's inverse maps every linear predictor into the declared support of its parameter, the declared supports describe where density and parameters are actually admissible, and starting values computed from any non-constant in-support response lie inside the parameter supports. Choosing a link whose range does not fit the parameter support is flagged.",
     ["inputs", "configurations"], "all distributions, all parameters, all finite predictors, all in-support responses",
     "tests use default links on well-behaved data; support boundaries and boundary inclusion are not sampled",
     [D, S + "base/distribution.py", S + "links"], [("parameter_support/distribution_support", D), ("initial_values", D), ("link compatibility check", S + "base/distribution.py")],
     tech=VG + "; interval reasoning on the extracted inverse links", note=NOTE)
prop("C10", "Density, distribution, quantile and sampling functions agree",
     "For every distribution, pdf = exp(logpdf), logcdf = log(cdf), and pdf, cdf, ppf, mean and random variates all refer to the same member of the family under the documented parameterisation: the density is the derivative of the cdf (point masses included) and mean and samples use the same parameter map. Values outside the support have density zero, and rvs returns the requested number of draws per parameter row.",
     ["inputs", "configurations"], "all distributions, parameter rows and arguments, inside and outside the support",
     "tests compare density values with R at a few points; sampling and quantile parameter maps are barely tested",
     [D, S + "base/distribution.py"], [("pdf/cdf/ppf/rvs/logpdf/logcdf", S + "base/distribution.py"), ("theta_to_scipy_params", D)],
     tech=VG, note=NOTE)
prop("C11", "Parameter indices are handled exhaustively and invalid ones rejected",
     "Every derivative and link method of every distribution answers every valid parameter index (and, for cross derivatives, every pair of distinct indices, symmetrically) with the quantity of that parameter. Indices outside the declared range, and pairs of equal indices, are rejected with an error rather than answered.",
     ["inputs", "configurations"], "all distributions, all methods taking a parameter index, all integer indices",
     "tests never pass invalid indices and iterate only over one order of a pair",
     [D, S + "base/distribution.py"], [("dl1_dp1, dl2_dp2, dl2_dpp", D), ("link_function & friends", S + "base/distribution.py")],
     tech="path-sensitive exhaustiveness analysis of parameter-index dispatch on the gated value graph", note=NOTE)
prop("C12", "Coordinate descent makes exact in-box coordinate minimisations",
     "Each coordinate step sets the coefficient to the minimiser of the elastic-net objective in that coordinate with all others at their current value, clipped to its lower and upper bound; unregularised coefficients receive no penalty. Sweeps stop at the documented tolerance or after at most the given number of sweeps, every coefficient is visited in each sweep, and Gramians and start vectors passed in are not altered.",
     ["inputs", "configurations"], "all Gramians, penalties, bounds, selection modes and iteration limits",
     "tests compare final coefficients with a reference on a few well-conditioned problems",
     [S + "coordinate_descent.py"], [("online_coordinate_descent", S + "coordinate_descent.py"), ("soft_threshold", S + "coordinate_descent.py")],
     tech=VG + "; loop-kernel extraction and loop-exit analysis", note=NOTE)
prop("C13", "Path methods solve the documented grid with the configured settings",
     "The penalty grid runs geometrically from the smallest penalty that silences all penalised coefficients down to eps times it with the configured length; each path entry solves its own penalty starting from the documented start value, and every configured setting (alpha, bounds, tolerance, iteration limit, selection, early stopping) reaches the solver. The OLS method solves the normal equations of the given Gramians, and every update uses the current Gramians and previous coefficients.",
     ["inputs", "configurations"], "all Gramians and all method configurations",
     "tests run default settings; a dropped setting is invisible unless the optimum depends on it",
     [S + "methods", S + "coordinate_descent.py"], [("ElasticNetPath/LassoPath/OrdinaryLeastSquares", S + "methods"), ("online_coordinate_descent_path", S + "coordinate_descent.py")],
     tech=VG, note=NOTE + "Known finding: the grid start ignores 1/alpha for alpha<1.")

prop("C31", "Conditional starting values maximise the likelihood given the rest",
     "For every distribution and parameter index, the conditional starting values leave the parameters before that index exactly as handed in and set the remaining ones, equally for all observations, to the optimiser's maximiser of the documented log-likelihood of the response given those parameters, searched within their admissible ranges. If the optimiser reports failure the values handed in are returned, and the array handed in is never modified.",
     ["inputs", "configurations"], "all distributions, all parameter indices, all responses and current parameter values, success and failure of the optimiser",
     "no test uses conditional start values; a wrong parameterisation still returns plausible numbers",
     [S + "base/distribution.py", D], [("calculate_conditional_initial_values", S + "base/distribution.py")],
     tech=VG + "; the optimiser is uninterpreted, its objective extracted as a function of the decision", note=NOTE)

# ---- whole estimators -------------------------------------------------------
LAB = ("value-graph abstract interpretation of whole call histories in one abstract heap (distribution and estimation method uninterpreted), "
       "random-interpretation equality of the extracted observables with the prescribed recursion")
E = [G, L, S + "base/estimator.py"]
LNOTE = NOTE + ("Histories, dimensions and iteration limits are enumerated up to the bounds in the evidence; distribution and estimation method are uninterpreted, so the verdict "
                "does not depend on a particular one. ")
prop("C14", "Every observation enters the estimator's state exactly once",
     "After any sequence of fit and update calls, the Gramians, working responses, scaler statistics, selection statistics and counters of the estimators are those of the prescribed discounted recursion: each update uses the state left by the previous call plus the new rows exactly once, no matter how many inner and outer iterations or candidate models it goes through. Coefficients, coefficient paths, observation counters and predictions agree with that recursion.",
     ["histories", "inputs", "configurations"], "all call histories, batch sizes, iteration limits, estimation methods and distributions",
     "tests compare one or two histories with batch results at loose tolerance; double counting per inner iteration only shows for particular limits",
     E, [("fit/update", G), ("fit/update", L)], state=[("Gramians per parameter", "discounted weighted cross-products of all rows seen", G)],
     observe=["coef_, coef_path_, n_observations_, n_training_, predict*"], tech=LAB, note=LNOTE)
prop("C15", "A rejected call leaves the estimator as it was",
     "When update rejects its input (wrong shape, non-finite values, response outside the support), the estimator keeps the state it had before the call: predictions are unchanged and the next valid update gives the same result as if the rejected call had never happened. A first fit that is rejected, by input validation or by the estimation method, leaves the estimator unfitted.",
     ["histories", "crash_points"], "all points at which fit or update can reject its input, in all histories",
     "tests never continue after a rejected call",
     E, [("update validation", G), ("update validation", L), ("partial_fit", S + "base/estimator.py")], tech=EFF + "; state comparison at every rejection point", note=LNOTE)
prop("C16", "Prediction, scoring and transformation are pure",
     "Prediction, scoring, scaling, density, distribution, quantile, derivative and link functions change neither the object they are called on nor the arrays passed to them. Calling them repeatedly, or between updates, gives the same results and the same further history.",
     ["histories", "inputs"], "all prediction/scoring/transformation methods, all reachable estimator states",
     "tests do not compare object state before and after predictions",
     E + [S + "scaler.py", S + "distributions", S + "links"], [("predict*", G), ("predict/score", L), ("transform", S + "scaler.py")], tech=EFF, note=LNOTE)
prop("C17", "Objects handed in by the caller are not modified, nor aliased by the state",
     "Arrays passed to fit, update, partial_fit and predict, and dictionaries, arrays and estimation-method objects passed to constructors, keep their content through every call. Overwriting such an array after a call has no influence on the estimator's later behaviour.",
     ["histories", "inputs"], "all array, dictionary and object arguments, all histories",
     "tests use fresh arrays per call and never inspect their inputs afterwards",
     E + [S + "scaler.py", S + "gram.py", S + "methods"], [("fit/update", G), ("_process_parameter", G), ("fit/update", L), ("get_estimation_method", S + "methods/factory.py")],
     tech="ownership / alias analysis on the abstract heap: caller-owned cells must hold their original leaf at every exit, and overwriting them must not change later observables", note=LNOTE)
prop("C18", "Constructor parameters are stored verbatim and survive fitting",
     "Every constructor parameter of the estimators, estimation methods, distributions and the scaler is stored unchanged under its own name, fitting and prediction never replace or alter it, and values changed through set_params take effect at the next fit. get_params, clone and grid search therefore work for every configuration.",
     ["configurations", "histories"], "all constructor parameters of all public classes, all later calls",
     "scikit-learn's own checks run on default configurations only",
     E + [S + "methods", S + "distributions", S + "estimators/online_lasso.py"], [("__init__", G), ("__init__", L), ("__init__", S + "estimators/online_lasso.py"), ("__init__", S + "methods/elasticnet.py")], tech=EFF + " on constructors with one leaf per parameter", note=LNOTE)
prop("C19", "Sample weights and forgetting reach every stage of estimation",
     "Given sample weights and forgetting factors enter the Gramians, the scaler, the working weights, the deviance, the model selection and the counters exactly as prescribed, in fit and in every update; omitting the weights equals passing ones. Each distribution parameter uses its own forgetting factor, and the effective training length follows it.",
     ["inputs", "histories", "configurations"], "all weight vectors and forgetting factors (scalar or per parameter), all histories",
     "tests use unit weights almost everywhere; a stage ignoring weights is invisible then",
     E + [S + "gram.py", S + "scaler.py", S + "utils.py"], [("fit/update/_fit_select_model", G), ("fit/update", L), ("calculate_effective_training_length", S + "utils.py")], tech=LAB, note=LNOTE)
prop("C20", "Per-parameter settings apply to their own distribution parameter",
     "A setting given per distribution parameter (method, equation, forget, fit_intercept, regularize_intercept, ic, step_size) applies to the parameter of its key whatever the order of the dictionary; missing entries get the documented default, scalars apply to all parameters, and param_order alone determines the order of estimation.",
     ["configurations"], "all assignments of settings to parameters, all dictionary orders, partial dictionaries, all parameter orders",
     "tests pass scalars or complete dictionaries in index order",
     [G], [("_process_parameter", G), ("fit/update", G)], tech=LAB, note=LNOTE)
prop("C21", "Information criteria select the documented model",
     "The information criteria follow their documented formulas for scalar and array arguments and reject unknown names. For path methods the selected coefficients are those of the path entry with the smallest criterion, computed from the weighted, discounted in-sample fit, the number of non-zero coefficients and the effective training length, in fit and update, for local and global selection.",
     ["inputs", "configurations", "histories"], "all criteria, selection modes, paths and histories",
     "tests check formula values at single points and never a selection after updates",
     [S + "information_criteria.py", G, L], [("InformationCriterion", S + "information_criteria.py"), ("model selection", G), ("model selection", L)], tech=LAB, note=LNOTE)
prop("C22", "Training and prediction use the same, configured design",
     "For every distribution parameter the design consists of exactly the columns its equation selects (all, intercept only, column names, integer or boolean index), scaled as configured and with the intercept first when requested; fit, update and predict build the same design with the scaler state current at that call. The intercept is penalised only when asked for, and contradictory designs are rejected.",
     ["configurations", "inputs", "histories"], "all equations, intercept, regularisation and scaling settings",
     "tests use the full design with intercept; index/boolean/partial-scaling combinations are not sampled",
     [G, L, S + "design_matrix.py", S + "scaler.py", S + "utils.py"], [("make_model_array", G), ("get_J_from_equation", G), ("add_intercept", S + "design_matrix.py")], tech=LAB, note=LNOTE)
prop("C23", "Responses outside the distribution's support are rejected",
     "Distributional regression rejects, in fit and in update, any batch containing a response below or above the support of its distribution, wherever in the batch it is, and accepts all responses inside the support including its end points.",
     ["inputs"], "all supports, all batches, all positions of the offending value",
     "tests check one offending value for one distribution",
     [G, S + "base/distribution.py"], [("_validate_inputs", G)], tech="guard extraction: path conditions of the explicit raises over the uninterpreted support", note=LNOTE)
prop("C24", "The estimator protocol: fit, update, partial_fit and fitted state",
     "partial_fit fits on the first call and updates on every later one, passing data and weights through; fit, update and partial_fit return the estimator itself; the fitted state and sample counter reflect the history. Update, prediction and scoring of an unfitted estimator raise NotFittedError before anything is computed or changed.",
     ["histories"], "all call sequences over fit, update, partial_fit and prediction methods",
     "tests never use the sample counter and do not call update first",
     E, [("partial_fit, fit, update", S + "base/estimator.py"), ("update/predict", G), ("update/predict", L)], tech=EFF + " (typestate: unfitted/fitted)", note=LNOTE)
prop("C25", "Iterations are bounded and stop as configured",
     "fit and update run at most max_it_outer outer rounds with at most max_it_inner inner rounds per parameter on every path; how many of them run follows the absolute and relative tolerances, the minimum number of outer iterations and the prefit settings of this call only. Cautious updates restrict inner and extend outer iterations exactly when a new observation lies in the extreme tails of the current predictive distribution.",
     ["inputs", "configurations", "histories"], "all iteration limits, tolerances, schedules and data",
     "tests converge in a few rounds; limits and cautious updates are never hit",
     [G], [("_outer_fit/_inner_fit/_outer_update/_inner_update", G), ("cautious updates", G)], tech=LAB + "; complete expansion of the iteration loops as termination argument", note=LNOTE)
prop("C30", "Predictions are the inverse-linked design times coefficients",
     "predict_distribution_parameters returns, for each distribution parameter, the inverse link (or, on request, the linear predictor) of the scaled design times the fitted coefficients; contributions are its elementwise products; mean, median and quantile predictions are those of the predicted distribution row by row. The linear models' predict, predict_path and score are the design times coefficients, times the path, and R squared; each row's prediction depends on that row only.",
     ["inputs", "histories", "configurations"], "all fitted states, inputs, quantile levels, links and distributions",
     "tests check output shapes and finiteness",
     [G, L, S + "base/distribution.py"], [("predict*", G), ("predict/predict_path/score", L)], tech=LAB, note=LNOTE)
prop("C26", "Estimation methods resolve as documented and are private per parameter",
     "The names ols, lasso and elasticnet denote OrdinaryLeastSquares(), LassoPath() and ElasticNetPath(alpha=0.5); anything else that is no estimation method is rejected. A method object given once for several distribution parameters behaves as separate equal objects: settings derived from the data of one parameter (penalty level, bounds) never leak into another, and the object handed in keeps its settings.",
     ["configurations", "histories"], "all names, all method classes, shared and separate objects, all histories",
     "tests build a new estimator with a fresh method per case and never share one object between parameters with different designs",
     [S + "methods", G, L], [("get_estimation_method", S + "methods/factory.py"), ("_prepare_estimator", G), ("_prepare_fit", L)],
     tech=LAB + "; relational comparison of two configurations that must mean the same", note=LNOTE)
prop("C27", "Debugging and logging do not change estimation and report what happened",
     "Debug mode and every verbosity level leave coefficients, state and predictions of any history exactly as without them. get_debug_information returns the working weights, working response, derivatives, predictor, fitted values, deviance, coefficients, path and designs of the requested parameter, outer and inner iteration of the last call, and is rejected when debug mode is off.",
     ["configurations", "histories"], "all verbosity levels, debug on/off, all iterations of all calls",
     "tests do not compare runs with and without debug, nor any recorded value",
     [G], [("debug records", G), ("get_debug_information", G), ("_print_message", G)], tech=LAB + " (non-interference)", note=LNOTE)
prop("C28", "No hidden shared state and no hidden randomness",
     "All state lives in the objects themselves: no function writes module globals, class attributes or mutable defaults, and process-wide settings (random seed, floating-point handling, warning filters) are left alone. Results are deterministic: random numbers are used only by sampling (drawing from numpy's global generator, never a fixed or private one) and by coordinate selection 'random'.",
     ["schedules", "histories"], "all functions of the package, all interleavings of several objects",
     "tests use one estimator at a time and cannot observe interference between objects",
     [S[:-1]], [("all functions", S[:-1]), ("rvs", S + "base/distribution.py"), ("selection", S + "coordinate_descent.py")],
     tech="whole-program effect analysis over the syntax tree with import resolution and backward call-graph reachability of random call sites", note=NOTE)
prop("C29", "Fitting again starts afresh",
     "Calling fit on an estimator (or scaler) that already has a history gives exactly the state a new object would have after that fit, also with another number of features, and so do all updates and predictions after it. Nothing of the earlier data, bounds, penalties, counters or iteration schedules survives. Parameters assigned in between (set_params) take effect in that fit.",
     ["histories", "configurations"], "all earlier histories, all configurations and methods, changed feature counts",
     "tests fit every estimator object once",
     E + [S + "scaler.py", S + "methods"], [("fit", G), ("fit", L), ("fit", S + "scaler.py"), ("get_estimation_method", S + "methods/factory.py")],
     tech=LAB + "; relational comparison of histories with and without the earlier calls", note=LNOTE)

# ---- not claimed --------------------------------------------------------------
prop("N01", "The iterative fit converges to the penalised maximum-likelihood estimate",
     "After fit, the coefficients of distributional regression are, up to the configured tolerances, a stationary point of the penalised likelihood of the data, and repeated online updates track the estimate a batch fit on the whole history would give.",
     ["inputs", "histories"], "all data sets, distributions and configurations on which a maximiser exists",
     "tests compare a few data sets with R; convergence is a statement about all data",
     [G], [("_outer_fit/_inner_fit", G)], claim=False,
     reason="Convergence of the local-scoring iteration (and the tracking error of the online approximation) depends on curvature, step sizes and conditioning of the data; no sound static argument in reach bounds the number of iterations or the distance to the optimum. What the code contributes (each step, each stopping decision, the bounds on iterations) is decided by C12, C14 and C25.")
prop("N02", "Rounding errors of long online histories stay bounded",
     "After arbitrarily many updates the recursively maintained inverse Gramian, Gramians and scaler statistics stay within a small relative distance of the exactly computed ones.",
     ["histories"], "all histories of any length, ill-conditioned designs included",
     "tests run a few hundred well-conditioned updates",
     [S + "gram.py", S + "scaler.py"], [("update_inverted_gram", S + "gram.py"), ("OnlineScaler.update", S + "scaler.py")], claim=False,
     reason="The error of the recursion grows with the condition number of the data and the forgetting factor, both run-time quantities; a static floating-point error analysis would need bounds on them that the code does not enforce. The exact-arithmetic identities are decided by C01, C02 and C04.")
prop("N03", "The conditional start value optimiser succeeds on regular data",
     "Whenever the conditional likelihood has an interior maximum, the optimiser behind the conditional start values finds it instead of reporting failure.",
     ["inputs"], "all regular data sets",
     "depends on the scaling of the data relative to the first step of the optimiser",
     [S + "base/distribution.py"], [("calculate_conditional_initial_values", S + "base/distribution.py")], claim=False,
     reason="Success of L-BFGS-B is a property of a third-party numerical routine on run-time data (and does fail on ordinary data, e.g. Gamma from parameter 1, where the documented fallback is used); the objective, range and use of the result are decided by C31.")
prop("N04", "Compiled kernels compute what their source says",
     "The numba-compiled Gramian and coordinate-descent kernels return, for every input type, layout and thread count, what the Python source of the same function computes.",
     ["inputs"], "all dtypes, memory layouts and thread counts",
     "tests run one dtype and layout",
     [S + "gram.py", S + "coordinate_descent.py"], [("numba.jit kernels", S + "gram.py")], claim=False,
     reason="The property is about numba's compiler and run-time, not about the source of this repository: no analysis of /repo can decide it. All checks take the meaning of a kernel from its Python source.")
