"""Source of properties.jsonl and MANIFEST.json (run tools/mk.py after editing)."""

S = "pymc_extras/statespace/"
M = "pymc_extras/model/marginal/"


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                technique=technique, note=note, na=na, observe=list(observe))


PROPS = [
    P("C01", "A given seed determines every random draw",
      "Whenever a caller passes a seed to an entry point that accepts one, every random draw that entry point makes, directly or in code it calls, takes its randomness from that seed. No code in the package draws from the process-global numpy or Python generator.",
      ["inputs", "configurations", "schedules"],
      "all entry points with a seed argument, all of their options and branches",
      "Tests compare two runs of a few entry points under one configuration; a draw that ignores the seed on another branch, group or backend stays unseen, and a global draw looks fine unless another draw interleaves.",
      ["pymc_extras/inference/find_map.py", "pymc_extras/inference/laplace.py", "pymc_extras/inference/pathfinder.py", "pymc_extras/inference/smc/sampling.py", "pymc_extras/model_builder.py", S + "core/statespace.py", M + "marginal_model.py"],
      [("seed forwarded to pm.sample / compile / draw / PRNGKey", "every entry point with random_seed"), ("per-variable seeds", "MarginalModel.recover_marginals")],
      "interprocedural provenance (value-graph) analysis from seed parameter to every draw call", "every draw call reachable from every seed-taking entry point, all branches"),
    P("C02", "A random state is consumed once and its successor carried on",
      "One generator state or key never feeds two draws, splits or loop iterations, and the state handed on to the next step is the one advanced by the last draw. Every random variable built from an inner graph updates each generator it holds with the state its own draw advanced.",
      ["inputs", "programs", "histories"],
      "all draws reachable from any function that handles a generator or key, including loop bodies and scan steps",
      "Reused states produce perfectly valid-looking but identical or correlated draws; tests look at shapes or at means of a single run.",
      [S + "filters/distributions.py", "pymc_extras/distributions/timeseries.py", "pymc_extras/distributions/discrete.py", "pymc_extras/inference/smc/sampling.py", "pymc_extras/inference/laplace.py"],
      [("scan updates", "LinearGaussianStateSpace / SequenceMvNormal / DiscreteMarkovChain rv_op"), ("update()", "SymbolicRandomVariable subclasses"), ("key splitting", "SMC inference_loop")],
      "linear-use (single consumption) analysis of rng/key values in the value graph", "every generator or key value in the package"),
    P("C03", "Caller-owned arguments are not changed in place",
      "Calling any public function, method or constructor leaves the objects passed to it (dicts, lists, arrays, data frames, indexes, inference data, models, components) as they were. The exceptions are arguments whose documented role is to be filled in or extended.",
      ["inputs", "histories"],
      "all public callables and all of their parameters, all branches",
      "A test passes fresh literals and never looks at them again; the damage shows only when the same object is used for a second call.",
      ["pymc_extras/model_builder.py", S + "core/statespace.py", S + "utils/data_tools.py", S + "models/structural.py", "pymc_extras/inference/find_map.py", "pymc_extras/utils/prior.py"],
      [("defensive copies", "find_MAP compile_kwargs, preprocess_pandas_data, scenario handling, component addition")],
      "interprocedural effect and alias analysis (in-place operations traced back to parameters)", "every parameter of every public callable"),
    P("C04", "A marginalised model keeps its bookkeeping in step and its own",
      "Marginalising, unmarginalising, cloning or converting a model leaves every table of the resulting MarginalModel consistent: a variable is in exactly one of the free or marginalised lists, with its name, value variable, transform, initial value and dims moved along, and its name and dims restored on unmarginalisation. The clone carries over everything the source model held, shares no container with it, and its log-probability treats the marginalised variables as summed out.",
      ["histories", "models"],
      "all sequences of from_model / marginalize / unmarginalize / clone on any model",
      "Tests check a handful of models one step deep; a table left behind or shared only shows up after a later step of another history.",
      [M + "marginal_model.py"],
      [("table moves", "_delete_rv_mappings / _transfer_rv_mappings / unmarginalize"), ("deep clone", "from_model / clone")],
      "denotational comparison of the value graphs of the bookkeeping functions with a specification, plus alias analysis", "all table operations of MarginalModel"),
    P("C05", "What cannot be marginalised exactly is refused",
      "marginalize raises instead of returning a wrong density: for variables it does not support, for dependents that are not random variables reached through supported operations, for mixed, reduced, reordered or partially indexed batch axes, for shared dependents and for dependence through shapes only when the shape is truly symbolic. It never refuses a model that its documented rules allow.",
      ["models", "programs"],
      "all models given to marginalize: every operation between a marginalised variable and its dependents",
      "The set of graphs is unbounded; tests contain a few refusals, and a graph wrongly accepted yields a silently wrong density.",
      [M + "marginal_model.py", M + "graph_analysis.py"],
      [("refusal conditions", "marginalize / _marginalize"), ("axis tracking", "_subgraph_batch_dim_connection"), ("conditional dependence", "find_conditional_* / is_conditional_dependent / static_shape_ancestors")],
      "denotational comparison of the value graphs of the graph analysis with a specification (conditions of every refusal, axis map of every operation)", "every refusal condition and every operation's axis map"),
    P("C06", "Marginal logp sums the joint over the full domain; recovery normalises it",
      "The log-probability of a marginalised variable group equals the logarithm of the sum over every value of the variable of its prior times each dependent's density, counted once and attributed to the right dependent with its own batch shape; Markov chains use the forward recursion with the stated lags. The domain enumerated is the full support of the variable. recover_marginals returns, for each posterior draw, the log-softmax of the same joint over that domain and draws distributed accordingly, for the requested variables only, under the original names, dims and coords.",
      ["inputs", "models"],
      "all supported finite discrete variables, dependents, batch shapes, and var_names requests",
      "Tests compare a few models with enumerated densities; other shapes and dependents take other branches.",
      [M + "marginal_model.py", M + "distributions.py"],
      [("marginal logp", "finite_discrete_marginal_rv_logp / marginal_hmm_logp"), ("domain", "get_domain_of_finite_discrete_rv"), ("recovery", "recover_marginals")],
      "symbolic normal-form comparison of the constructed log-probability graphs with a specification", "every expression building a marginal density, domain or recovered quantity"),
    P("C07", "Added scalar distributions agree between draws, logp and parameter checks",
      "GenExtreme, Chi, Maxwell, GeneralizedPoisson, BetaNegativeBinomial and Skellam: the log-probability (and log-cdf where offered) is that of the documented distribution in the documented parametrisation on the whole support, -inf outside it, and refused for parameters outside the documented ranges. Random draws, start values, transforms and size handling are those of the same distribution, including arrays of parameters that need different sampling branches.",
      ["inputs"], "all parameter values, values, sizes and broadcast shapes of the six distributions",
      "Tests evaluate a few grids; other parameter regions, mixed arrays and sampled values take other branches, and some of these distributions' draws are never compared with their density.",
      ["pymc_extras/distributions/continuous.py", "pymc_extras/distributions/discrete.py"],
      [("densities and checks", "GenExtreme / GeneralizedPoisson / BetaNegativeBinomial / Skellam logp"), ("samplers", "rng_fn, *_dist functions"), ("start values", "support_point")],
      "symbolic normal-form comparison of the value graphs of densities, samplers and checks with the documented formulas", "every method of the six distributions"),
    P("C08", "DiscreteMarkovChain draws, logp, resizing and start values share one law",
      "For every number of lags, states, steps and batch shape, a DiscreteMarkovChain draws its initial states from init_dist and each next state from the transition probabilities selected by the last n_lags states in order; its log-probability is that of exactly this process, its support point follows it greedily, and resizing keeps lags, steps and parameters. P or logit_P are exclusive, invalid init_dist and missing steps are refused, and the value's time axis is last everywhere. The Gibbs step offered for it updates every entry over the chain's own number of states.",
      ["inputs", "histories"], "all lags, batch shapes, parametrisations and construction options",
      "Tests use one or two lags and mostly one chain; axis and lag order errors keep shapes valid.",
      ["pymc_extras/distributions/timeseries.py"],
      [("transition", "DiscreteMarkovChain.rv_op"), ("logp", "discrete_mc_logp"), ("support point", "discrete_mc_moment"), ("step method", "DiscreteMarkovChainGibbsMetropolis")],
      "value-graph comparison of scan steps, index tuples and densities with a specification; dispatch registration check", "every function of the chain's module"),
    P("C09", "R2D2M2CP splits the outcome variance exactly as documented",
      "For every combination of options, the prior returned by R2D2M2CP explains r2 of the outcome variance by coefficients whose shares are phi (fixed, or Dirichlet with the given importance or concentration) and leaves (1 - r2) to the residual; each coefficient's mean and scale realise its positive-sign probability, certain signs become deterministic, centered and non-centered forms denote the same prior, and contradictory options are refused. Names and dims are the requested ones.",
      ["inputs", "configurations"], "all option combinations, dims and masks",
      "Tests check variable names and shapes of a selection of option combinations; a wrong formula keeps both.",
      ["pymc_extras/distributions/multivariate/r2d2m2cp.py"],
      [("mean and scale", "_psivar2musigma"), ("limit cases", "_psi_masked / _R2D2M2CP_beta"), ("shares", "_phi")],
      "symbolic normal-form comparison of the value graphs with the documented formulas", "every function of the module, all branches"),
    P("C10", "A histogram potential counts each kept observation once, in its own bin",
      "quantile_histogram and discrete_histogram return, per column, the number of observations in each bin together with the bin's own bounds and mid-point; zeros are counted apart exactly when zero inflation is requested; with min_count the values seen less often are left out without changing other counts. histogram_approximation adds count times log-density at the matching mid-points, choosing the discrete histogram exactly for integer data. Dask inputs give the same result.",
      ["inputs"], "all data arrays, dims, option values",
      "Tests compare sizes and totals on a few samples; a misplaced count keeps both.",
      ["pymc_extras/distributions/histogram_utils.py"],
      [("bins and counts", "quantile_histogram / discrete_histogram"), ("potential", "histogram_approximation")],
      "value-graph comparison with a specification", "every function of the module, all branches"),
    P("C11", "Kalman filters read missing data and time-varying matrices where they belong",
      "For every filter, pattern of missing observations (whole or partial, marked nan or with the fill value) and choice of time-varying matrices: a missing entry changes neither the filtered state nor the log-likelihood and cannot leak its fill value into forecasts of observations; each time step uses the matrices of its own period; outputs have the documented order, length, shape, alignment (prediction t uses data before t) and names.",
      ["inputs", "configurations"], "all filters, missing-data patterns, time-varying matrix choices",
      "Tests cover a few patterns on univariate data; leaks keep shapes and are invisible with the default fill value or zero intercepts.",
      [S + "filters/kalman_filter.py", S + "filters/utilities.py"],
      [("masking", "BaseFilter.handle_missing_values"), ("argument routing", "unpack_args / split_vars_into_seq_and_nonseq"), ("outputs", "_postprocess_scan_results")],
      "value-graph comparison of every interface function of the filters with a specification; constant tables evaluated", "every function of the filter interface, all branches"),
    P("C12", "Kalman filters and smoother denote the textbook recursions",
      "For every system: each filter's update, prediction and per-step log-likelihood equal those of the linear Gaussian state space model (up to the stated jitter), the square-root filter carries Cholesky factors of the same covariances, the univariate filter's sequential updates sum to the joint update, and the smoother's backward step is the Rauch-Tung-Striebel step with the fit's matrices and intercepts.",
      ["inputs"], "all matrices, observations, dimensions",
      "Tests compare on a few systems in which many terms vanish (zero intercepts, one observed series, no measurement error).",
      [S + "filters/kalman_filter.py", S + "filters/kalman_smoother.py", S + "filters/utilities.py"],
      [("update", "*.update"), ("predict", "*.predict"), ("smoother", "KalmanSmoother.smoother_step")],
      "symbolic normal-form comparison of the value graphs with the textbook recursions", "every recursion of the three filters and the smoother"),
    P("C13", "State space distributions draw the process their name states",
      "LinearGaussianStateSpace simulates states and observations of the given system: first state from N(a0, P0) (prepended or advanced as append_x0 states), later states by c, T, R, Q and observations by d, Z, H of the matching period, with singular covariances allowed; its latent and observed parts have the stated names, dims and lengths. SequenceMvNormal draws each period from its own mean and covariance and its log-probability is the log-likelihood it was given.",
      ["inputs", "configurations"], "all systems, time-varying matrices, steps, dims, append_x0",
      "Tests compare shapes and a few moments; the period used for a matrix, the split and the intercepts do not change shapes.",
      [S + "filters/distributions.py"],
      [("simulation", "_LinearGaussianStateSpace.rv_op"), ("split and names", "LinearGaussianStateSpace.__new__"), ("likelihood", "sequence_mvnormal_logp")],
      "value-graph comparison of scan steps, splits and densities with a specification", "every function of the module"),
    P("C14", "Reading and writing a state space representation touches the named part only",
      "For every matrix name, short or sliced key and matrix kind (fixed or time-varying, vector or matrix): reading returns exactly the named matrix or slice, without its time dimension when it does not vary; writing replaces exactly that part and keeps every other entry, name and shape; wrong names, ranks and dimensions are refused and right ones accepted; a copy can be changed without changing its source.",
      ["inputs", "histories"], "all keys, values and sequences of reads, writes and copies",
      "Tests set and get a few keys; wrong slices of other matrices, shapes kept from before and shared tables show up after other sequences.",
      [S + "core/representation.py"],
      [("keys and slices", "__getitem__ / __setitem__ / _add_time_dim_to_slice"), ("shapes", "_update_shape / _validate_matrix_shape / _check_provided_tensor"), ("copy", "PytensorRepresentation.copy")],
      "value-graph and effect comparison of every method with a specification", "every method, all key and matrix kinds"),
    P("C15", "A state space model enters a PyMC model with every part in its own place",
      "build_statespace_graph replaces each registered parameter and data placeholder by the model variable of the same name, and refuses when one is missing; the filter receives the nine matrices in their roles, the data with missing values marked, and the given settings; filtered, predicted, smoothed and observed outputs are registered under their own names and dims; the likelihood is the filter's. Data of the wrong kind or shape are refused, the time index is taken from the data, and settings and coords of the fit are remembered for later use.",
      ["models", "inputs", "configurations"], "all models, data containers, filters and options",
      "Tests build a few models with one kind of data; swapped outputs or settings dropped on the way keep all shapes.",
      [S + "core/statespace.py", S + "utils/data_tools.py", S + "utils/constants.py"],
      [("insertion", "_insert_random_variables / _insert_data_variables"), ("graph", "build_statespace_graph"), ("data", "register_data_with_pymc / mask_missing_values_in_data"), ("name tables", "utils/constants.py")],
      "value-graph comparison with a specification; constant tables evaluated", "every function involved in building the graph"),
    P("C16", "Sampled trajectories, matrices and responses belong to the fitted model",
      "Conditional, unconditional, matrix and impulse-response sampling rebuild the model of the fit with its data, coords, exogenous data, missing-value marker and jitter, and sample from the requested group: filtered, predicted and smoothed trajectories use their own moments, observed ones are mapped through d, Z and H; unconditional trajectories have the requested length and dims; each requested matrix comes back under its requested name; impulse responses start from the requested shock. Unknown groups and contradictory options are refused.",
      ["inputs", "configurations", "models"], "all groups, options, models with or without exogenous data and measurement error",
      "Tests look at the names and shapes of the result of a few models.",
      [S + "core/statespace.py", S + "core/compile.py"],
      [("conditional", "_sample_conditional"), ("unconditional", "_sample_unconditional / compile_statespace"), ("matrices", "sample_statespace_matrices"), ("responses", "impulse_response_function")],
      "value-graph and effect comparison with a specification", "every sampling method, all branches"),
    P("C17", "Forecasts start at the requested date and use the scenario as given",
      "forecast starts from the requested filter output at the requested start (date, integer position, negative position or last date), its index covers exactly the requested periods or end or the scenario's own index with the data's frequency, and the exogenous data of the fit are replaced by the scenario's, columns matched by name. Starts outside the data, missing, extra or mis-shaped scenario data, mismatched frequencies and contradictory or missing options are refused; valid ones are not.",
      ["inputs", "configurations"], "all index kinds, starts, ends, scenarios and options",
      "Tests cover a grid of index kinds with a few option combinations; off-by-one starts and mis-ordered columns keep shapes.",
      [S + "core/statespace.py"],
      [("dates", "_build_forecast_index / _get_fit_time_index"), ("scenario", "_validate_scenario_data / _finalize_scenario_initialization"), ("simulation", "forecast")],
      "value-graph and effect comparison with a specification (conditions of every refusal included)", "every function involved in forecasting"),
    P("C18", "VARMAX and SARIMAX matrices are those of the ARMA equations",
      "For every order, the matrices built by BayesianVARMAX and BayesianSARIMA (both state structures) put each AR, MA, seasonal and cross-term coefficient at its own lag, difference d and seasonally D times, use squared standard deviations as variances, and start from the stationary mean and covariance when asked to. Every parameter and state has the name, shape, dims and coords of the block it fills; orders with overlapping seasonal and ordinary lags, and names of the wrong number, are refused.",
      ["inputs", "configurations"], "all orders, seasonal orders, numbers of series and options",
      "Tests compare a few orders with statsmodels; index arithmetic that is right for one order is wrong for another.",
      [S + "models/VARMAX.py", S + "models/SARIMAX.py", S + "models/utilities.py"],
      [("VARMAX", "BayesianVARMAX.make_symbolic_graph"), ("SARIMA", "BayesianSARIMA.make_symbolic_graph / make_SARIMA_transition_matrix"), ("names", "make_harvey_state_names / param_info / param_dims / coords")],
      "value-graph and effect comparison of every matrix entry with a specification", "every function of the two models, all orders"),
    P("C19", "ETS matrices are those of the exponential smoothing equations",
      "For every order string or flags, number of series and parameterization, BayesianETS has exactly the level, trend, damping and seasonal terms asked for: the transition, selection, design and initial state entries are those of the innovations form, with alpha, beta and gamma transformed only in the untransformed parameterization, one block per series. Parameters, states, shapes, dims and coords describe these blocks; invalid orders, dampening values and missing seasonal periods are refused.",
      ["inputs", "configurations"], "all orders, flags, numbers of series and options",
      "Tests compare univariate models with statsmodels; multi-series, damped and seasonal combinations take other branches.",
      [S + "models/ETS.py"],
      [("matrices", "BayesianETS.make_symbolic_graph"), ("refusals", "BayesianETS.__init__"), ("names", "param_info / param_dims / coords / state_names")],
      "value-graph and effect comparison of every matrix entry with a specification", "every function of the model, all options"),
    P("C20", "Structural components, their sums and their extraction agree",
      "Each structural component (trend, error, autoregression, time and frequency seasonality, cycle, regression) has the matrices, parameters, states, shocks, shapes, dims and coords of its equations for every option. Adding components keeps each component's block: states and shocks are stacked, observation matrices concatenated, intercepts and error variances added, duplicates refused, in one order everywhere. Extracting the components of a fit takes exactly each component's own states and names them after it.",
      ["inputs", "configurations", "histories"], "all components, options and sums of components in any order",
      "Tests build each component with a few options and a few sums; a block in the wrong place keeps all shapes.",
      [S + "models/structural.py", S + "models/utilities.py"],
      [("components", "make_symbolic_graph / populate_component_properties of each component"), ("addition", "Component.__add__ / _combine_statespace_representations"), ("extraction", "StructuralTimeSeries.extract_components_from_idata")],
      "value-graph and effect comparison of every matrix entry with a specification", "every component, addition and extraction"),
    P("C21", "Models reparametrised or declared by a function are the models written down",
      "vip_reparametrize replaces exactly the requested free Normal and Exponential variables by a drawn part and a deterministic of the same name whose distribution is the original one for every lambda, and refuses observed, unknown or unsupported ones; lambdas are read, set, fitted and truncated for the named variable only. A function decorated with as_model builds, on every call, the model of the arguments, coords and name it is given.",
      ["inputs", "configurations", "histories"], "all variables, lambdas, sequences of calls",
      "Tests sample one reparametrised model and call a decorated function once; a wrong scale or a dropped argument is invisible there.",
      ["pymc_extras/model/transforms/autoreparam.py", "pymc_extras/model/model_api.py"],
      [("reparametrisation", "vip_reparam_node / vip_reparametrize"), ("lambdas", "class VIP"), ("declaration", "as_model")],
      "value-graph and effect comparison with a specification", "every function of the two modules"),
    P("C22", "A prior taken from a posterior has the posterior's means and covariances",
      "prior_from_idata flattens the requested variables, each under its transform, draw by draw in one layout; the multivariate normal prior it builds has the sample mean and covariance of that table; every variable of the result is its own slice of it, with its own shape, dims, coords and name, mapped back through its transform. Arguments of the wrong kind, unknown names and variables named twice are refused.",
      ["inputs", "configurations"], "all posteriors, argument forms, transforms, shapes",
      "Tests use variables of one shape; slices that overlap or are transposed keep total sizes.",
      ["pymc_extras/utils/prior.py"],
      [("arguments", "_parse_args / _arg_to_param_cfg"), ("layout", "_flatten / _mean_chol"), ("prior", "_mvn_prior_from_flat_info")],
      "value-graph and effect comparison with a specification", "every function of the module"),
    P("C23", "The MAP estimate and the Laplace approximation are those of the model",
      "find_MAP maximises the log-density of the given model (with or without Jacobian terms as asked) from the requested start, with the derivatives of that same function in one order of the variables, and returns each variable at its optimum in its own shape. The Laplace approximation is the normal whose mean is that optimum and whose covariance is the inverse of the negative Hessian of the same function there (nearest positive semi-definite if needed); draws, transformed or not, chains, dims, coords, fit and data groups are stored under their own names. fit() passes every option to the method it names and refuses others.",
      ["inputs", "configurations"], "all models, options, backends",
      "Tests optimise one or two small models with symmetric shapes; a Hessian at another point or in another order looks like a valid covariance.",
      ["pymc_extras/inference/find_map.py", "pymc_extras/inference/laplace.py", "pymc_extras/inference/fit.py"],
      [("objective", "scipy_optimize_funcs_from_loss / find_MAP"), ("Hessian", "fit_mvn_to_MAP"), ("draws", "sample_laplace_posterior / laplace_draws_to_inferencedata"), ("dispatch", "fit")],
      "value-graph and effect comparison with a specification", "every function of the three modules; numerical convergence of the optimiser is assumed"),
    P("C24", "SMC and pathfinder target the model and report draws under the right names",
      "sample_smc_blackjax tempers the likelihood of the given model from its prior draws until the temperature is one, keeps one particle layout throughout (ravel, transform, name), records each iteration's diagnostics at its own index, and hands the kernel the options given; fit_pathfinder approximates the model's log-density from a start of that model. Both return draws in the constrained space, each variable with its own shape, dims and coords, for the model passed in.",
      ["inputs", "configurations"], "all models, kernels, particle numbers and options",
      "Tests check approximate posterior means of one model; swapped same-shaped variables and off-by-one diagnostics go unseen.",
      ["pymc_extras/inference/smc/sampling.py", "pymc_extras/inference/pathfinder.py"],
      [("tempering", "inference_loop / build_smc_with_kernel"), ("particles", "blackjax_particles_from_pymc_population / arviz_from_particles"), ("diagnostics", "SMCDiagnostics / add_to_inference_data"), ("pathfinder", "fit_pathfinder / convert_flat_trace_to_idata")],
      "value-graph and effect comparison with a specification", "every function of the two modules; blackjax's own algorithms are assumed"),
    P("C25", "A ModelBuilder predicts from its fit, and saving and loading keeps it",
      "fit samples the model built from the given data and configuration, stores the data as given (rows aligned) and the attributes that identify the model; predictions use the fit's posterior and the new data, and return the requested variable, combined or not; extending the inference data with predictions keeps the fit's own groups. A saved model loads with the same configuration, sampler configuration, data and id, and a file whose id differs is refused. LinearModel is the stated linear regression and StandardScalerDF keeps index and columns.",
      ["inputs", "configurations", "histories"], "all data, configurations and sequences of fit, predict, save and load",
      "Tests run each step once; repeated predictions, other config types and re-ordered indexes take other paths.",
      ["pymc_extras/model_builder.py", "pymc_extras/linearmodel.py", "pymc_extras/preprocessing/standard_scaler.py"],
      [("fit", "ModelBuilder.fit / sample_model"), ("predictions", "sample_posterior_predictive / predict*"), ("persistence", "set_idata_attrs / save / load / id"), ("linear model", "LinearModel")],
      "value-graph and effect comparison with a specification", "every method of the three classes"),
    P("C26", "The table of a model lists each variable, dimension and parameter count",
      "model_table shows every data container, free variable, deterministic, potential and observed variable of the model in its own group exactly once, with its expression (truncated only when asked), every dimension with its current length, and the number of parameters in total.",
      ["inputs", "configurations"], "all models and options",
      "Tests compare the rendering of one model.",
      ["pymc_extras/printing.py"],
      [("rows", "model_table / variable_expression"), ("dims", "dims_expression / _extract_dim_value"), ("counts", "model_parameter_count")],
      "value-graph and effect comparison with a specification", "every function of the module"),
    P("C27", "Approximate Gaussian processes keep the prior and conditional of their kernel",
      "ProjectedProcess and KarhunenLoeveExpansion build the prior of their low-rank approximation (inducing points or leading eigenvectors of the given kernel, mean function included) and the conditional at new points given that prior's own variables, with the stated mean and covariance, jitter, triangular solves, names and keyword arguments; the number of eigenvectors is the smallest that explains the requested variance.",
      ["inputs", "configurations"], "all kernels, means, inputs and options",
      "Tests look at zero-mean processes of one kernel with default options.",
      ["pymc_extras/gp/latent_approx.py"],
      [("inducing points", "ProjectedProcess"), ("eigenvectors", "KarhunenLoeveExpansion"), ("solves", "solve_lower / solve_upper")],
      "value-graph and effect comparison with a specification", "every method of the two classes"),
    P("C28", "Linear solves, spline bases and pivoted factors are those of their definitions",
      "linear_cg runs the preconditioned conjugate gradient recursion on every column of the right-hand side, with its safeguards, stopping rule, rescaling and tridiagonal output, and returns a solution of the shape of the right-hand side. bspline_basis and bspline_interpolation evaluate the clamped uniform basis of the requested number and degree, dense or sparse, with the right types and shapes. pivoted_cholesky follows the pivoted recursion.",
      ["inputs", "configurations"], "all matrices, right-hand sides, preconditioners, knots, degrees",
      "Tests solve one well-conditioned system and compare one spline; shapes, masks and iteration bounds matter elsewhere.",
      ["pymc_extras/utils/linear_cg.py", "pymc_extras/utils/spline.py", "pymc_extras/utils/pivoted_cholesky.py"],
      [("conjugate gradients", "linear_cg / linear_cg_updates"), ("splines", "numpy_bspline_basis / BSplineBasis"), ("Cholesky", "pivoted_cholesky")],
      "value-graph and effect comparison with a specification", "every function of the three modules; rates of convergence and rounding are not decided"),
]

NOT_APPLICABLE = []
