GVN = "static analysis: abstract interpretation of the AST into gated value numbers, algebraic normal-form comparison with a reference definition"
NOTE = ("Decided from source for all inputs in the value domain (real arithmetic plus +-inf/nan bookkeeping); trusts the analyser, the models of numpy/jax/numpyro "
        "operations and the reference definitions in specs/. Rounding is outside the domain; constructs outside the modelled language are reported as undecided, never as violations.")
A = "gwinferno/pipeline/analysis.py"
P = [
 dict(id="C01", title="Importance-sampling estimators of evidence and detection efficiency",
  statement="For any importance weights (linear or log convention), the per-event log Bayes factor is the log of the mean weight over that event's samples, and the log "
   "detection efficiency is the log of the weight sum over found injections divided by the total number of injections generated. The accompanying log effective sample sizes "
   "are those of the same Monte Carlo sums ((sum w)^2/sum w^2 per event; mu^2 over the estimated variance of mu for injections) and each variance is 1/N_eff - 1/N. "
   "The linear and log conventions give the same three quantities.",
  quant="all weight arrays, sample counts, injection totals, both weight conventions",
  why="The quantities are functions of arbitrary arrays; the tests only run the likelihood end to end on one simulated catalogue with random weights and never compare values.",
  files=[A], mech=[("per_event_log_bayes_factors", A), ("detection_efficiency", A)], tech=GVN, note=NOTE),
 dict(id="C02", title="Hierarchical likelihood factor, recorded quantities and cuts",
  statement="For every setting of its options, the likelihood adds exactly one factor to the target density: minus Nobs times the log detection efficiency plus the sum of log Bayes "
   "factors, with the requested selection-marginalisation correction, and the lowest finite float whenever a requested convergence cut (effective injections >= 4 Nobs, every event's effective "
   "samples > Nobs, or total log-likelihood variance <= 1) fails or the value is not a number. The recorded per-event and selection diagnostics, the latent subpopulation assignment, and the merger "
   "rate (Gamma(Nobs) draw over detection efficiency over hypervolume in Gpc^3 times observing time) are those of the same weights, and incompatible cut options are rejected.",
  quant="all weights, all combinations of the options, symbolic Nobs/Tobs/hypervolume", over=["inputs", "configurations"],
  why="There are 2^5 option combinations and the cuts depend on the value of Monte Carlo sums; the existing tests exercise a few combinations on a random catalogue and only look at site names or finiteness.",
  files=[A], mech=[("hierarchical_likelihood", A)], tech=GVN, note=NOTE),
 dict(id="C03", title="Posterior-predictive draws follow the population weights",
  statement="When posterior-predictive checks are requested, for every event one posterior sample is drawn among that event's samples and one prediction among the found injections, each with "
   "probability proportional to its weight, with weights zeroed outside the requested primary and secondary mass bounds and independent keys per event. The values recorded for each parameter are those "
   "of the drawn sample and injection, the recorded subpopulation fractions are each subpopulation's share of the weight of the drawn sample, and nothing is recorded when the check is not requested.",
  quant="all weights and data, all event indices and parameter names, both weight conventions", over=["inputs", "configurations"],
  why="The index-to-value association must hold for every event and parameter; tests only check that sites exist.",
  files=[A], mech=[("hierarchical_likelihood, posterior_predictive_check branch", A)], tech=GVN, note=NOTE),
 dict(id="C04", title="One-dimensional B-spline models evaluate their spline at the given samples",
  statement="Every one-dimensional B-spline population model returns, for posterior samples and for injections separately, its basis evaluated at exactly those samples and projected on the coefficients "
   "it is called with, zero outside the model's domain, using the number of splines, order, basis, range and normalisation option it was built with. The redshift model multiplies the spline density by "
   "dVc/dz/(1+z) with its normalisation being the integral of the very function it evaluates over the redshift grid, and effective-spin or mass models use their documented domains.",
  quant="all samples, coefficients, numbers of splines, degrees, ranges, bases", over=["inputs", "configurations"],
  why="Tests evaluate a model on one sample set and check shape or a loose integral; the association of samples, basis and domain must hold for any.",
  files=["gwinferno/models/bsplines/single.py"], mech=[("Base1DBSplineModel and subclasses", "gwinferno/models/bsplines/single.py")], tech=GVN, note=NOTE),
 dict(id="C05", title="Separable B-spline models are products of their component densities",
  statement="A multi-parameter B-spline model's density on posterior samples and on injections is the product of its one-dimensional component densities, each evaluated on the samples of its own "
   "parameter and with its own coefficients; identically distributed variants use one set of coefficients for both components and independent ones two. Mass and mass-ratio models apply the component "
   "options (range, order, basis, normalisation) given for that component.",
  quant="all samples and coefficients, all construction options", over=["inputs", "configurations"],
  why="A swapped sample array, coefficient vector or option of one component leaves shapes unchanged, which is all the tests look at.",
  files=["gwinferno/models/bsplines/separable.py"], mech=[("BSplineIID*/BSplineIndependent*/BSplinePrimary*", "gwinferno/models/bsplines/separable.py")], tech=GVN, note=NOTE),
 dict(id="C06", title="Closed-form densities are normalised and vanish outside their support",
  statement="The power law, truncated (log-)normal, beta and logistic building blocks return the analytically normalised density inside their support and zero (or the requested floor) outside it, for every "
   "index and bound, including the power law with index -1. The logistic, soft power-law and mass-smoothing windows are the documented functions: the smoothing window is zero below, one above, and the "
   "documented interpolation inside the smoothing interval.",
  quant="all real arguments and parameters, including boundary values",
  why="Normalisation and support hold for a continuum of parameters and special cases (index -1, truncation edges); tests integrate a couple of parameter values.",
  files=["gwinferno/distributions.py"], mech=[("powerlaw_pdf, truncnorm_pdf, betadist, logistic_unit, log_logistic_unit, powerlaw_logit_pdf, smooth", "gwinferno/distributions.py")], tech=GVN, note=NOTE),
 dict(id="C07", title="Parametric and spline-perturbed population models are the documented densities",
  statement="The parametric mass, spin-magnitude, spin-tilt and redshift models return the documented product or mixture of the closed-form densities with each parameter used for the component it names. "
   "Redshift models divide by the integral, over the redshift grid, of exactly the function they evaluate, and spline-perturbed models multiply the parametric density by the exponential of the spline "
   "evaluated at the same samples, with the bounds and order requested.",
  quant="all samples and hyper-parameters, posterior samples and injections", over=["inputs", "configurations"],
  why="Swapped hyper-parameters or a normalisation of a different function keep shapes and finiteness, and agree at symmetric test values.",
  files=["gwinferno/models/parametric/parametric.py", "gwinferno/models/spline_perturbation.py"],
  mech=[("plpeak_primary_pdf, powerlaw_primary_ratio_pdf, spin models, PowerlawRedshiftModel", "gwinferno/models/parametric/parametric.py"),
        ("PowerlawSplineRedshiftModel, PowerlawBasisSpline*", "gwinferno/models/spline_perturbation.py")], tech=GVN, note=NOTE),
 dict(id="C08", title="Distributions: density, cdf, quantile function and draws belong together",
  statement="For every probability distribution the library adds (sine, cosine, power law, redshift power law, smoothed power law, spline), the log density is the normalised one on the requested bounds, "
   "the distribution function is its integral, the quantile function is the inverse of that, and draws are the quantile function of a uniform variate of the requested shape. This holds for every parameter "
   "value, including the power-law index -1 given as a plain number. The spline-coefficient prior is the squared-difference penalty of the requested order scaled by the given precision.",
  quant="all parameter values, bounds, arguments and sample shapes",
  why="Consistency of four functions over a continuum of parameters with special cases (index -1, edges of the support); tests check single parameter values and mostly shapes.",
  files=["gwinferno/numpyro_distributions.py", "gwinferno/models/bsplines/smoothing.py"],
  mech=[("Sine, Cosine, Powerlaw, PowerlawRedshift, PowerlawSmoothedPowerlaw, BSplineDistribution, PSplineCoeficientPrior, cumtrapz", "gwinferno/numpyro_distributions.py"),
        ("apply_difference_prior", "gwinferno/models/bsplines/smoothing.py")], tech=GVN, note=NOTE),
 dict(id="C09", title="Spline bases are the B-splines of their knots, projections normalised",
  statement="Every spline basis (linear, M-spline, log-x, log-y, log-x-log-y, two-dimensional) evaluates, at any position including the knots and edges of the domain, the Cox-de Boor functions of the "
   "requested order on its knots, sums to one on the domain (for the B-spline scaling) and vanishes (or is log 0) outside. Projecting coefficients gives the documented combination divided by its own integral over the domain when "
   "normalisation is requested and the plain combination otherwise, without changing the caller's arrays. Least-squares coefficients solve the normal equations, given interior knots are used where they are given, knot vectors of "
   "the wrong length are rejected, and the natural cubic spline interpolates its points with continuous first and second derivatives and zero curvature at both ends.",
  quant="all positions, domains, coefficients and interpolation points; orders and sizes from a finite list",
  why="Basis identities hold pointwise on a continuum and differ only at knots or domain edges when broken; tests check shapes, or sums at a few grid points.",
  files=["gwinferno/interpolation.py"], mech=[("BasisSpline, BSpline, LogXBSpline, LogYBSpline, LogXLogYBSpline, RectBivariateBasisSpline, NaturalCubicUnivariateSpline", "gwinferno/interpolation.py")], tech=GVN, note=NOTE),
 dict(id="C10", title="Cosmology: distances, volumes and inverses follow the flat Friedmann model",
  statement="The Hubble rate, the comoving-distance and comoving-volume derivatives and their logarithm are those of the flat model with the given densities, and the tables of comoving distance and volume are the trapezoidal integrals of those "
   "derivatives from redshift zero. Converting redshift to comoving or luminosity distance, and luminosity distance to redshift, interpolates in one and the same table, and the table always reaches the largest value asked for: a request "
   "beyond the current table extends it first, whatever was asked before. The provided cosmologies carry the published constants, and non-flat densities are rejected.",
  quant="all redshifts and distances, densities, table steps and extents, scalar and array requests", over=["inputs", "histories"],
  why="Whether a request needs an extension depends on the history of requests and on the largest element asked for; tests compare a few redshifts inside the default table.",
  files=["gwinferno/cosmology.py"], mech=[("Cosmology", "gwinferno/cosmology.py")], tech=GVN, note=NOTE),
 dict(id="C11", title="Effective-spin conversions and priors",
  statement="Effective spin and effective precession are the documented functions of mass ratio, spin magnitudes and tilts, and the conversion between the shape parameters and the mean and variance of a beta distribution is invertible and leaves its "
   "arguments unchanged. The priors on effective spin and precession induced by aligned or isotropic component spins are the published piecewise densities for every maximum spin, each piece used exactly where its conditions hold, "
   "a value on a boundary between pieces getting the mean of its neighbours at its own mass ratio. The conditional precession prior draws component spins uniformly, keeps exactly the physical configurations with the given effective spin, weights "
   "them by the Jacobian and interpolates the kernel estimate normalised on [0, largest precession], and the joint prior is the marginal times the conditional for the same maximum spin.",
  quant="all mass ratios in (0, 1], spins, tilts and maximum spins; scalars and arrays",
  why="Each piece covers an open region of the (spin, mass ratio, maximum spin) space; tests compare a handful of values, almost all at maximum spin one and away from boundaries.",
  files=["gwinferno/preprocess/priors.py", "gwinferno/preprocess/conversions.py"],
  mech=[("chi_effective_prior_from_aligned_spins, chi_effective_prior_from_isotropic_spins, chi_p_prior_from_isotropic_spins, chi_p_prior_given_chi_eff_q, joint_prior_from_isotropic_spins", "gwinferno/preprocess/priors.py"),
        ("chieff_from_q_component_spins, chip_from_q_component_spins, mu_var_from_alpha_beta, alpha_beta_from_mu_var", "gwinferno/preprocess/conversions.py")], tech=GVN, note=NOTE),
 dict(id="C12", title="Reading posterior catalogues: samples, cuts, source-frame masses and priors",
  statement="A catalogue read from posterior files holds, for every event in the metadata and in its order, exactly the requested parameters and their prior density, all of one sample in one column. Samples of an event with primary masses above the "
   "maximum are removed (catalogues other than GWTC-1), and every event is thinned to the same number of distinct samples, the smallest event's and at most ten thousand. GWTC-1 samples are converted from detector-frame masses and luminosity distance to "
   "source-frame masses, mass ratio and redshift. The prior is the normalised redshift prior named for the event times the Jacobians from detector-frame masses, to mass ratio and of the spins, exactly for the parameters requested; "
   "unknown redshift priors and missing metadata are refused.",
  quant="all posterior tables, masses, thresholds, numbers of samples and events; parameter lists and event combinations from a finite list", over=["inputs", "configurations"],
  why="The reader is not covered by the tests, and a sample or prior attached to another sample's column is a well-formed catalogue for every input.",
  files=["gwinferno/preprocess/data_collection.py"], mech=[("load_posterior_dataset, unprocessed_catalog_dict_from_metadata, processed_catalog_dataset_from_dict, append_prior_to_processed_catalog, dl_2_prior_on_z, convert_component_spins_to_chieff", "gwinferno/preprocess/data_collection.py")], tech=GVN, note=NOTE),
 dict(id="C13", title="Reading and resampling injections: found set, draw density and totals",
  statement="Reading an injection campaign keeps exactly the injections found by some search at the given thresholds (for O1/O2 and O4a semi-analytic injections, by the signal-to-noise threshold) or passing an additional cut, with the requested parameters and the density they were drawn "
   "from per requested parameter: the Jacobian to mass ratio exactly when it is requested, that of spin vectors when spins are, and the O4a weights divided out. The total number generated and the analysis time in years travel with them, and a file "
   "without an analysis time is refused. Resampling draws injections with replacement in proportion to model over draw density, as many as their effective number, and sets their new density to the model normalised by the estimated detectable fraction.",
  quant="all injection tables, thresholds and models; parameter lists, searches and file layouts from a finite list", over=["inputs", "configurations"],
  why="The reader is not covered by the tests; which injections count as found and which Jacobians apply depends on thresholds, search columns and parameter lists.",
  files=["gwinferno/preprocess/selection.py", "gwinferno/preprocess/data_collection.py"],
  mech=[("get_o3_cumulative_injection_dict, get_o4a_cumulative_injection_dict, resample_injections", "gwinferno/preprocess/selection.py"), ("load_injection_dataset", "gwinferno/preprocess/data_collection.py")], tech=GVN, note=NOTE),
 dict(id="C14", title="Posterior predictive curves belong to their draw",
  statement="Every table of predictive curves has one row per posterior draw, and row i is the population density of draw i's own parameters evaluated on the returned grid: for masses, the joint density of primary mass and mass ratio with secondaries below the minimum mass removed, "
   "marginalised over the other variable; for spins, the primary and the secondary component each with its own coefficients. Each row is scaled to unit integral (trapezoidal rule on the returned grid) and then multiplied by that draw's rate and population fraction, both one when not given. "
   "Merger-rate curves are rate times fraction times (1+z)^lambda, times the exponential of the spline whose first coefficient is zero where a spline is part of the model.",
  quant="all draws, numbers of draws, parameters, grids, rates and fractions",
  why="A curve scaled or marginalised wrongly, or computed from another draw's parameters, is still a well-formed table; the tests only run these functions.",
  files=["gwinferno/postprocess/calculations.py"], mech=[("calculate_bspline_mass_ppds, calculate_powerlaw_peak_mass_ppds, calculate_peak_logm1_bspline_q_ppds, calculate_beta_spin_mag, calculate_mixture_iso_aligned_spin_tilt, calculate_bspline_spin_ppds, calculate_powerlaw_rate_of_z_ppds, calculate_powerlaw_spline_rate_of_z_ppds", "gwinferno/postprocess/calculations.py")], tech=GVN, note=NOTE),
 dict(id="C15", title="Analysis files, result datasets and options keep what was given",
  statement="Loading an analysis file returns, for every parameter, exactly the posterior samples of the events that are not ignored (any number of them may be, in any order) and the injections saved in it, with their total number, the analysis time and the number of "
   "events actually returned. Converting posterior draws and predictive curves to datasets keeps every variable with its own values, one labelled dimension per axis, the given grids as coordinates, and one curve table per subpopulation under that subpopulation's name "
   "beside the shared redshift curves; the caller's dictionaries are not changed. Command-line options have the documented kind and default, and switching plots off on the command line switches them off.",
  quant="all samples, injections, draws and grids; numbers of events, ignored subsets, ranks and subpopulations from a finite list", over=["inputs", "configurations"],
  why="Rows attached to another event or subpopulation and changed caller dictionaries are well-formed results for every input; no stable test reads these functions.",
  files=["gwinferno/pipeline/utils.py", "gwinferno/preprocess/data_collection.py"],
  mech=[("load_pe_and_injections_as_dict, posterior_dict_to_xarray, pdf_dict_to_xarray, load_base_parser", "gwinferno/pipeline/utils.py"), ("save_posterior_samples_and_injection_datasets_as_idata", "gwinferno/preprocess/data_collection.py")], tech=GVN, note=NOTE),
 dict(id="C16", title="Spline coefficient priors and assembled spline models",
  statement="The priors on mass, mass-ratio, spin and redshift spline coefficients add exactly the named sites: independent normals of the requested width and number, and for each set of coefficients the difference penalty of that same set with its own precision and order; "
   "identically distributed spins share one set, independent ones have two, and the first redshift coefficient is fixed at zero and takes part in the penalty. The coefficients returned are the sampled ones in the documented order, and a mass prior without any number of splines is refused. "
   "The assembled mass, spin and redshift models evaluate, on posterior samples and on injections, the spline densities of those samples' own columns with the requested numbers of splines and bounds, and the maximum-a-posteriori search fits a point-estimate guide of the given model on the given arguments for the requested number of steps and step size.",
  quant="all coefficients, samples, widths, precisions and numbers of splines; penalty orders 1 to 3, named and unnamed", over=["inputs", "configurations"],
  why="A penalty computed from another set of coefficients or a missing one changes the target density only; tests see site names at most.",
  files=["gwinferno/pipeline/utils.py", "gwinferno/models/bsplines/smoothing.py"],
  mech=[("bspline_mass_prior, bspline_spin_prior, bspline_redshift_prior, setup_bspline_mass_models, setup_bspline_spin_models, setup_powerlaw_spline_redshift_model", "gwinferno/pipeline/utils.py"), ("apply_difference_prior", "gwinferno/models/bsplines/smoothing.py")], tech=GVN, note=NOTE),
 dict(id="C17", title="Configured models are the models written in the configuration",
  statement="For a configuration naming a distribution per parameter, running the constructed model draws every hyper-parameter with a prior at its own site, from the named prior with the given parameters, and uses fixed values (zero included, lists as arrays) as they are. The likelihood receives, for posterior samples "
   "and for injections, the sum over all parameters of the log density of that parameter's own distribution, minus the log prior; a parameter declared to share another's model uses that same model, and a mixture has each component's own family and hyper-parameters and the mixing distribution given. "
   "It also receives the redshift model's surveyed hypervolume, the counts and observing time, the flags of the likelihood section and the loaded data, every time the model is run. Missing sections of the file take their defaults, readers do not share state, and models of an unknown kind are refused. A configuration that names a Python file gets the `model` of that very file, wherever it is and whatever it is called.",
  quant="all prior parameters, values and data; configurations from a finite list of shapes (plain, shared, mixtures of two and three, orders of entries)", over=["inputs", "configurations"],
  why="The space of configurations is open-ended and a hyper-parameter or component attached to the wrong site gives a runnable model; no test reads a configuration.",
  files=["gwinferno/pipeline/parser.py", A], mech=[("ConfigReader, load_dist_from_string, load_model_from_python_file", "gwinferno/pipeline/parser.py"), ("construct_hierarchical_model", A)], tech=GVN, note=NOTE),
 dict(id="C18", title="Distributions report their support, shapes and parameters, and survive JAX",
  statement="Every distribution the library adds reports as its support the interval it was asked for (minimum to maximum for the sine, cosine and spline distributions, low to high for the power laws, defaults included; real vectors for the spline-coefficient prior). Its batch shape is the broadcast shape of its "
   "scalar parameters (spline coefficients and tabulation grids are not a batch), its event shape is empty except for the N coefficients of the spline prior, and draws have the requested sample shape followed by the batch shape. The parameters that argument validation inspects are the arguments given, validated as what they are "
   "(positive, real, real vector). An object that JAX has flattened and rebuilt still has its support, shapes, density, distribution function, quantile function and draws.",
  quant="all parameter values, defaults, batched parameters and sample shapes", over=["inputs"],
  why="The defects only show with batched parameters, validation switched on, or inside a JAX transformation; the tests use scalar parameters outside any of these.",
  files=["gwinferno/numpyro_distributions.py"], mech=[("support, __init__, sample, arg_constraints, pytree_data_fields of every distribution", "gwinferno/numpyro_distributions.py")], tech=GVN, note=NOTE),
 dict(id="C19", title="Plots and saved files show each population's own median and 90% band",
  statement="plot_pdf draws the median over draws as a curve and the 5th-to-95th percentile as a band, on the given grid, with the given name, colour, opacity and axis scales, in the current figure. The mass, spin and redshift plotting functions make one figure per quantity holding exactly one curve and band for every population, "
   "each computed from that population's draws of that quantity on that quantity's grid, under its own name and colour, with a legend, the parameter's full range on the axis and the documented scales. With saving on (the default) each figure is written once, with its content, to the result directory under the name of its quantity, component "
   "(1, or 2 for secondary spins) and label; with saving off nothing is written. Every figure is shown with its content and closed, whatever the back end, and figures the caller has open are left alone.",
  quant="all draws, grids, labels, 1-4 populations, colours, components, saving on or off, interactive or headless back ends", over=["inputs", "configurations"],
  why="No test covers plotting, and a plot of the wrong quantity, draw axis or component looks plausible.",
  files=["gwinferno/postprocess/plot.py"], mech=[("plot_pdf, plot_mass_pdfs, plot_spin_pdfs, plot_rate_of_z_pdfs", "gwinferno/postprocess/plot.py")], tech=GVN, note=NOTE),
 dict(id="C20", title="Library, program and examples agree on names, signatures and attributes",
  statement="No part of the package, of the installed command-line program or of the example programs refers to something that is not there: every module and name imported from the package exists; every free name is defined; every call to a function, constructor or method of the package supplies arguments its signature accepts, also when an inherited method "
   "calls a method that a subclass overrides, and also for the model function an example hands to the sampler; every unpacking of a returned tuple expects as many values as are returned; every attribute a method reads from its own object is set by that object's class or a class above it whose methods run; every command-line option that is read is declared; "
   "and the classes and parameters named in the shipped configurations exist.",
  quant="every import, free name, resolvable call, unpacking, attribute read and option read in the package, bin and examples", over=["inputs", "configurations"],
  why="The tests run neither the program, the examples, nor most rarely used methods, so such a reference only fails when a user reaches it.",
  files=["gwinferno/pipeline/utils.py", "gwinferno/postprocess/calculations.py", "gwinferno/models/parametric/parametric.py", "gwinferno/models/spline_perturbation.py", "gwinferno/interpolation.py", "bin/gwinferno_run_from_config.py", "examples/utils.py"],
  mech=[("every module of the package and every script", "gwinferno/__init__.py")],
  tech="AST-based name, signature, attribute and option resolution over the whole repository (scope analysis, class hierarchy analysis with method resolution per concrete class, call-signature binding, return-arity analysis); a use is reported only when exactly one definition can reach it and does not fit",
  note="Calls through parameters, containers, external libraries and decorated wrappers are not judged."),
 dict(id="C21", title="Densities, spline models and likelihood can be traced by JAX",
  statement="Everything between the sampled parameters and the likelihood works on traced values, so that it can be compiled and differentiated: densities, log densities, cdfs and quantiles in their arguments and population parameters, spline models and projections in their coefficients, smoothing priors, the priors and assembled models in their sampled values, "
   "and the likelihood and its estimators in their weights. None of them hands such a value to numpy, scipy or math, converts it with float, int or bool, compares it with the built-in max or min, or lets a Python if, while, assert, and/or or chained comparison decide on it.",
  quant="all population parameters, coefficients and weights, on every option of the interpreted programs", over=["inputs", "configurations"],
  why="With plain arrays such code returns the right numbers, so tests that call the functions directly pass; it fails only when a sampler traces it.",
  files=["gwinferno/distributions.py", "gwinferno/numpyro_distributions.py", "gwinferno/interpolation.py", "gwinferno/pipeline/analysis.py", "gwinferno/models/bsplines/single.py", "gwinferno/models/bsplines/smoothing.py", "gwinferno/models/spline_perturbation.py"],
  mech=[("densities", "gwinferno/distributions.py"), ("projections", "gwinferno/interpolation.py"), ("likelihood", "gwinferno/pipeline/analysis.py")],
  tech="dependence (taint) analysis on the interpreted program: sources are sampled values and the parameters of densities and model calls, sinks are numpy/scipy/math calls, float/int/bool, built-in max/min and Python decisions; shapes, ranks and type tests do not propagate",
  note="numpy functions that only call a method of their argument (np.sum, np.mean, np.shape) trace and are not reported; constructor arguments are data."),
 dict(id="N01", title="Numerical accuracy of quadrature, tables and special functions",
  statement="Normalisation constants, tabulated distances, volumes, distribution and quantile functions and smoothed densities agree with the exact mathematical quantities to a stated relative accuracy over the range of parameters an analysis explores, in single precision.",
  quant="all parameter values an analysis explores", why="The error depends on every parameter value and on rounding; tests sample a few.",
  files=["gwinferno/cosmology.py", "gwinferno/numpyro_distributions.py", "gwinferno/interpolation.py"], mech=[("trapezoid tables", "gwinferno/cosmology.py")],
  na="The error of the trapezoid rule and of single-precision rounding is a function of runtime parameter ranges and of XLA's reassociation; no static argument in reach bounds it. What is decided statically instead is that each normaliser and table integrates exactly the function it belongs to (C04, C07, C08, C10)."),
 dict(id="N02", title="Inference converges to the posterior",
  statement="Sampling a model built by the library with the configured kernel converges to the posterior, and posterior credible intervals are calibrated.",
  quant="all data sets, models and seeds", why="Convergence is an asymptotic statement about random runs.",
  files=["gwinferno/pipeline/analysis.py", "examples/utils.py"], mech=[("NP_KERNEL_MAP", "gwinferno/pipeline/analysis.py")],
  na="A statistical statement about runs of an external sampler on runtime data; static analysis of this repository decides the density that is sampled (C02, C16, C17), not the behaviour of the chains."),
]
