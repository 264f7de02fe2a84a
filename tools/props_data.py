T_OPT = "TLA+/TLC: convex program and reference solver as a specification; recorded solver answers judged by TLC"
N_OPT = ("TLC enumerates the scenario space, the real solver is run to convergence on a covering sample of it, and TLC "
         "decides optimality of every recorded answer against the specification's own solution of the program. Sampled "
         "inputs, not all inputs; trusts the IEEE operator override java/Num.java.")
COV = "regain/covariance/"

prop("C01", "Graphical lasso returns the optimum of its penalised likelihood",
     "For every empirical covariance (also rank-deficient) and every alpha > 0, the converged graphical lasso precision is the "
     "symmetric positive definite minimiser of trace(S K) - logdet K + alpha * sum of absolute off-diagonal entries of K; the "
     "diagonal is not penalised and entries the optimum sets to zero are exactly zero. The estimator gives the same answer from the data "
     "matrix, its covariance_ being the inverse of its precision_.",
     ["inputs", "configurations"], "all data sets, penalties alpha, dimensions, function and class interfaces",
     "The tests run one fit on zeros or on one data set and compare shapes or a handful of numbers.",
     [COV + "graphical_lasso_.py", "regain/prox.py"],
     [("ADMM updates", "graphical_lasso"), ("proximal steps", "prox_logdet, soft_thresholding_off_diagonal")], T_OPT, N_OPT)

prop("C02", "Time-varying graphical lasso returns the optimum for every temporal norm",
     "For every sequence of covariances, alpha, beta, per-time sample counts and temporal penalty (laplacian, l1, l2, linf, node), "
     "the converged precisions are symmetric positive definite and minimise the sum over times of n_t * negative log-likelihood + alpha * "
     "off-diagonal l1 norm + beta * penalty of consecutive differences. Entries that the optimum sets to zero are exactly zero and "
     "covariance_ is the inverse of precision_ at each time.",
     ["inputs", "configurations"], "all data, number of times (also one), sample counts, penalties, temporal norms",
     "The tests fit zeros or a few samples with one parameter set and only compare output shapes.",
     [COV + "time_graphical_lasso_.py", "regain/prox.py", "regain/norm.py", "regain/validation.py"],
     [("consensus ADMM", "time_graphical_lasso"), ("norm/prox pairing", "check_norm_prox")], T_OPT, N_OPT)

prop("C03", "Latent-variable models return an optimal sparse minus low-rank split",
     "For every input, the converged latent (and latent time-varying) graphical lasso returns a sparse part and a positive "
     "semi-definite latent part whose difference is positive definite, and the pair minimises likelihood loss + alpha * off-diagonal "
     "l1 of the sparse part + tau * trace of the latent part + beta and eta times the temporal penalties of each part. The observed "
     "precision reported by the model is precision_ - latent_.",
     ["inputs", "configurations"], "all data, alpha, tau, beta, eta, temporal norms of both parts, sample counts",
     "The tests check only the output shapes of a single configuration.",
     [COV + "latent_graphical_lasso_.py", COV + "latent_time_graphical_lasso_.py"],
     [("ADMM with latent split", "latent_graphical_lasso, latent_time_graphical_lasso")], T_OPT, N_OPT)

prop("C04", "Kernel-weighted models couple exactly the times the kernel says",
     "For every symmetric temporal kernel, norm and sample counts, the converged kernel graphical lasso (with or without "
     "latent part) minimises the likelihood loss + alpha * off-diagonal l1 + sum over time pairs of kernel weight * penalty of the "
     "difference of the two precisions (and the analogous latent terms). A kernel with constant weight beta on consecutive times "
     "only gives the time-varying graphical lasso answer with that beta, and a kernel function is evaluated at the time labels with "
     "its parameter.",
     ["inputs", "configurations"], "all kernels (matrix or function), data, norms, sample counts",
     "The tests run one identity-like kernel and compare output shapes.",
     [COV + "kernel_time_graphical_lasso_.py", COV + "kernel_latent_time_graphical_lasso_.py"],
     [("pairwise consensus", "kernel_time_graphical_lasso, kernel_latent_time_graphical_lasso")], T_OPT, N_OPT)

prop("C05", "Matrix decompositions solve their least-squares programs",
     "For every input matrix (sequence), the converged sparse plus low-rank decompositions return a sparse part and a positive "
     "semi-definite low-rank part minimising the squared distance of their difference to the input + alpha * off-diagonal l1 + tau "
     "* trace (+ the temporal penalties in the time-varying version).",
     ["inputs", "configurations"], "all symmetric inputs and penalties",
     "No test covers the decompositions beyond import.",
     [COV + "latent_time_matrix_decomposition.py", COV + "infimal_convolution_.py"],
     [("ADMM", "latent_time_matrix_decomposition, infimal_convolution")], T_OPT, N_OPT)

prop("C06", "Forward-backward solver descends to the same optimum",
     "For every input and step-size strategy, the forward-backward solver for the time-varying graphical lasso (temporal norm l1 or "
     "laplacian, time_norm 1) starts at the documented initial point (empirical or user-given), never increases its objective from one "
     "iteration to the next (with a fixed step: where the step is below the inverse of the curvature), keeps every precision symmetric positive definite, records the true objective of each iterate, and with a line "
     "search on gamma or on lamda (criteria a, b, c) converges to the minimiser of the time-varying graphical lasso objective. The "
     "jitter vareps adds vareps/2 times the squared Frobenius norm, alpha='max' is the largest off-diagonal covariance, and stop_at ends the run at the first objective within stop_when of it.",
     ["inputs", "configurations", "histories"], "all data, penalties, sample counts, choose, lamda_criterion, gamma, delta, init, vareps",
     "The tests run a few iterations on zeros and look at the shape.",
     ["regain/forward_backward/time_graphical_lasso_.py", "regain/forward_backward/forward_backward.py", "regain/prox.py"],
     [("forward-backward iteration", "tgl_forward_backward"), ("line searches", "choose_gamma, choose_lamda")],
     "TLA+/TLC: objective, start point and optimum specified; recorded iteration histories judged by TLC", N_OPT)

prop("C12", "Proximal operators and norms match their definitions and each other",
     "For every symmetric matrix (batch), vector and threshold (a number or one per time), each proximal operator returns the "
     "unique minimiser of its defining problem: soft thresholding (full, off-diagonal, row-wise), block (group) thresholding, l-infinity, "
     "laplacian, node, log-determinant, trace and one-dimensional fused lasso; zero columns stay finite, inputs are not modified, and the norm that check_norm_prox pairs with "
     "each temporal penalty name is the penalty whose proximal operator is returned.",
     ["inputs"], "all matrices, batches, thresholds, penalty names",
     "The tests pin one or two small examples of a few operators.",
     ["regain/prox.py", "regain/norm.py", "regain/validation.py"],
     [("proximal operators", "regain/prox.py"), ("norm pairing", "check_norm_prox")],
     "TLA+/TLC: proximal operators defined in TLA+ (definitions checked against their variational meaning by a TLC design run); recorded values judged by TLC",
     "TLC enumerates operators and input classes; recorded results on sampled inputs are compared with the specification's definition. "
     "PenaltyDesign checks on a finite grid that the definitions are minimisers. Sampled inputs, not all inputs.")

prop("C07", "Solver reports are honest: history, residuals, stopping, warnings, iteration count",
     "For every run of an iterative solver (function or estimator), the reported history is that of the documented ADMM iteration: each "
     "entry holds the primal and dual residual norms, their tolerances (from tol, rtol) and the objective of that iterate (nan when "
     "compute_objective is off); rho follows update_rho with the given options and scaled duals are rescaled; the run stops at the first iterate "
     "that satisfies both tests (or reaches stop_at within stop_when), otherwise it uses exactly max_iter iterations; it warns of missing "
     "convergence if and only if no stopping test held; n_iter counts the iterations run; a smaller budget reports a prefix, and a run allowed exactly the iterations it needs ends the same way.",
     ["inputs", "configurations", "histories"], "all solvers, penalties, starting points, rho rules, budgets and tolerances",
     "The tests never look at history_, n_iter_ or the warning.",
     [COV + "graphical_lasso_.py", COV + "latent_graphical_lasso_.py", COV + "time_graphical_lasso_.py", COV + "latent_time_graphical_lasso_.py",
      COV + "kernel_time_graphical_lasso_.py", COV + "kernel_latent_time_graphical_lasso_.py", COV + "latent_time_matrix_decomposition.py",
      COV + "infimal_convolution_.py", "regain/update_rules.py"],
     [("ADMM loops", "all solver functions"), ("rho rule", "update_rho")],
     "TLA+/TLC: ADMM iteration as a state machine; trace validation of recorded histories step by step, loop control model-checked exhaustively",
     "Every recorded history entry is matched against one transition of the Admm state machine (the iterative node operator only against the stop/warn rules). "
     "LoopDesign checks the control skeleton for all budgets up to 6. Sampled inputs.")

prop("C08", "Solver controls steer the path, not the answer",
     "For every problem, a converged solver gives the same optimum whatever rho, over-relaxation, starting point or rho-update "
     "options are used, and the reporting options (verbose, return_history, return_n_iter, compute_objective) change nothing except which values "
     "are returned, in the documented order.",
     ["inputs", "configurations"], "all problems and all settings of the solver controls",
     "No test varies the solver controls.",
     [COV + "graphical_lasso_.py", COV + "time_graphical_lasso_.py", COV + "latent_time_graphical_lasso_.py", COV + "kernel_time_graphical_lasso_.py",
      COV + "latent_graphical_lasso_.py", COV + "kernel_latent_time_graphical_lasso_.py", COV + "latent_time_matrix_decomposition.py"],
     [("ADMM loops", "all solver functions")],
     "TLA+/TLC: objective specified in TLA+; recorded pairs of runs differing in one control judged by TLC",
     "TLC enumerates (model, control, penalties) and judges the recorded pairs of answers on the specification's objective. Sampled inputs.")

prop("C09", "Estimators depend on samples only through their groups",
     "For every labelled data set, a fitted graphical-lasso estimator depends on the samples only through the per-class statistics: permuting samples "
     "or relabelling the classes while keeping their order changes nothing, permuting features permutes the result, shifting all samples of a class "
     "changes only location_, and duplicating every sample with penalties scaled alike gives the same precision. classes_ holds the sorted distinct "
     "labels (numbers or strings) and location_ the class means (zero under assume_centered).",
     ["inputs", "configurations"], "all data sets, label values, orders of samples and features",
     "The tests use one data order, integer labels 0..T-1 and centred data.",
     [COV + "graphical_lasso_.py", COV + "latent_graphical_lasso_.py", COV + "time_graphical_lasso_.py", COV + "latent_time_graphical_lasso_.py",
      COV + "kernel_time_graphical_lasso_.py", COV + "kernel_latent_time_graphical_lasso_.py", "regain/forward_backward/time_graphical_lasso_.py"],
     [("grouping of samples", "fit/_fit of each estimator")],
     "TLA+/TLC: metamorphic relations of the estimators specified in TLA+; TLC generates the transformed runs and judges the recorded pairs",
     "TLC enumerates (estimator, transformation, options); recorded pairs of fits on sampled data are judged. Sampled data.")

prop("C10", "Scores and error norms are those of the fitted Gaussian model",
     "For every fitted graphical-lasso estimator and every test set with samples of every class, score is the Gaussian log-likelihood of the test samples under the observed precision "
     "(precision minus latent part) around the training location (per class and weighted by the class's test samples for temporal models, mean per "
     "sample for static ones), mahalanobis uses the same precision and location, get_observed_precision/get_precision return that precision, and error_norm is the "
     "documented (scaled, squared) frobenius or spectral distance between covariances, averaged over time; nothing is modified by asking.",
     ["inputs", "configurations"], "all estimators, training and test sets, norms, scalings",
     "The tests do not call score or error_norm with values.",
     [COV + "time_graphical_lasso_.py", COV + "latent_time_graphical_lasso_.py", COV + "latent_graphical_lasso_.py", COV + "graphical_lasso_.py", "regain/utils.py", "regain/scores.py"],
     [("score", "TimeGraphicalLasso.score"), ("error norms", "error_norm, error_norm_time")],
     "TLA+/TLC: likelihood and norms specified in TLA+; recorded scores judged by TLC",
     "TLC enumerates (estimator, test set class, norm options) and recomputes every recorded score from the data. Sampled data.")

prop("C11", "Estimators carry no hidden history",
     "For every history of fit, set_params, clone, pickle, get_params and score calls on an estimator, what it reports (parameters, fitted attributes, score) is a "
     "function of its current parameters and of the parameters and data of its last fit: refitting equals fitting afresh, parameters stay as given, "
     "fit returns the estimator, the result does not depend on numpy's global random state, and neither the estimators nor the solver functions modify the arrays "
     "and options they are given.",
     ["histories", "inputs"], "all histories of public calls on every covariance estimator and solver function",
     "The tests fit each estimator once on one data set.",
     [COV + "graphical_lasso_.py", COV + "latent_graphical_lasso_.py", COV + "time_graphical_lasso_.py", COV + "latent_time_graphical_lasso_.py",
      COV + "kernel_time_graphical_lasso_.py", COV + "kernel_latent_time_graphical_lasso_.py", COV + "latent_time_matrix_decomposition.py",
      COV + "missing_graphical_lasso_.py", COV + "infimal_convolution_.py", "regain/forward_backward/time_graphical_lasso_.py"],
     [("estimator life cycle", "fit / get_params / score of all estimators")],
     "TLA+/TLC: life cycle state machine; TLC enumerates the histories, recorded replays are validated step by step",
     "All histories up to length 4 (5 in the thorough tier) are enumerated; a seeded sample per estimator is replayed and every step is matched with the state machine.")

prop("C17", "Sparse linear models solve their stated problem",
     "For every design matrix, target, penalty and group structure, lasso, group_lasso and group_lasso_overlap return the minimiser of half the squared residual plus "
     "lamda times the (sum of group) norms once converged, glopridu returns the minimiser of the mean squared residual plus tau times the latent overlapping-group norm, and "
     "the regressor/classifier built on them fit that problem on centred data per target, set the intercept accordingly and predict with it, also with normalize (columns of unit length) and n_jobs. The "
     "reported history is that of the documented ADMM iteration and a run stops at the first iterate that passes the test.",
     ["inputs", "configurations", "histories"], "all data, penalties, partitions and overlapping groups, rho, over-relaxation, tolerances",
     "The tests only look at the size of coef_ for one design.",
     ["regain/linear_model/lasso_.py", "regain/linear_model/group_lasso_.py", "regain/linear_model/group_lasso_overlap_.py", "regain/wrapper/paspal/glopridu.py"],
     [("ADMM for (group) lasso", "lasso, group_lasso, group_lasso_overlap"), ("projected Newton prox", "glo_prox, glopridu_algorithm"),
      ("estimators", "GroupLassoOverlap, GroupLassoOverlapClassifier")],
     "TLA+/TLC: problems, ADMM iterations and reference optima specified in TLA+; recorded solutions and histories judged by TLC",
     "TLC enumerates (solver, shape, groups, penalty, options); solutions are compared with the optimum the specification computes, the first 25 history entries with its iteration. Sampled data.")

GLM = "regain/generalized_linear_model/"
prop("C15", "Static GLM graphical models solve their penalised regressions",
     "For every data matrix and penalty, each row of Gaussian_GLM_GM and PoissonGraphicalModel is the minimiser of the mean negative log-likelihood of one variable "
     "given the others plus alpha times the l1 norm, IsingGraphicalModel minimises the same sum over one symmetric matrix with zero diagonal (or solves the "
     "l1 logistic regressions in logistic_regression mode), and the rows are merged as documented: the mean of the two estimates of an edge (union), zeroed "
     "unless both are non-zero (intersection), with unit diagonal. Runs cut short by max_iter or tol return the iterate of the proximal gradient method with the given step; intercept=True adds a constant variable; history holds the iterates of every regression with their objectives and step lengths, which never increase the objective.",
     ["inputs", "configurations"], "all data sets, penalties, reconstructions, step sizes, tolerances",
     "The tests only fit zero data.",
     [GLM + "base.py", GLM + "glm_gaussian.py", GLM + "glm_poisson.py", GLM + "glm_ising.py"],
     [("row solvers", "fit_each_variable, _fit"), ("reconstruction", "build_adjacency_matrix"), ("estimators", "Gaussian_GLM_GM, PoissonGraphicalModel, IsingGraphicalModel")],
     "TLA+/TLC: neighbourhood regressions, their optimum and iteration specified in TLA+; recorded fits judged by TLC",
     "TLC enumerates (family, reconstruction, penalty, run length, data class) and compares every recorded matrix with the optimum or iterate it computes. Sampled data; step sizes below 1/L.")

prop("C16", "Temporal Ising and Poisson models solve their joint problem",
     "For every balanced labelled data set, penalty and temporal kernel, the temporal Ising solver returns the minimiser of the summed pseudo-likelihood losses plus alpha times the "
     "off-diagonal l1 norms plus the kernel-weighted penalties psi on the differences of all pairs of times, the temporal Poisson solver returns a fixed point of its coupled "
     "neighbourhood regressions, both symmetric with the documented diagonal; the reported objective is the one minimised, and TemporalIsingModel/TemporalPoissonModel "
     "apply the solver to the samples grouped by sorted label with the given kernel matrix, kernel function or none, and refuse kernels for another number of times; stop_at ends a run at the first objective within stop_when of it.",
     ["inputs", "configurations"], "all balanced data sets, penalties, kernels, temporal norms, rho",
     "The tests only fit zero data.",
     [GLM + "glm_time_ising.py", GLM + "glm_time_poisson.py", GLM + "glm_ising.py", GLM + "glm_poisson.py"],
     [("ADMM over times", "_fit_time_ising_model, _fit_time_poisson_model"), ("estimators", "TemporalIsingModel.fit, TemporalPoissonModel.fit")],
     "TLA+/TLC: the joint problem and a primal-dual reference specified in TLA+; recorded fits judged by TLC",
     "TLC enumerates (model, norm, times, kernel, penalty, labels) and compares the objective of every recorded solution with the optimum it computes (Ising) or re-derives the fixed point (Poisson, squared penalty or decoupled times). Sampled data.")

prop("C18", "Structure measures count edges correctly",
     "For every pair of true and predicted matrices (or batches), structure_error counts an entry as an edge iff it is non-zero whatever its sign (after the optional threshold on "
     "the prediction), counts over all entries or over the off-diagonal ones only, and derives every rate from those counts with the documented conventions for empty denominators; mcc "
     "and average precision are those of the node pairs; mean_structure_error reports mean and standard deviation of the same measures. Inputs are not modified.",
     ["inputs"], "all pairs of matrices and batches, signs, thresholds, empty and complete graphs",
     "The tests check two pairs of 3x3 matrices.",
     ["regain/utils.py"], [("structure measures", "structure_error, mean_structure_error")],
     "TLA+/TLC: measures specified over sets of cells; TLC enumerates all pairs of 3-node graphs and classes of larger ones and judges the recorded values",
     "All 64 pairs of 3-node graphs (all option combinations in the thorough tier) plus sampled larger graphs; every measure recomputed from the definition.")

prop("C19", "Likelihood and information criteria follow their definition",
     "For every (batch of) empirical covariance and precision, log_likelihood is log det K minus <S,K> per matrix (minus infinity when det K is not positive), and BIC, EBIC, EBIC_m and "
     "their _t versions subtract the documented penalty per non-zero off-diagonal entry from the (summed) log-likelihood, for every n and epsilon; inputs are not modified.",
     ["inputs", "configurations"], "all matrices, sparsity patterns, batch sizes, n, epsilon",
     "The tests evaluate the criteria on identity matrices.",
     ["regain/scores.py", "regain/math.py"], [("criteria", "BIC, EBIC, EBIC_m, BIC_t, EBIC_t, EBIC_m_t"), ("log-likelihood", "log_likelihood, batch_logdet")],
     "TLA+/TLC: criteria specified in TLA+; recorded values judged by TLC",
     "TLC enumerates (criterion, pattern, definiteness, size, arguments) and recomputes every value. Sampled matrices.")

prop("C28", "Helper functions keep their contracts",
     "For every argument, the helpers do what they say: convert_data_to_2d stacks the classes and labels each sample with its class, flatten/upper_to_full/compose/threshold/retain_top_n/"
     "normalize_matrix/error_rank and the batch diagonal helpers return the defined value, the definiteness tests agree with the eigenvalues, ensure_posdef returns a positive definite matrix and "
     "changes only the diagonal of matrices that need it, saving then loading (pickle, network files) gives the object back, suppress_stdout restores stdout even on exceptions, "
     "update_gamma, top_n_indexes, batch_logdet and display_topics return the defined value, init_logger gives a logger that writes what it is asked to, and the packaged datasets are loaded whole, in "
     "the order of their files, with one column per name.",
     ["inputs"], "all arguments: nesting, ragged classes, definite/indefinite matrices, file extensions, thresholds",
     "The tests call four of the helpers on one argument each.",
     ["regain/utils.py", "regain/math.py"], [("helpers", "convert_data_to_2d, flatten, upper_to_full, read_network, write_network, ensure_posdef, ...")],
     "TLA+/TLC: helper contracts specified in TLA+; recorded results judged by TLC",
     "TLC enumerates (function, argument class, repetition); every recorded result is compared with the specified value. Sampled arguments.")

prop("C21", "Gaussian synthetic data follow the model they return",
     "For every size, time horizon, update rule and option, and for the modes None, my, sin, fixed_sparsity, sincos, gp, fede, sklearn, ma, mak and user functions, make_dataset returns T symmetric precisions "
     "with thetas_observed = thetas - ells positive definite and ells positive semidefinite of at most n_dim_lat rank (modes with a latent part), class t of X is an independent sample of N(0, thetas_observed[t]^-1), "
     "X stacks data and y labels each sample with its time for both time axes, l1/l2 updates change at most the announced amount, keep_sparsity and fixed_sparsity never add edges, a seeded generator is reproducible, "
     "and unknown modes, distributions and updates raise ValueError. The Meinshausen-Yuan generators called directly also return the covariances of the observed precisions and samples drawn from them, time by time.",
     ["inputs", "configurations"], "all sizes, horizons, modes, update rules, seeds",
     "The tests only call each mode once with the default sizes and read three attributes.",
     ["regain/datasets/base.py", "regain/datasets/gaussian.py", "regain/datasets/kernels.py"], [("make_dataset", "_gaussian_case and the gaussian generators")],
     "TLA+/TLC: latent Gaussian model specified in TLA+; generated datasets judged by TLC",
     "TLC enumerates modes x updates x horizon x latent dimension x axis x options; every generated model is judged (definiteness, rank, step sizes, support) and large samples are compared with the model at six standard errors.")
prop("C22", "Ising, Poisson and multi-class synthetic data follow the model they return",
     "For every graph type, size, horizon and seed, the generated networks are symmetric without self loops, take the announced weights, and differ between consecutive times (or from the first class) in at most the announced "
     "number of edges; the samplers (MH, CFTP, DIRECT, constrained MH) draw from the Boltzmann distribution of the network, thresholds and beta given; local Poisson data have the mean, variance and covariance of the network and "
     "Gibbs Poisson data the specified conditionals; Ising data take only the two responses and Poisson data only counts; X stacks data and y labels it.",
     ["inputs", "configurations"], "all networks, thresholds, responses, sampling methods, horizons, seeds",
     "The tests generate one tiny Ising and one tiny Poisson dataset with T=1 and check nothing about them.",
     ["regain/datasets/ising.py", "regain/datasets/poisson.py", "regain/datasets/multi_class.py", "regain/datasets/base.py"], [("samplers", "ising_sampler, poisson_sampler, make_multiclass_dataset")],
     "TLA+/TLC: Boltzmann and local Poisson models specified in TLA+; recorded samples and networks judged by TLC",
     "TLC enumerates the calls, computes the exact distribution over all states of small networks (energies, conditionals and CFTP bounds exactly) and compares recorded frequencies at six standard errors.")

prop("C13", "Faulty input is refused, equivalent input gives the same model",
     "For every estimator, fitting data with a NaN or infinite entry, the wrong number of dimensions, text, no samples, (for covariance and temporal models) a single feature, labels that are missing, NaN, two-column or not one per sample, "
     "discriminant analysis with one class or a one-sample class, temporal Ising data without exactly two values or temporal Poisson data with negative counts raises an exception and leaves nothing fitted; so do unknown temporal penalties, "
     "optimisation modes and step strategies, kernels whose size is not the number of classes and an automatic kernel parameter without a kernel function. Admissible data give the same model whether passed as list, data frame, integers, "
     "float32, Fortran-ordered, strided, read-only or (for the decomposition) with time on the last axis, and are not modified.",
     ["inputs", "configurations"], "all estimators, positions of the fault, representations",
     "No test passes faulty data or any representation other than a C-ordered float array.",
     ["regain/validation.py", "regain/covariance", "regain/generalized_linear_model", "regain/linear_model", "regain/discriminant_analysis.py"], [("input validation", "check_input, check_norm_prox, check_X_y/check_array calls in fit")],
     "TLA+/TLC: admissible inputs specified in TLA+; outcome of every fault and representation judged by TLC",
     "TLC enumerates estimator x fault / meaningless option / representation; the recorded outcome is judged against the admissibility specification.")

prop("C14", "Missing-data graphical lasso is a fixed point of its EM iteration",
     "For every data matrix and every pattern of missing entries (none, single entries, whole columns' parts, whole rows), missing_graphical_lasso and MissingGraphicalLasso keep the observed entries, and at convergence every imputed entry is the "
     "conditional expectation given the observed entries of its row under the returned precision and the column means, the returned covariance is the expected second moment (1/n) sum E[x x'] and the precision is the graphical lasso optimum of it; "
     "without missing entries this is the plain graphical lasso of X'X/n. The history holds the log-likelihood and its change per iteration, the run stops at the first change below tol and warns if and only if there was none. Function and class take the same steps under the same options (rho, over-relaxation, rho updates, verbosity), and the M step is the graphical lasso with those options.",
     ["inputs", "configurations", "histories"], "all data, missingness patterns, penalties, budgets",
     "No test runs the missing-data estimator.",
     ["regain/covariance/missing_graphical_lasso_.py"], [("EM", "compute_cs, compute_mean, compute_empirical_covariance, missing_graphical_lasso")],
     "TLA+/TLC: EM iteration specified in TLA+; recorded fits judged by TLC",
     "TLC enumerates missingness pattern x data x penalty x interface x budget; each recorded fit is judged against the E step, the optimality conditions and the stopping rule.")

prop("C20", "Stability selection picks the densest stable candidate",
     "For every estimator, parameter grid, number of repetitions and sampling size, GraphicalModelStabilitySelection fits every combination of the grid, from the most to the least regularised, on n_repetitions random subsamples without repetition "
     "of the announced size (default int(min(10 sqrt n, n-10)), rounded down to a multiple of the number of classes, balanced over the classes); the instability of a candidate is the mean over node pairs (and times) of 2 xi (1-xi), "
     "replaced by its running maximum along the path; values above 0.05 are discarded and the first candidate with the largest remaining value is selected (the sparsest one when none remains; in gstars mode the most graphlet-stable one between the two bounds) and "
     "refitted on all the data; a callable refit chooses the candidate itself. Scores are those of the fitted candidates on the samples left out (and, if asked for, on the subsample), whatever the number of jobs. A second fit does not depend on the first.",
     ["inputs", "configurations", "histories"], "all estimators, grids, subsamples, instability profiles",
     "No test runs the stability selection; its outcome depends on the whole sequence of fits.",
     ["regain/model_selection/stability_optimization.py"], [("selection", "GraphicalModelStabilitySelection, global_instability, upper_bound, graphlet_instability")],
     "TLA+/TLC: selection along the path model-checked in TLA+; every fit of recorded searches judged by TLC",
     "The path/selection state machine is checked exhaustively for all instability sequences up to length 5; recorded searches (every subsample and graph) are judged by TLC.")

prop("C26", "Discriminant analysis is Bayes' rule on the estimated densities",
     "For every temporal estimator, set of class labels (any order, numbers or strings), priors and test data, DiscriminantAnalysis assigns class g the prior (given, or its frequency), the mean and covariance the estimator reports for it "
     "(class means and inverse precisions when it reports none; the precision made positive definite through its diagonal with ensure_posdef, without changing the estimator); for positive definite covariances the decision values are the log joint densities (their difference for two classes), the "
     "probabilities their normalisation, the prediction the original label of a most probable class, and the score the weighted accuracy. Fitting again forgets the previous data.",
     ["inputs", "configurations", "histories"], "all estimators, label sets and orders, priors, definite/indefinite precisions, test points",
     "The only test fits one estimator and looks at nothing else.",
     ["regain/discriminant_analysis.py", "regain/utils.py"], [("Bayes rule", "DiscriminantAnalysis.fit, _decision_function, score; PrecomputedDiscriminantAnalysis")],
     "TLA+/TLC: Gaussian Bayes rule specified in TLA+; recorded fits and predictions judged by TLC",
     "TLC enumerates estimator x labels x order x priors x definiteness x size and recomputes every decision value, probability and label.")

prop("C24", "G-Wishart inference finds the mode and score of a graph",
     "For every data set, graph and prior, precision_selection and GWishartFit return the positive definite precision with exactly the zeros of the graph whose inverse agrees with the (posterior) covariance on the edges and the diagonal; "
     "GWishartScore returns the BIC score or the Laplace approximation (diagonal or full Hessian) of the log marginal likelihood of the graph, with its log-likelihood, posterior parameters and degrees of freedom; mk_all_ugs lists every undirected graph once, by size; "
     "markov_blankets and score_blankets return each node's neighbourhoods and the softmax of their lasso scores; BayesianGraphicalLasso returns the mode of the best-scoring graph it can assemble from the neighbourhoods of the graphical lassos.",
     ["inputs", "configurations"], "all data, graphs, priors, scoring methods, fitting modes, penalties",
     "No test imports the module.",
     ["regain/bayesian/gwishart_inference.py", "regain/bayesian/_laplace_approximation.py"], [("G-Wishart", "GWishartScore, precision_selection, bayesian_graphical_lasso, mk_all_ugs, markov_blankets")],
     "TLA+/TLC: G-Wishart mode, Laplace score and graph enumeration specified in TLA+; recorded results judged by TLC",
     "TLC recomputes modes by iterative proportional fitting, Hessians, scores and lasso paths, and enumerates all graphs on up to 4 nodes and all graphs the search can reach.")

prop("C23", "Wishart-family distributions are exact and conjugate",
     "For every dimension, degrees of freedom and positive definite scale, WishartDistribution, InverseWishartDistribution and NormalInverseWishartDistribution return the exact log density and density of any covariance (and mean), the mean and the mode "
     "(no mode for a Wishart with nu <= p + 1), samples of the requested number and shape with the right first two moments, and for the normal-inverse-Wishart the marginals, the predictive density and the posterior: posterior density = prior x Gaussian likelihood / evidence at every point, "
     "the posterior of two batches in sequence is the posterior of all the data, and the prior is left unchanged. lognstat inverts the moments of a lognormal, lognormal_pdf/logpdf, log_lik_frob and t_mvn_logpdf are the stated log densities summed over samples and times.",
     ["inputs", "configurations", "histories"], "all dimensions, parameters, evaluation points, data batches and their order",
     "No test imports the module.",
     ["regain/bayesian/wishart_distribution_.py", "regain/bayesian/stats.py"], [("distributions", "WishartDistribution, InverseWishartDistribution, NormalInverseWishartDistribution"), ("statistics", "lognstat, lognormal_pdf, log_lik_frob, t_mvn_logpdf")],
     "TLA+/TLC: densities and conjugate update specified in TLA+; recorded values and samples judged by TLC",
     "TLC enumerates dimension x degrees of freedom x scale x precision x batch sizes, recomputes every density, chains one-step predictive densities into the evidence and checks Bayes' rule, sequential = batch and sample moments (six standard errors).")

prop("C25", "Wishart process samplers leave their posterior invariant and report their best sample",
     "For every kernel, scale factor and likelihood, GWP_construct builds V_t = L (sum_i u_i(t) u_i(t)') L', sample draws independent Gaussian processes with the given kernel, and predict interpolates the processes by their conditional mean; elliptical_slice, sample_hyper_kernel and sample_ell leave the posterior of the "
     "processes, kernel parameter and scale factor invariant (proposals uniform in a bracket that shrinks to the rejected points, accepted above an exponential slice; Metropolis acceptance with the prior and proposal ratio), so that the averages of the whole fit chain are the posterior ones. "
     "WishartProcess keeps n_iter - burn_in samples (burn_in = n_iter // 4 by default) with their log-likelihoods, reports the best one as u_map, Lmap, lmap, D_map, covariance_ and its inverse precision_, centres by class means, scores unbalanced classes by the Gaussian log-likelihood, keeps the scale at the Cholesky factor of the pooled covariance when learn_ell is False, "
     "and is reproducible from the seed.",
     ["inputs", "configurations", "histories", "schedules"], "all kernels, dimensions, likelihoods, sampler states, chains, class sizes and labels",
     "No test imports the module; invariance of a sampler is a statement about its transition distribution.",
     ["regain/bayesian/wishart_process_.py", "regain/bayesian/sampling.py", "regain/bayesian/gaussian_process_.py"], [("transitions", "elliptical_slice, sample_hyper_kernel, sample_ell"), ("chain", "fit, predict, WishartProcess"), ("construction", "GWP_construct, sample")],
     "TLA+/TLC: slice step as a transition system and stationary distribution in TLA+; recorded traces, replicates and chains judged by TLC",
     "Every proposal of recorded slice steps is checked against the bracket machine; replicates started from the exact target and whole chains are compared with closed-form or quadrature averages computed by TLC (six or seven standard errors).")

prop("C27", "Similarity models couple the clusters of their own solution",
     "Without a given kernel, SimilarityTimeGraphicalLasso, SimilarityLatentTimeGraphicalLasso and SimilarityTemporalIsingModel that stop without a warning return a fixed point: the returned precisions are those of the kernel model whose kernel is 1 between times of the same cluster plus a squared exponential (length beta) of the lag, "
     "where the clusters are the n_clusters complete-linkage clusters (default: one per time) of the returned precisions under the distance psi (off-diagonal l1 for the Ising model); each round fits the kernel model of the clusters of the precisions it starts from, the first one those of init; similarity_matrix_, which transform returns, is 1 - distance / largest distance. With a given kernel (matrix or function) they are the kernel model, and a kernel for another number of times is refused. "
     "graph_k_means returns the kernel of a k-means run of at most max_iter rounds from some k different graphs, and warns iff the labels did not settle; otherwise every graph is in the cluster of its first nearest representative, representatives have the edges common to all members, distances count differing entries by halves, also for duplicate graphs.",
     ["inputs", "configurations", "histories"], "all data, numbers of clusters, norms, length scales, graphs",
     "No test fits a similarity model or clusters graphs.",
     ["regain/covariance/kernel_time_graphical_lasso_.py", "regain/covariance/kernel_latent_time_graphical_lasso_.py", "regain/generalized_linear_model/glm_time_ising.py", "regain/clustering.py"],
     [("clusters", "SimilarityTimeGraphicalLasso, SimilarityLatentTimeGraphicalLasso, SimilarityTemporalIsingModel, precision_similarity"), ("graph k-means", "graph_k_means, get_representative, compute_distances")],
     "TLA+/TLC: complete linkage and k-means fixed points specified in TLA+; recorded fits judged by TLC",
     "TLC clusters the recorded precisions itself, selects the kernel model of that partition among all partitions, and enumerates all labellings of up to 5 graphs for k-means.")
