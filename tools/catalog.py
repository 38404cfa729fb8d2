"""Single source for properties.jsonl and MANIFEST.json (run tools/gen.py)."""
ALG = ("value-flow graph of the current source (Python ast + Cython parser) turned into exact "
       "symbolic expressions, identities decided by a normal form (syntactic algebra, no solver, no execution)")

PROPS = []


def P(**k):
    PROPS.append(k)


P(id="P01", title="Link functions, their inverses and derivatives agree",
  statement="For every link function, applying the link after its inverse gives back the linear predictor, and the "
            "reported derivative of the link and the reported first and second derivatives of the inverse are the exact "
            "derivatives of those two functions, for every value in the domain and every link parameter.",
  over=["inputs", "configurations"],
  quant="every link class, every real linear predictor / admissible mean, every real power of the Tweedie link",
  why="The tests compare derivatives by finite differences at a handful of points of four links; an identity over a "
      "continuum of arguments and Tweedie powers is out of reach of samples.",
  files=["src/glum/_link.py"],
  mech=[("link formulas", "src/glum/_link.py: IdentityLink, LogLink, LogitLink, CloglogLink, TweedieLink")],
  technique="symbolic identities on the value-flow graph",
  note="Proof for real arithmetic: " + ALG + ". Floating-point rounding and the clipping of saturated arguments are "
       "outside the claim.")

P(id="P02", title="Family variance, unit deviance, deviance and dispersion agree",
  statement="For every distribution family the derivative of the unit variance and of the unit deviance with respect to "
            "the mean are exact, the unit deviance vanishes at a perfect fit, the total deviance is the weighted sum of "
            "unit deviances, and the dispersion estimates are the weighted Pearson or deviance statistic over the "
            "residual degrees of freedom. The admissible range of observations is the support of the family.",
  over=["inputs", "configurations"],
  quant="every family, every Tweedie power and other family parameter, every observation in the support, every mean, every weight",
  why="Tests sample a few powers and a few observations; the special cases (powers 0,1,2,3, negative responses, y=0, "
      "boundary means) are regions of a continuum.",
  files=["src/glum/_distribution.py", "src/glum/_functions.pyx"],
  mech=[("family formulas", "src/glum/_distribution.py: unit_variance, unit_deviance, unit_deviance_derivative, deviance, dispersion"),
        ("deviance kernels", "src/glum/_functions.pyx: *_deviance")],
  technique="symbolic identities on the value-flow graph and kernel summaries",
  note="Proof for real arithmetic, every family class discovered in the source, by region of the family parameter and "
       "of the observation: " + ALG + ". Fractional binomial responses are exempt from the zero-deviance identity.")

P(id="P03", title="Fitting kernels compute the deviance and its exact derivatives",
  statement="For every family and link the routines that drive fitting return the linear predictor, the mean implied by "
            "the link, the weighted deviance, and per-row quantities that are exactly minus one half of the derivative of "
            "the deviance in the linear predictor and the matching expected or observed curvature; specialised fast "
            "kernels and the generic code agree and are linear in the sample weights.",
  over=["inputs", "configurations"],
  quant="every family x link combination, every family parameter region, every observation, weight, linear predictor and step",
  why="A wrong kernel branch only matters for some observations (zero or negative responses, particular powers) and "
      "fits still converge with a wrong curvature, so sampled fits do not settle it.",
  files=["src/glum/_distribution.py", "src/glum/_functions.pyx"],
  mech=[("fused kernels", "src/glum/_functions.pyx: *_eta_mu_deviance, *_rowwise_gradient_hessian"),
        ("dispatch", "src/glum/_distribution.py: eta_mu_deviance, rowwise_gradient_hessian, _eta_mu_deviance")],
  technique="symbolic kernel summaries compared with the family's own formulas",
  note="Proof for real arithmetic over every family x link x parameter region x observation region; loop bodies of the "
       "Cython kernels are summarised per row: " + ALG + ".")

P(id="P04", title="Log-likelihoods are the family's densities",
  statement="For every family that offers a log-likelihood, it is the weighted sum of log densities: its derivative in "
            "the mean equals minus half the derivative of the deviance divided by the dispersion, the closed-form "
            "families equal their textbook density including the mean-free terms, and requests for which no density "
            "exists are refused.",
  over=["inputs", "configurations"],
  quant="every family with a log-likelihood, every parameter region, observation, mean, weight and dispersion",
  why="The tests compare a few points with other packages; normalising constants cancel in fits and are only "
      "exercised for the sampled dispersions and powers.",
  files=["src/glum/_distribution.py", "src/glum/_functions.pyx"],
  mech=[("densities", "src/glum/_functions.pyx: *_log_likelihood"), ("dispatch", "src/glum/_distribution.py: log_likelihood")],
  technique="symbolic identities on kernel summaries",
  note="Proof for real arithmetic: " + ALG + ". The infinite series of the Tweedie density with power in (1,2) is "
       "treated as one term that must not depend on the mean.")

P(id="P05", title="Information matrices and score rows have the exact likelihood form",
  statement="For every family and link, with or without an intercept, the expected information is J' W J with "
            "W = h'(eta)^2 w/(phi V(mu)), the observed information is its exact second-order counterpart, and row i of "
            "the score matrix is (y_i-mu_i) h'(eta_i) w_i/(phi V(mu_i)) times row i of the design matrix, where h is the "
            "inverse link, V the variance function, w the weights and J the design matrix with a leading column of ones "
            "when an intercept is used.",
  over=["inputs", "configurations"],
  quant="every family x link combination, parameter region, design matrix, response, mean, weights and dispersion",
  why="Standard-error tests compare a few models with another package; a wrong non-canonical term vanishes for "
      "canonical links and near perfect fits and is invisible there.",
  files=["src/glum/_distribution.py", "src/glum/_link.py", "src/glum/_linalg.py"],
  mech=[("information and score", "src/glum/_distribution.py: _fisher_information, _observed_information, _score_matrix"),
        ("sandwich products", "src/glum/_linalg.py: _safe_sandwich_dot, _safe_lin_pred")],
  technique="linear-algebra normal form of the value-flow graph",
  note="Proof for real arithmetic over symbolic numbers of rows and columns (block arrays with canonical contractions): "
       "every family x link pair found in the source. tabmat's sandwich/matvec products are taken at their documented "
       "meaning.")

P(id="P06", title="Covariance estimators, coefficient tables and Wald tests",
  statement="covariance_matrix returns the inverse information scaled by N/(N-p), the robust H^-1 G'G H^-1 N/(N-p) or the "
            "clustered H^-1 S'S H^-1 with correction M/(M-1) (N-1)/(N-p), where N is the sum of the weights, p counts the "
            "intercept, G is the score matrix, S its sums over clusters with arbitrary labels and H the information chosen by "
            "expected_information; arguments left out are taken from the model (mu from predict with the offset, dispersion "
            "from the Pearson statistic, robust and expected_information from the hyperparameters). std_errors, coef_table and "
            "wald_test use that matrix with every argument passed on, the table holds the normal-quantile statistics, and the "
            "Wald statistic is (Rb-r)'(RVR')^-1(Rb-r) for restrictions given as matrix, features or terms.",
  over=["inputs", "configurations"],
  quant="every design, weights, offset, cluster labelling, restriction, and every combination of the options",
  why="The estimators are compared with another package on a few data sets without weights or with consecutive integer "
      "cluster labels; a dropped argument or a wrong small-sample factor needs the matching combination of options to show.",
  files=["src/glum/_glm.py", "src/glum/_distribution.py"],
  mech=[("covariance", "src/glum/_glm.py: covariance_matrix"), ("tables and tests", "src/glum/_glm.py: std_errors, coef_table, wald_test, _wald_test_*"),
        ("cluster sums", "src/glum/_util.py / _glm.py: _group_sum")],
  technique="linear-algebra normal form of the value-flow graph plus argument-flow rule",
  note="Proof for real arithmetic over symbolic shapes for a gamma model with log link as the representative non-canonical family "
       "(P05 covers the information matrices of every family); restrictions are decided for three coefficients.")

P(id="P07", title="Predictions and scores of the fitted model",
  statement="linear_predictor returns X coef + intercept + offset and predict the inverse link of it, times the sample weights "
            "if given, for every way of choosing coefficients: the final ones, one or several entries of the regularization "
            "path chosen by position or by alpha (in the requested order, from the refitted path after cross-validation, and "
            "nothing but the closest alpha if it really is that alpha). score is one minus the weighted deviance of the "
            "predictions over that of the weighted mean of y.",
  over=["inputs", "configurations"],
  quant="every design matrix, coefficients, offset and weights, every way of selecting entries of the path, with and without intercept, "
        "both estimator classes",
  why="Combinations of offset, weights and several alphas are not sampled; an offset added to the wrong columns or the wrong "
      "path's intercept shows up only in such combinations.",
  files=["src/glum/_glm.py", "src/glum/_glm_cv.py"],
  mech=[("predictions", "src/glum/_glm.py: linear_predictor, _compute_linear_predictor, predict, _find_alpha_index; src/glum/_glm_cv.py: linear_predictor"),
        ("score", "src/glum/_glm.py: score")],
  technique="linear-algebra normal form of the value-flow graph",
  note="Proof for real arithmetic over symbolic numbers of rows and columns for numeric design matrices; deviance and inverse link are "
       "those decided by P01-P03.")

P(id="P08", title="Information criteria",
  statement="aic is -2 ll + 2k, bic is -2 ll + k log n and aicc adds 2k(k+1)/(n-k-1), where ll is the weighted log-likelihood of "
            "the training data at the predictions, n the number of rows and k the number of non-zero coefficients plus one for a fitted "
            "intercept; data with another number of rows than the training data are refused.",
  over=["inputs", "configurations"],
  quant="every data set, coefficient vector (including negative and zero coefficients), weights, with and without intercept and alpha search",
  why="The tests compare with one package on a few data sets; the count of parameters is only wrong for particular signs of "
      "coefficients or settings of the intercept.",
  files=["src/glum/_glm.py"],
  mech=[("criteria", "src/glum/_glm.py: aic, aicc, bic, _get_info_criteria, _compute_information_criteria")],
  technique="linear-algebra normal form of the value-flow graph and guard analysis",
  note="Proof for real arithmetic over symbolic shapes; models fitted with an offset are outside the claim, because these methods take none.")

P(id="P09", title="fit solves the documented penalised problem",
  statement="fit hands its solver the problem of the documentation and undoes the scaling afterwards: for every solver the data are "
            "the design matrix (centred and scaled if asked), the response and offset as given and the weights divided by their sum; the "
            "L1 penalty is alpha l1_ratio P1 and the L2 penalty alpha (1-l1_ratio) times the symmetrised P2, both expressed "
            "in the units of the original columns unless the scaled model is penalised; bounds and inequality constraints are converted to the same units; the "
            "reported intercept and coefficients reproduce the solver's linear predictor on the original columns; on a path entry k "
            "uses the k-th alpha and the reported model is the last entry.",
  over=["inputs", "configurations"],
  quant="every numeric design matrix, weights, offset, penalty (identity, vector, dense or sparse matrix), alpha and l1_ratio, bounds, constraints, "
        "with and without intercept and scaling, every solver, single alphas and paths",
  why="Fits with several of these options at once are not sampled; a penalty or bound in the wrong units still converges, "
      "to the solution of another problem.",
  files=["src/glum/_glm.py", "src/glum/_utils.py"],
  mech=[("problem construction", "src/glum/_glm.py: fit, _set_up_and_check_fit_args, _solve, _solve_regularization_path; src/glum/_utils.py: standardize"),
        ("back-transformation", "src/glum/_utils.py: unstandardize, _original_scale")],
  technique="linear-algebra normal form of the value-flow graph of fit up to the solver call",
  note="Proof for real arithmetic over symbolic numbers of rows and columns, for numeric designs; solvers are abstracted to arbitrary functions "
       "of their arguments, so nothing is claimed about their convergence.")

P(id="P10", title="Fitting settings, start values and the stored covariance reach their destination",
  statement="Every numerical setting of the estimator (tolerances, iteration limits, verbosity, random state, selection, Hessian approximation, diagnostics) arrives "
            "unchanged at the solver it is documented for; the inner solver is coordinate descent exactly when an L1 penalty, a bound or "
            "the monotonic solver needs it; a quadratic problem is solved in one outer iteration; given or warm start values enter the "
            "solver in its own units; and the covariance matrix stored by fit is computed from all the training data with every option of the model.",
  over=["inputs", "configurations"],
  quant="every value of every hyperparameter, every solver, both estimator classes, with and without intercept and scaling",
  why="A setting that is dropped or swapped on one of many call paths changes nothing but speed, accuracy or an option nobody sampled together.",
  files=["src/glum/_glm.py", "src/glum/_glm_cv.py", "src/glum/_utils.py"],
  mech=[("solver calls", "src/glum/_glm.py: _solve, _get_start_coef, fit"), ("start values", "src/glum/_utils.py: standardize_warm_start"),
        ("stored covariance", "src/glum/_glm.py: fit -> covariance_matrix")],
  technique="argument-flow rules on the value-flow graph of fit",
  note="Decides where each setting and start value arrives, not what a solver does with it.")

P(id="P11", title="Solvers iterate on the objective they are given",
  statement="At every iteration of the IRLS solvers the predictor, mean, objective value, score, working gradient and working weights held in the state are those of the "
            "current coefficients of the penalised objective (half deviance + L1 norm + half quadratic form), whatever happened in the line search; the inner problem's "
            "matrix is the weighted cross product plus P2 on the active columns; only zero coefficients with a score clearly below the L1 weight are left "
            "inactive; a step is accepted only under sufficient decrease (or smaller gradient at rounding level); convergence is declared exactly when "
            "the optimality measure over all columns or the step is below tolerance, and its absence is warned about. The closed-form solver solves the "
            "normal equations, and lbfgs and trust-constr are given the objective, its gradient and the inequality constraints (intercept free).",
  over=["inputs", "configurations", "histories"],
  quant="every data set, family, link, offset, weights, start values, vector or matrix, dense or sparse penalty, with and without intercept, and every "
        "number and kind of iterations (line searches accepted at any step or exhausted, active sets that grow or shrink, skipped rows)",
  why="Tests see the converged coefficients of a few problems; a state that is stale after a rejected step, a matrix reused for new columns or a premature "
      "convergence flag only matters on particular iteration histories.",
  files=["src/glum/_solvers.py", "src/glum/_linalg.py"],
  mech=[("iteration", "src/glum/_solvers.py: _irls_solver, update_hessian, update_quadratic, line_search, check_convergence, identify_active_set"),
        ("inner solvers", "src/glum/_solvers.py: _least_squares_solver, _cd_solver, _tikhonov_solver"),
        ("scipy solvers", "src/glum/_solvers.py: _lbfgs_solver, _trust_constr_solver, _get_obj_and_derivative")],
  technique="inductive loop invariants checked on the linear-algebra normal form of the value-flow graph",
  note="Proof for real arithmetic over symbolic shapes, by induction over iterations; family, link and Cython kernels enter by their contracts "
       "(P01-P03); the speed and success of convergence are not claimed. The row-skipping approximation (hessian_approx) is modelled as an arbitrary subset of rows.")

P(id="P12", title="Coordinate descent kernels do what the solver relies on",
  statement="One coordinate step replaces an active coefficient by the exact minimiser of the penalised quadratic model along it within its "
            "bounds (the intercept unpenalised and unbounded), skips coordinates without curvature and keeps the gradient of the model up to date on every active coordinate; "
            "a sweep reaches every active coordinate; the reported optimality measure is the sum (and maximum) of the minimal "
            "subgradients, zero in directions blocked by a bound; sweeps end early only when that measure of the current coefficients is within tolerance and "
            "otherwise non-convergence is warned about; rows left out of a Hessian update are exactly those with relatively small changes, and they keep their old weight.",
  over=["inputs", "configurations", "histories"],
  quant="every active set, Gram matrix, gradient, L1 weights, bounds, tolerance, cyclic or random order, any number of sweeps, with and without intercept; every row and weight history",
  why="A wrong clip, a gradient left stale when a coefficient becomes zero or a measure of earlier coefficients still converges on the few problems tested "
      "(later sweeps repair it), and shows only for particular bounds, active sets or tolerances.",
  files=["src/glum/_cd_fast.pyx"],
  mech=[("coordinate descent", "src/glum/_cd_fast.pyx: enet_coordinate_descent_gram"),
        ("optimality measure", "src/glum/_cd_fast.pyx: cython_norm_min_subgrad, _norm_min_subgrad"),
        ("row selection", "src/glum/_cd_fast.pyx: identify_active_rows")],
  technique="abstract interpretation of the Cython kernels: symbolic array stores with a linear-inequality domain, loops summarised by one generic iteration",
  note="Proof for real arithmetic of every path of one generic iteration of each loop, under the callers' contracts (active set entries are valid columns, L1 weights "
       "nonnegative, lower bounds at most upper bounds); convergence speed is not claimed.")

P(id="P13", title="Estimators leave inputs and hyperparameters alone and every fit starts afresh",
  statement="No public method writes into the caller's data, weights, offset or hyperparameters (nor into arrays handed out by an earlier fit); the constructor stores each "
            "hyperparameter as given and fit never assigns one; after fit (which returns the estimator) no attribute or cached result depends on an earlier fit, except that with "
            "warm_start the earlier coefficients are the starting point; predicting, scoring and inference do not change the model; random numbers come only from random_state.",
  over=["inputs", "configurations", "histories"],
  quant="every sequence of fits and readings, every solver and configuration, inputs of any memory layout and dtype",
  why="Whether an array is copied or shared depends on its dtype, order and container, and stale state shows only in particular sequences of calls; tests fit a new estimator on "
      "arrays they do not look at again.",
  files=["src/glum/_glm.py", "src/glum/_glm_cv.py", "src/glum/_validation.py", "src/glum/_utils.py", "src/glum/_solvers.py"],
  mech=[("fit of the estimators", "src/glum/_glm.py: GeneralizedLinearRegressor.fit; src/glum/_glm_cv.py: GeneralizedLinearRegressorCV.fit"),
        ("set-up and reset of fitted state", "src/glum/_glm.py: GeneralizedLinearRegressorBase._set_up_for_fit, _set_up_and_check_fit_args"),
        ("scaling of data, bounds and penalties", "src/glum/_utils.py: standardize, standardize_warm_start, unstandardize"),
        ("cached inference results", "src/glum/_glm.py: covariance_matrix, _get_info_criteria")],
  technique="interprocedural effect and alias analysis by abstract interpretation of the public methods: in-place writes traced to the objects they may reach, attribute dependence on stale state",
  note="Aliasing is over-approximated (a view, an asarray or a conversion without a forced copy may share memory); loops are assumed to run at least once. "
       "numpy, scikit-learn and tabmat functions are modelled by their documented copying behaviour.")

P(id="P14", title="Cross-validation fits, scores and selects as documented",
  statement="For every fold, l1_ratio and alpha, GeneralizedLinearRegressorCV fits the documented penalised problem to the training rows alone (their weights rescaled to sum to one, "
            "offset, start values and scaling from the same rows, bounds and constraints as given); deviance_path_ and train_deviance_path_ hold the weighted mean deviances of the fold's test "
            "and training rows at the stored coefficients, offset included; all results are arranged by fold, l1_ratio and alpha (descending); alpha_ and l1_ratio_ minimise the test deviance "
            "averaged over folds; coef_ and intercept_ are the entry for them of a refit to all rows under the same penalty, bounds and constraints; parallel jobs share no memory they write and leave nothing "
            "the results depend on, so n_jobs does not matter.",
  over=["inputs", "configurations", "schedules"],
  quant="every data set, weights, offset, penalty, bounds, constraint, solver kind and fold assignment; every position of the minimum; jobs in one or several processes in any order",
  why="A test row leaking into a fit, an index swapped between l1_ratio and alpha or a bound lost in the refit changes numbers only slightly or only in configurations nobody compared with another program.",
  files=["src/glum/_glm_cv.py", "src/glum/_glm.py", "src/glum/_utils.py"],
  mech=[("fold fits, selection and refit", "src/glum/_glm_cv.py: GeneralizedLinearRegressorCV.fit, _fit_path"),
        ("standardization", "src/glum/_utils.py: standardize, unstandardize"),
        ("path", "src/glum/_glm.py: _solve_regularization_path, _get_alpha_path")],
  technique="abstract interpretation with symbolic arrays: row gathers by opaque fold indices, results compared with the documented problem entry by entry; taint of what jobs leave behind",
  note="Exact in the data, weights and penalties; the numbers of folds, l1_ratios and alphas are fixed to small representative values (2, 2, 3). Solvers, deviance, inverse link and start values enter by their contracts.")

P(id="P15", title="The automatic regularization path starts at the null model",
  statement="The intercept that fit and the path start from minimises the deviance of the model without predictors wherever that has a closed form (offset and weights included); "
            "the automatic alphas start at the largest |gradient| / L1 penalty over the penalised columns at zero coefficients and that intercept (without any L1 penalty, 1000 times the largest gradient), the point from which "
            "all penalised coefficients are zero, and go down geometrically to min_alpha, else the first alpha times min_alpha_ratio (by default 1e-6 if n_samples >= n_features, else 1e-2), n_alphas in all; "
            "the data, weights, offset and penalty used are those of the fit.",
  over=["inputs", "configurations"],
  quant="every data set, weights, offset, L1 penalty (also partly zero), family, link, with and without intercept, given or default path limits",
  why="A wrong starting point still gives a path of plausible models: it shows only with an offset, unequal weights, a partly penalised model or few samples, and only as poorly placed alphas.",
  files=["src/glum/_glm.py", "src/glum/_glm_cv.py", "src/glum/_distribution.py"],
  mech=[("intercept-only model", "src/glum/_distribution.py: guess_intercept"),
        ("automatic alphas", "src/glum/_glm.py: GeneralizedLinearRegressorBase._get_alpha_path")],
  technique="symbolic value-flow analysis with normal-form comparison (exact algebra over symbolic data)",
  note="Closed forms exist for the normal family with identity link, Tweedie families with log link, and every family without offset (mean response); elsewhere the intercept is "
       "only a start value and nothing is claimed. Zero penalties are assumed to be decidable per column block.")

P(id="P16", title="Malformed inputs are refused, valid ones are not",
  statement="With the input checks on, fit of both estimators raises an error, whatever else is passed, when: alpha, alphas, l1_ratio, P1 or P2 is negative where it must not be, nan, out of range, not numeric or of the wrong shape; "
            "P2 is not positive semidefinite; family, link, solver, selection or a flag is not one of the allowed values; max_iter or a tolerance is not positive; a bound, constraint or start value does not fit the columns, "
            "a lower bound exceeds its upper bound, or only one of A_ineq and b_ineq is given; monotonic_constraints is not a non-empty mapping to known directions or comes with A_ineq; X, y, weights or offset differ in length or dimension or are not finite; "
            "weights are negative or all zero; y is outside the family's range. Inputs that meet the documented requirements are not refused by these checks.",
  over=["inputs", "configurations"],
  quant="all values of an argument in the classes {-inf, negative, 0, (0,1), 1, >1, inf, nan} wherever they occur in an array, all relative lengths (one more or fewer) and ranks, for both estimators and every family",
  why="Whether a bad value is caught depends on the kind of argument and where in the array it occurs; a check lost for scalars, one element or one kind of matrix yields a model of garbage without an error.",
  files=["src/glum/_validation.py", "src/glum/_glm.py", "src/glum/_glm_cv.py", "src/glum/_distribution.py"],
  mech=[("hyperparameters", "src/glum/_glm.py: GeneralizedLinearRegressorBase._validate_hyperparameters, GeneralizedLinearRegressor._validate_hyperparameters; src/glum/_glm_cv.py: GeneralizedLinearRegressorCV._validate_hyperparameters"),
        ("data", "src/glum/_validation.py: check_weights, check_offset, check_bounds, check_inequality_constraints, check_X_y_tabmat_compliant"),
        ("penalties and start values", "src/glum/_glm.py: setup_p1, setup_p2, _get_start_coef, _set_up_for_fit")],
  technique="abstract interpretation of fit over value categories (sign, unit interval, finiteness), symbolic dimensions and types of the inputs; every path must, or must not, reach a raise",
  note="One argument is malformed at a time, the others take typical valid values. scikit-learn and numpy validators are modelled by their documentation. Data frames and formulas are not covered here; "
       "whether is_pos_semidef itself is right for matrices is not decided.")

P(id="P17", title="What fit is asked for is honoured or refused, never ignored",
  statement="For both estimators and every choice of solver, fit either raises an error or returns coefficients that depend on each penalty (P1, P2, l1_ratio, alpha), bound, inequality or monotonic "
            "constraint, offset and sample weight that was passed, whatever unrelated options (scale_predictors, selection, verbosity, ...) are set. "
            "It does not refuse what the chosen solver is documented to support: ridge penalties by every solver (closed-form: normal family with identity link; irls-ls-monotonic: with constraints), L1 penalties and bounds by irls-cd, "
            "inequality constraints by trust-constr and irls-ls-monotonic, and all of these by auto.",
  over=["configurations"],
  quant="every pair of penalties, bounds and constraints, each solver, two families (with and without closed form), single alpha and path, cross-validation, scaling and intercept; all values of the inputs",
  why="Each solver supports another subset of the options and they are validated in several places; there are thousands of combinations, and one that drops a bound or a penalty converges without complaint.",
  files=["src/glum/_glm.py", "src/glum/_glm_cv.py", "src/glum/_solvers.py", "src/glum/_validation.py"],
  mech=[("choice of the solver", "src/glum/_glm.py: GeneralizedLinearRegressorBase._set_up_for_fit, _solve"),
        ("validation across options", "src/glum/_glm.py: GeneralizedLinearRegressor.fit; src/glum/_glm_cv.py: GeneralizedLinearRegressorCV.fit"),
        ("solvers", "src/glum/_solvers.py: _tikhonov_solver, _irls_solver, _cd_solver, _least_squares_solver, _monotonic_irls_solver, _lbfgs_solver, _trust_constr_solver")],
  technique="abstract interpretation of fit, solvers included, per configuration: every path raises, or a must-dependence (on both arms of any choice by unrelated settings) of coef_ on the input",
  note="Dependence is shown, not that the constraint holds at the solution (P09 covers what is handed to the solver, P11 what the solver makes of it). Numerical code outside glum is assumed to use its arguments. Up to two options are combined at a time; monotonic_constraints with a formula are taken to resolve.")

P(id="P18", title="Monotone and inequality constraints hold at the solution",
  statement="monotonic_constraints orders the coefficients of each constrained factor's columns in column order (categories or spline bases in their own order; a single column gets a sign; "
            "interactions separately for each combination of the other factors). "
            "solver='irls-ls-monotonic' stops without a warning only at coefficients that satisfy A_ineq w <= 0 up to 1e-6 and minimise the penalised objective among those: every violated row is penalised, "
            "no row that has become slack still is, and objective, score and Hessian always belong to the current coefficients and penalty. "
            "Violated constraints and missing convergence are reported as warnings.",
  over=["inputs", "configurations"],
  quant="all data, families, links, penalties (vector or matrix), constraint matrices, with and without intercept and offset; every iteration from every earlier state",
  why="The set of active constraints changes along the iterations; a stale penalty, objective or Hessian gives a wrong but plausible optimum for some data sets only.",
  files=["src/glum/_solvers.py", "src/glum/_formula.py", "src/glum/_glm.py"],
  mech=[("penalty iteration", "src/glum/_solvers.py: _monotonic_irls_solver, _build_monotonic_penalty"),
        ("rows of the constraints", "src/glum/_formula.py: _build_monotonic_constraints, _sort_members"),
        ("columns of the model", "src/glum/_glm.py: GeneralizedLinearRegressorBase._resolve_monotonic_constraints")],
  technique="loop invariants of the penalty iteration by symbolic matrix algebra with row indicators, from an arbitrary state; path enumeration of the stopping condition; abstract interpretation of the row builder on symbolic groups",
  note="Splitting a column name into factors and levels, and finding the factors of a variable of the formula, are not analysed. The inner least-squares step is P11 (E7), the trust-constr constraints are P11 (E9), rescaling of A_ineq is P09. That iterations terminate is not claimed.")

P(id="P19", title="Later data frames are encoded as the data of the fit was",
  statement="Every method that takes X after the fit converts a data frame with what the fit stored: the model specification of the formula, evaluated in the context of the caller of that method, "
            "or the category levels in their stored order, with the same drop_first, column names and treatment of missing values. "
            "Each categorical column gets exactly the columns it had at the fit; a level the fit did not see (or, with cat_missing_method='convert', a missing value in a column that had none) raises. "
            "A P1 or P2 vector with one entry per data-frame column penalises every column that column expands to; penalties of the expanded size are used as they are.",
  over=["inputs", "configurations"],
  quant="all data frames (pandas, polars), any levels, order of levels and columns, missing values and names; both estimators, every method with X, every context",
  why="The encoding is rebuilt in several places from stored state; a level order, a missing-value column or a frame number that differs gives wrong predictions only for data whose categories differ from the training data.",
  files=["src/glum/_glm.py", "src/glum/_utils.py", "src/glum/_formula.py"],
  mech=[("conversion in fit", "src/glum/_glm.py: GeneralizedLinearRegressorBase._set_up_and_check_fit_args"),
        ("conversion afterwards", "src/glum/_glm.py: GeneralizedLinearRegressorBase._convert_from_df; src/glum/_utils.py: align_df_categories, add_missing_categories"),
        ("penalties per column", "src/glum/_utils.py: expand_categorical_penalties"),
        ("context of formulas", "src/glum/_formula.py: capture_context")],
  technique="abstract interpretation of fit and of every later method on symbolic data frames (type, levels, missing values per column) and on formulas, with the call depth at which the context is taken",
  note="What tabmat and narwhals do with the resulting call is taken from their documentation. Columns of a later frame are taken by position, as in glum; numeric columns are not renamed or reordered.")
P(id="N01", title="Solvers converge to the optimum within the tolerance",
  statement="Whenever fit reports convergence, the coefficients minimise the penalised objective up to gradient_tol, for every data set on which a minimum exists.",
  over=["inputs", "configurations"],
  quant="all data sets, penalties, families, links and solvers",
  why="Tests compare a handful of data sets with other programs.",
  files=["src/glum/_solvers.py", "src/glum/_cd_fast.pyx"],
  mech=[("solvers", "src/glum/_solvers.py: _irls_solver, _cd_solver, line_search")],
  note="See MANIFEST.json not_applicable. (That updates, gradients, Hessians, objective and stopping rules are the right formulas is P03, P11 and P12.)")

P(id="N02", title="Dense, sparse and categorical storage give the same model",
  statement="Fitting the same design in dense, sparse, split or categorical storage gives the same coefficients up to rounding.",
  over=["inputs", "configurations"],
  quant="all data sets and storage formats",
  why="Tests compare a few small designs.",
  files=["src/glum/_glm.py", "src/glum/_solvers.py"],
  mech=[("matrix operations", "src/glum/_solvers.py: update_hessian, build_hessian_delta")],
  note="See MANIFEST.json not_applicable. (That glum itself does not branch on the storage with other formulas is part of P03 and P09.)")

P(id="N03", title="Confidence statements are calibrated",
  statement="Standard errors and p-values have their nominal coverage and size for large samples when the model is correct.",
  over=["inputs"],
  quant="all data-generating distributions covered by the model",
  why="A property of distributions over data, not of single runs.",
  files=["src/glum/_glm.py"],
  mech=[("inference", "src/glum/_glm.py: GeneralizedLinearRegressorBase.covariance_matrix, wald_test")],
  note="See MANIFEST.json not_applicable. (That the documented estimators are computed is P06 and P05.)")

NOT_APPLICABLE = [
    {"property": "N01", "reason": "Convergence and the accuracy reached depend on conditioning, step lengths and rounding of the particular data; no static argument in reach bounds them. "
                                  "Parts that are properties of the code (formulas, stopping rules, reporting of non-convergence) are separate properties."},
    {"property": "N02", "reason": "The products with each storage format are computed inside tabmat (another package, compiled); glum's source contains no second implementation whose agreement could be decided here."},
    {"property": "N03", "reason": "Quantifies over the sampling distribution of the data: it is settled by statistical theory for the formulas (checked as P07, P12), not by analysing the source."},
]
NOTES = "All checks are static: they parse /repo's current sources on every run and never execute them."
