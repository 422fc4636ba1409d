"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop('P01', 'Proximal maps return the exact minimiser of penalty plus quadratic',
     "For every norm, seminorm, constraint set and cone the library offers, in Lagrange or bound form where that form is supported, with any "
     "weights, grouping, shift and attached quadratic, asking for the proximal map at a strictly positive curvature returns the unique minimiser "
     "of (requested quadratic + attached quadratic + penalty), to numerical accuracy. In particular a returned point is feasible for the constraint "
     "it was projected on, with no component left over or lost for ties, zeros, zero weights, boundary points or already feasible inputs.",
     ['inputs', 'configurations'], "every atom class, form, weight vector, group labelling, offset, attached quadratic, requested (coef, center, linear, const) and every real input of matching shape",
     "Tests compare a few gaussian draws per atom with the library's own solvers; they do not certify optimality with an independent subgradient certificate and never sample ties, zero weights, boundary points, singletons or extreme scales.",
     ['regreg/atoms/__init__.py', 'regreg/atoms/seminorms.py', 'regreg/atoms/weighted_atoms.py', 'regreg/atoms/cones.py', 'regreg/atoms/group_lasso.py',
      'regreg/atoms/sparse_group_lasso.py', 'regreg/atoms/sparse_group_block.py', 'regreg/atoms/slope.py', 'regreg/atoms/simplex.py', 'regreg/atoms/svd_norms.py',
      'regreg/atoms/block_norms.py', 'regreg/atoms/mixed_lasso.py', 'regreg/atoms/linear_constraints.py', 'regreg/atoms/projl1_cython.pyx', 'regreg/atoms/mixed_lasso_cython.pyx', 'regreg/atoms/piecewise_linear.pyx'],
     [('proximal / lagrange_prox / bound_prox / cone_prox', 'regreg/atoms/*.py'), ('projection kernels', 'regreg/atoms/*.pyx'), ('reduction of general quadratics to a standard proximal step', 'regreg/atoms/seminorms.py proximal, regreg/identity_quadratic.py collapsed')],
     ['return value of atom.proximal(quadratic)'])

prop('P02', 'Penalty values and feasibility verdicts equal their mathematical definition',
     "The value every penalty, constraint or cone reports at a point is the textbook value of that function (norm times its parameter, zero or infinity for a "
     "constraint), evaluated at the point as moved by the penalty's shift and affine map, and any attached quadratic adds exactly its own value. Feasibility verdicts accept "
     "points inside the set, on its boundary and everything the library's own projections return, reject points clearly outside, and changing the parameter afterwards changes the value accordingly.",
     ['inputs', 'configurations'], "every atom class, form, weights, groups, offset, affine composition, attached quadratic and every point, including zeros, ties, boundary points and infeasible points",
     "Existing tests rarely assert a seminorm value, never a feasibility verdict near the boundary or at exact zeros; definitions quantify over all points and weights.",
     ['regreg/atoms/__init__.py', 'regreg/atoms/seminorms.py', 'regreg/atoms/weighted_atoms.py', 'regreg/atoms/cones.py', 'regreg/atoms/group_lasso.py', 'regreg/atoms/sparse_group_lasso.py', 'regreg/atoms/sparse_group_block.py',
      'regreg/atoms/slope.py', 'regreg/atoms/simplex.py', 'regreg/atoms/svd_norms.py', 'regreg/atoms/block_norms.py', 'regreg/atoms/mixed_lasso.py', 'regreg/atoms/linear_constraints.py', 'regreg/problems/composite.py'],
     [('seminorm / constraint / nonsmooth_objective', 'regreg/atoms/*.py'), ('offset and quadratic bookkeeping', 'regreg/problems/composite.py'), ('affine composition', 'regreg/atoms/__init__.py affine_atom')],
     ['atom.seminorm', 'atom.constraint', 'atom.nonsmooth_objective', 'atom.objective'])

prop('P03', 'Conjugates and duals satisfy the Fenchel relations',
     "The conjugate a penalty, constraint or cone reports is its Fenchel conjugate: the Fenchel-Young inequality holds for every pair of points, with equality at proximal points, "
     "the conjugate of the conjugate has the original values, and projecting on both splits any point exactly (Moreau decomposition), also in the presence of shifts and linear terms. "
     "When the penalty carries a strictly convex quadratic, its conjugate is smooth and reports the maximum and the maximiser of the corresponding concave problem.",
     ['inputs', 'configurations'], "every conjugate pair, parameter, offset, linear term and attached quadratic, and every pair of points",
     "Tests check conjugacy by running both sides through the library's own solver on a few draws; the inequality is universally quantified over pairs of points and parameters.",
     ['regreg/atoms/__init__.py', 'regreg/atoms/seminorms.py', 'regreg/atoms/weighted_atoms.py', 'regreg/atoms/cones.py', 'regreg/atoms/group_lasso.py', 'regreg/atoms/slope.py', 'regreg/atoms/simplex.py', 'regreg/atoms/svd_norms.py', 'regreg/atoms/block_norms.py',
      'regreg/atoms/linear_constraints.py', 'regreg/problems/composite.py', 'regreg/problems/conjugate.py', 'regreg/smooth/quadratic.py'],
     [('conjugate pair tables', 'regreg/atoms/*.py'), ('offset/linear term exchange', 'regreg/atoms/__init__.py _work_out_conjugate'), ('smooth conjugates', 'regreg/problems/composite.py smooth_conjugate, regreg/problems/conjugate.py')],
     ['atom.conjugate', 'atom.dual'])

prop('P04', 'Smoothed penalties are the Moreau envelope with its exact gradient',
     "Smoothing a penalty with a strictly convex quadratic of parameter eps yields a differentiable function whose value is the supremum defining the envelope, "
     "never above the penalty and below it by at most eps times half the squared size of the dual set, and which converges to the penalty as eps decreases. Its reported gradient is the true gradient, is Lipschitz with constant 1/eps "
     "(times the squared norm of any linear map), and the same holds through shifts and affine maps.",
     ['inputs', 'configurations'], "every smoothable penalty, smoothing parameter, center and linear term of the smoothing quadratic, offset, affine map, and every point",
     "Tests only use smoothing inside solver comparisons with loose tolerances; envelope bounds, gradient identity and the Lipschitz bound hold at every point and are asserted nowhere.",
     ['regreg/problems/composite.py', 'regreg/atoms/__init__.py', 'regreg/atoms/seminorms.py', 'regreg/smooth/__init__.py'],
     [('smoothed', 'regreg/problems/composite.py nonsmooth.smoothed, regreg/atoms/__init__.py'), ('smooth_conjugate', 'regreg/problems/composite.py')],
     ['smoothed(...).smooth_objective'])

prop('P05', 'Losses report the documented value and its true gradient',
     "Every smooth loss (squared error, logistic, probit, complementary log-log, Poisson, Huber, Huberised SVM, quadratic forms, sums, affine compositions) evaluates, at every "
     "parameter, to the documented negative log-likelihood or loss up to a constant that does not depend on the parameter, honouring scale, offsets, trials and case weights. "
     "The reported gradient is the derivative of the reported value, asking for value, gradient or both gives identical numbers, and convex losses are convex along every segment. The mean function of a GLM loss is its documented inverse link at every linear predictor, however large.",
     ['inputs', 'configurations'], "every loss family, response vector (including separated, all-zero, fractional trials), scale, offset, case-weight vector, design (dense, sparse, transform) and parameter, including large linear predictors",
     "Tests evaluate value and gradient once and mostly compare shapes or R fits on a single dataset; gradient consistency is a statement about all points, weights and offsets.",
     ['regreg/smooth/__init__.py', 'regreg/smooth/glm.py', 'regreg/smooth/binary.py', 'regreg/smooth/quadratic.py', 'regreg/smooth/losses.py'],
     [('smooth_objective', 'regreg/smooth/*.py'), ('affine composition of losses', 'regreg/smooth/__init__.py affine_smooth'), ('glm construction', 'regreg/smooth/glm.py')],
     ['smooth_objective(x, mode)'])

prop('P06', 'Reported curvature matches the gradient it belongs to',
     "Where a loss offers curvature, the Hessian it reports is the derivative of the gradient it reports (for probit and complementary log-log, the expected information of the model), "
     "is symmetric positive semi-definite, and honours the same scale, offsets and case weights as the gradient. Multiplying a vector by the Hessian gives the same result as forming it, at full data and after subsampling.",
     ['inputs', 'configurations'], "every loss with curvature, every parameter, offset, case weights, scale, design and direction",
     "Tests check the Hessian for two losses at one point without offsets, weights or scale.",
     ['regreg/smooth/glm.py', 'regreg/smooth/binary.py', 'regreg/smooth/cox.py', 'regreg/smooth/quadratic.py', 'regreg/problems/newton.py'],
     [('hessian / hessian_mult', 'regreg/smooth/glm.py, binary.py, cox.py'), ('information from the design', 'regreg/smooth/glm.py glm.hessian')],
     ['loss.hessian', 'loss.hessian_mult'])

prop('P07', 'Case weights and subsampling are equivalent to replicating or deleting rows',
     "Fitting or evaluating a model with non-negative integer case weights gives the same objective differences and gradients as repeating each case that many times, and weight zero is the same as deleting the case. "
     "Taking a subsample of the cases, once or repeatedly, equals building the model from just those cases with their existing weights, and never alters the model it was taken from.",
     ['inputs', 'histories'], "every loss family, weight vector, sequence of subsample operations and parameter",
     "Tests subsample once per loss and compare one fitted value; weights combined with subsampling, repeated subsampling and repeated evaluation are not sampled.",
     ['regreg/smooth/glm.py', 'regreg/smooth/binary.py', 'regreg/smooth/cox.py', 'regreg/smooth/mglm.py'],
     [('case_weights', 'regreg/smooth/*.py'), ('subsample', 'regreg/smooth/*.py'), ('__copy__', 'regreg/smooth/*.py')],
     ['loss.subsample(idx)', 'smooth_objective with case weights'])

prop('P08', 'Affine transforms act as their dense matrix and adjoint',
     "Every affine transform the library can build (dense, sparse, diagonal, identity, selection, reshaping, centering, intercept, composition, sums, scalar multiples, horizontal, vertical and block stacking, positive/negative splitting, residual, adjoint) maps x to Ax+b for "
     "one fixed matrix A and vector b given by its definition, and its adjoint maps u to A'u, so inner products agree for every pair of vectors. Results do not depend on earlier calls, on how a composite transform was nested, or on whether a vector or a matrix of columns is passed where both are accepted.",
     ['inputs', 'programs', 'histories'], "every composition tree of transforms, every input vector or matrix, every order of calls",
     "Tests build each transform once and apply it to one vector; adjoint consistency must hold for every nesting and call order.",
     ['regreg/affine/__init__.py', 'regreg/affine/block_maps.py'],
     [('linear_map / affine_map / adjoint_map', 'regreg/affine/__init__.py'), ('block maps', 'regreg/affine/block_maps.py')],
     ['linear_map, affine_map, adjoint_map return values'])

prop('P09', 'A normalised design behaves as the explicitly centred and scaled matrix',
     "Normalising a design (any mix of centering, scaling, target value, degrees-of-freedom correction and intercept, dense or sparse) gives a transform whose forward and adjoint actions equal those of the matrix obtained by explicitly centring and scaling "
     "each column, with constant columns mapped to zero when scaling and centering. Models fitted through it equal models fitted on the explicit matrix, and the original data are untouched.",
     ['inputs', 'configurations'], "every matrix (including constant columns and sparse), every flag combination and every vector",
     "Tests cover a handful of flag combinations on one gaussian matrix.",
     ['regreg/affine/__init__.py'],
     [('normalize', 'regreg/affine/__init__.py normalize'), ('centering, add_intercept', 'regreg/affine/__init__.py')],
     ['normalize(...).linear_map / adjoint_map'])

prop('P10', 'Difference, trend, lattice and changepoint operators compute what they document',
     "The structured operators for signals (divided differences of any order on sorted knots, trend filtering and its pseudo-inverse, first differences over an image lattice, centred interval means over all or chosen intervals) return exactly the documented quantities for every signal. "
     "Their adjoints are exact, differences annihilate the polynomials they should, every lattice edge is used once, and re-configuring an operator's intervals takes full effect.",
     ['inputs', 'configurations', 'histories'], "every length, order, knot vector, image shape, interval family, scaling and signal",
     "Tests check one size per operator and mostly the adjoint identity.",
     ['regreg/affine/fused_lasso.py', 'regreg/affine/image2d.py', 'regreg/affine/multiscale.py'],
     [('difference_transform, trend_filter', 'regreg/affine/fused_lasso.py'), ('formD', 'regreg/affine/image2d.py'), ('multiscale', 'regreg/affine/multiscale.py')],
     ['linear_map / adjoint_map of these operators'])

prop('P11', 'Solvers reach the global optimum of the stated convex problem',
     "Each solver (simple smooth-plus-penalty problems, several penalties behind linear maps, dual problems, separable problems, smoothed and continuation schemes, ADMM, quasi-Newton) given a well-posed convex problem returns a point whose objective is within tolerance of the global optimum and which satisfies the first-order conditions of the problem as stated, "
     "including offsets, attached quadratics and any extra quadratic passed to the solve call. Different formulations of the same problem give the same optimal value and fitted values.",
     ['inputs', 'configurations'], "every combination of loss, penalty, form, linear map, quadratic and solver option that defines a well-posed problem, from every starting point",
     "Tests compare solvers pairwise on small gaussian examples; a shared error, or one for particular quadratics, offsets or penalties, is invisible without an independent optimality certificate.",
     ['regreg/problems/simple.py', 'regreg/problems/container.py', 'regreg/problems/dual_problem.py', 'regreg/problems/separable.py', 'regreg/problems/admm.py', 'regreg/problems/newton.py', 'regreg/problems/composite.py', 'regreg/algorithms.py'],
     [('solve', 'regreg/problems/*.py'), ('FISTA', 'regreg/algorithms.py')],
     ['returned coefficients and optima'])

prop('P12', 'The first-order iteration honours its contract along the whole run',
     "In every run of the accelerated first-order method each accepted step satisfies the majorisation condition that justifies its step size, every iterate is feasible for the constraints, the recorded objective history consists of the true objective of successive iterates, and with the monotonicity safeguard the objective never increases. "
     "The coefficients left behind are at least as good as the starting point and never worse than the last recorded value, warm starts included, and a reported convergence means the stopping rule was met.",
     ['histories', 'inputs', 'configurations'], "every run: loss, penalty, start, step size, stopping rule, restart and iteration options",
     "Tests look only at the final answer of runs with default options; the contract concerns every iteration of every run.",
     ['regreg/algorithms.py', 'regreg/problems/composite.py', 'regreg/problems/simple.py'],
     [('backtracking', 'regreg/algorithms.py'), ('monotonicity restart', 'regreg/algorithms.py'), ('stopping rules', 'regreg/algorithms.py')],
     ['calls to smooth_objective / proximal during a run', 'returned objective history', 'final coefficients'],
     state=[('working and proposed coefficients', 'current and candidate iterate', 'regreg/algorithms.py')])

prop('P13', 'Quadratic terms form a consistent algebra',
     "The value and gradient of a quadratic term equal coef/2 times squared distance to its center plus linear and constant parts; adding two quadratics, collapsing the center away, moving the center, taking the conjugate or restricting to a subset of coordinates produce quadratics with exactly the values those operations define at every point. "
     "None of these operations changes its operands, and the zero quadratic is a neutral element.",
     ['inputs', 'programs'], "every quadratic (missing, scalar, integer or array parts), every sequence of operations and every point",
     "Tests cover addition and collapse on a few instances.",
     ['regreg/identity_quadratic.py'],
     [('objective, __add__, collapsed, recenter, conjugate, zeroify/noneify, __getitem__', 'regreg/identity_quadratic.py')],
     ['objective values of resulting quadratics'])

prop('P14', 'Every point of a regularisation path solves its full problem',
     "For every value in a decreasing sequence of penalty parameters, the coefficients a path routine reports satisfy the optimality conditions of the full, unscreened problem for that value (penalty weights, unpenalised features, groups, elastic-net mixing included) to solver tolerance. "
     "Screening and warm starts never change the answer: active-set, batched and plain warm-start strategies agree, as do row-subsampled paths with paths built from those rows, and the first entry of the default sequence is the smallest parameter with a null penalised part.",
     ['inputs', 'configurations', 'histories'], "every loss, design, penalty (lasso, group, sparse group, multi-response block), weights, mixing, parameter sequence and strategy",
     "Tests compare strategies on gaussian designs with loose tolerance; adversarial correlation, zero weights, labels and coarse sequences that make screening fail are not sampled.",
     ['regreg/paths/__init__.py', 'regreg/paths/lasso.py', 'regreg/paths/group_lasso.py', 'regreg/paths/sparse_group_lasso.py', 'regreg/paths/sparse_group_block.py', 'regreg/paths/basil.py'],
     [('strong_rules', 'regreg/paths/__init__.py'), ('check_KKT', 'regreg/paths/*.py'), ('basil', 'regreg/paths/basil.py'), ('default_lagrange_sequence', 'regreg/paths/__init__.py')],
     ["result['beta'] of the path functions"])

prop('P15', 'Cross-validation scores are the out-of-fold scores of fold-wise paths',
     "Cross-validating a path reports, for each penalty parameter, the mean and standard deviation over folds of the chosen score computed on held-out cases from coefficients trained only on the remaining cases, the folds forming a balanced partition of the cases. "
     "The result is independent of how many workers run it, is reproducible for a fixed random state, and leaves the original path and data unchanged.",
     ['inputs', 'configurations', 'schedules'], "every path type, fold count, score, random state and worker count",
     "Tests only run it and look at nothing but that it returns.",
     ['regreg/paths/cross_validate.py', 'regreg/paths/__init__.py'],
     [('cross_validate', 'regreg/paths/cross_validate.py'), ('linpred', 'regreg/paths/__init__.py'), ('subsample', 'regreg/paths/*.py')],
     ['arguments passed to the score function', 'returned mean and std'])

prop('P16', 'Estimators fit, predict and score exactly the model they describe',
     "Each scikit-learn style estimator fits the minimiser of its loss plus its regulariser for the given response, case-weight and offset columns, elastic-net mixing and unpenalised features; its predictions are the linear predictor, label or class probabilities of that fit, with probabilities in [0,1] and class probabilities summing to one. "
     "Each advertised score equals its definition on the passed data, fitting twice or after cloning gives the same answer, and inputs are never modified.",
     ['inputs', 'configurations', 'histories'], "every estimator class, regulariser, column layout, mixing, score method and dataset",
     "Tests fit and grid-search without asserting coefficients, predictions or scores.",
     ['regreg/sklearn/base.py', 'regreg/sklearn/gaussian.py', 'regreg/sklearn/logistic.py', 'regreg/sklearn/probit.py', 'regreg/sklearn/cloglog.py', 'regreg/sklearn/cox.py', 'regreg/sklearn/huber.py', 'regreg/sklearn/huber_svm.py', 'regreg/sklearn/multinomial.py'],
     [('fit / predict / predict_proba / score', 'regreg/sklearn/*.py'), ('response layout', 'regreg/sklearn/base.py _check_y_arg')],
     ['estimator attributes and return values'])

prop('P17', 'Evaluation is free of side effects',
     "Evaluating values, gradients, curvature, proximal maps, conjugates, transforms or subsamples never changes the arrays passed in or any other observable answer of the object: the same question asked again, in any order and interleaved with other questions, gets the same answer. "
     "Arrays handed out earlier keep their contents when the object is used again, and a copy evolves independently of its original.",
     ['histories', 'inputs'], "every object of the library and every sequence of evaluation calls on it",
     "Tests call each method once; history dependence and aliasing need sequences of calls and a record of earlier results.",
     ['regreg/smooth/__init__.py', 'regreg/smooth/glm.py', 'regreg/smooth/binary.py', 'regreg/smooth/cox.py', 'regreg/smooth/mglm.py', 'regreg/affine/__init__.py', 'regreg/atoms/__init__.py', 'regreg/atoms/seminorms.py', 'regreg/problems/composite.py', 'regreg/identity_quadratic.py'],
     [('cached buffers', 'regreg/smooth/cox.py, regreg/smooth/glm.py stacked_loglike, regreg/affine/__init__.py selector, posneg'), ('__copy__', 'regreg/smooth/*.py, regreg/atoms/*.py')],
     ['arguments after the call', 'earlier results after later calls'])

prop('P18', 'Native kernels never touch memory outside their arrays',
     "No call through the public interface, whatever the lengths (including empty and single element), ties, labels, ordering, zero or infinite weights, strides or number of repeated calls, makes the compiled kernels read or write outside the arrays they were given or execute undefined behaviour, and they return finite answers for finite well-posed input. "
     "Inconsistent lengths or labels are refused with an exception rather than processed.",
     ['inputs', 'histories'], "every argument combination reaching the compiled projection, mixed-penalty, piecewise-linear and survival kernels",
     "Ordinary tests do not notice out-of-bounds accesses: they corrupt silently and need an instrumented build and hostile sizes.",
     ['regreg/atoms/projl1_cython.pyx', 'regreg/atoms/mixed_lasso_cython.pyx', 'regreg/atoms/piecewise_linear.pyx', 'regreg/smooth/cox_utils.pyx', 'regreg/smooth/cox_fns.c', 'regreg/smooth/cox.py', 'regreg/atoms/mixed_lasso.py'],
     [('C loops over orderings and ranks', 'regreg/smooth/cox_fns.c'), ('length and label validation', 'regreg/smooth/cox_utils.pyx'), ('sorted searches', 'regreg/atoms/*.pyx')],
     ['sanitizer reports of the instrumented extension modules'])

prop('P19', 'The survival loss is the Cox partial likelihood with correct ties',
     "For every set of event times, censoring indicators and case weights, in any order and with any ties, the survival loss equals the negative log partial likelihood in which the risk set at a failure contains every subject whose time is not earlier, tied subjects sharing the same risk set. "
     "Its gradient and curvature are the derivatives of that function; they are invariant to the ordering of subjects, to increasing transformations of time, and to adding a constant to all linear predictors.",
     ['inputs', 'configurations'], "every time vector with ties, censoring pattern, case weights, scale and linear predictor",
     "Tests compare one or two R fits (skipped without R); ties, all censored, weights and permutations need a brute-force reference.",
     ['regreg/smooth/cox.py', 'regreg/smooth/cox_utils.pyx', 'regreg/smooth/cox_fns.c'],
     [('risk-set accumulation', 'regreg/smooth/cox_fns.c'), ('orderings and tie ranks', 'regreg/smooth/cox.py')],
     ['smooth_objective, hessian, hessian_mult of survival losses'])

prop('P20', 'Factored matrices and partial decompositions represent the original map',
     "A matrix stored in factored form acts, forward and adjoint, as the matrix it was built from, with orthonormal factors and non-negative singular values equal to the leading true singular values, whatever its rank, shape, scale or starting guess. "
     "Low-rank proximal maps computed through it equal soft-thresholding or projection of the singular values of the full matrix to the documented accuracy.",
     ['inputs', 'configurations'], "every matrix shape, rank (including zero and one), spectrum, tolerance and warm start",
     "Tests use well-conditioned gaussian matrices of one shape.",
     ['regreg/affine/factored_matrix.py', 'regreg/atoms/svd_norms.py'],
     [('compute_iterative_svd, partial_svd', 'regreg/affine/factored_matrix.py'), ('factored_matrix', 'regreg/affine/factored_matrix.py')],
     ['factors, linear_map, adjoint_map'])

prop('P21', 'Fits are equivariant to relabelling, reordering and rescaling',
     "Renaming groups, permuting features together with their weights and groups, permuting cases, flipping the sign of a feature under a symmetric penalty, or scaling loss and penalty parameter together transforms the fitted coefficients accordingly and leaves optimal values unchanged. "
     "This holds for penalties, losses, solvers and regularisation paths alike.",
     ['inputs', 'configurations'], "every model, penalty, permutation, relabelling, sign pattern and scaling",
     "Tests never fit the same problem twice under a symmetry; labels in tests are sorted contiguous integers.",
     ['regreg/atoms/group_lasso.py', 'regreg/atoms/sparse_group_lasso.py', 'regreg/atoms/weighted_atoms.py', 'regreg/atoms/slope.py', 'regreg/smooth/glm.py', 'regreg/smooth/cox.py', 'regreg/paths/group_lasso.py', 'regreg/paths/sparse_group_lasso.py', 'regreg/paths/lasso.py', 'regreg/problems/simple.py'],
     [('group bookkeeping', 'regreg/atoms/group_lasso.py'), ('active-set bookkeeping', 'regreg/paths/*.py')],
     ['fitted coefficients and values of transformed problems'])

prop('P22', 'Multi-response and multinomial losses equal their per-response definition',
     "Multi-response losses (stacked and common-design responses, multinomial with and without a baseline class, block designs) evaluate to the sum over responses of the single-response losses, or to the categorical negative log-likelihood, with the true gradient, honouring scale, offsets, case weights and subsampling. "
     "Fitting responses jointly with no coupling penalty equals fitting them separately, the overparametrised multinomial is unchanged by adding a constant to every class, and the baseline form equals it with that class fixed at zero.",
     ['inputs', 'configurations'], "every number of responses and classes, counts, weights, offsets, designs and parameters",
     "Tests evaluate each loss on one dataset.",
     ['regreg/smooth/mglm.py', 'regreg/smooth/glm.py', 'regreg/affine/block_maps.py'],
     [('multinomial_loglike, multinomial_baseline_loglike, stacked_common_loglike', 'regreg/smooth/mglm.py'), ('stacked_loglike', 'regreg/smooth/glm.py')],
     ['smooth_objective of multi-response losses'])

prop('P23', 'Ill-posed specifications are refused, and their valid neighbours are not',
     "A specification for which the stated problem would be undefined or not convex never yields an object that answers: it raises when it is built, assigned or first used. This covers "
     "a penalty given in both forms or in neither, negative penalty parameters, negative penalty weights, SLOPE weights that increase or are not positive, negative or missing case weights, "
     "a negative loss scale, more successes than trials, negative or (where counts must be whole) fractional counts, a binomial response that is not binary without trials, unknown censoring status or missing event times, data whose lengths do not match, "
     "transforms whose shapes do not fit, overlapping groups in a separable penalty tested for overlap, and proximal or smoothing requests without curvature. A single bad entry anywhere suffices, by any amount, while boundary values "
     "(zeros, ties, all trials successful, everything censored) are accepted.",
     ['inputs', 'configurations'], "every specification of a penalty, loss, map or problem, every position and every size of the bad entry",
     "Tests build valid objects; a refusal rule must hold for every position and size of the bad entry and must not swallow the boundary.",
     ['regreg/atoms/seminorms.py', 'regreg/atoms/weighted_atoms.py', 'regreg/atoms/slope.py', 'regreg/atoms/__init__.py', 'regreg/smooth/__init__.py', 'regreg/smooth/glm.py', 'regreg/smooth/mglm.py', 'regreg/smooth/binary.py', 'regreg/smooth/cox.py',
      'regreg/affine/__init__.py', 'regreg/affine/block_maps.py', 'regreg/identity_quadratic.py', 'regreg/problems/container.py', 'regreg/problems/separable.py', 'regreg/problems/conjugate.py'],
     [('constructors of penalties', 'regreg/atoms/*.py __init__'), ('constructors and response setters of losses', 'regreg/smooth/*.py'), ('shape checks of composed maps', 'regreg/affine/*.py')],
     ['exceptions raised by constructors, setters and evaluations'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
