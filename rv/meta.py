META = {}
_NOTE = ("Every case executes the real, freshly rebuilt code and an oracle written independently of it decides the result; assurance is "
         "that no violation was seen on the generated cases of this run, not a proof. ")
META["P01"] = dict(
    rule="One case = a random penalty/constraint/cone (kind and form cycled by index; random size, weights, groups, shift, attached quadratic) and a random strictly convex request.",
    need=["prox:l1norm:lagrange", "prox:mixed_lasso", "setter:lagrange"],
    assumptions=["numpy SVD is trusted as reference for matrix norms"],
    technique="runtime monitor on every proximal call: subgradient / feasibility certificate of optimality",
    level_note=_NOTE + "Trusted: the reference gauges in rv/refpen.py and numpy's SVD; tolerance 1e-8 relative (1e-6 for group epigraphs).",
)
META["P02"] = dict(
    rule="One case = a random penalty/constraint/cone with random shift, attached quadratic, affine map, evaluated inside, on and outside its set and after parameter changes.",
    need=["verdict:inside", "verdict:outside", "verdict:projection", "value:l1norm:lagrange", "affine:l1norm", "setter:bound", "mixed:inside"],
    assumptions=["the documented relative feasibility tolerance (1e-5) is honoured: nothing is asserted in the band between it and 1e-3"],
    technique="runtime monitor on every value and verdict: comparison with independently written gauges",
    level_note=_NOTE + "Trusted: rv/refpen.py.",
)
META["P03"] = dict(
    rule="One case = a random penalty/constraint/cone with random shift and attached quadratic; its conjugate, biconjugate and both proximal maps are observed.",
    need=["conj:l1norm:lagrange", "conj:outside-verdict", "conj:inside-verdict", "moreau:l1norm:bound", "smoothconj:l1norm", "conj:affine", "conj:setter"],
    technique="runtime monitor on conjugates: Fenchel-Young, Moreau split, maximiser certificate, reference conjugate values",
    level_note=_NOTE + "Trusted: rv/refpen.py. Forms whose proximal map the library documents as missing are only checked by value.",
)
META["P04"] = dict(
    rule="One case = a random penalty/constraint/cone with shift and linear term, smoothed by a random strictly convex quadratic, observed at several points.",
    need=["env:l1norm:lagrange", "env:l1norm:bound", "bounds:l1norm", "affine-env:l1norm", "env:setter"],
    technique="runtime monitor on smoothed objectives: maximiser certificate (Fenchel gap), envelope bounds, Lipschitz and convexity observers",
    level_note=_NOTE + "Trusted: rv/refpen.py. Penalties that already carry a strictly convex quadratic cannot be smoothed by the library and are outside the precondition.",
)
META["P13"] = dict(
    rule="One case = random quadratics (all ways of giving coefficient, center, linear and constant part, including None, integers and matrices) and an operation or a random program of operations on them.",
    need=["quad:recenter", "quad:add", "quad:conj", "quad:conj-linear", "quad:slice", "quad:history", "quad:iszero"],
    technique="runtime monitor on every algebraic operation: values against the defining formula, operands watched for changes",
    level_note=_NOTE + "Precondition: a non-zero center is an array (a scalar one is a known finding for collapsed()).",
)
META["P08"] = dict(
    rule="One case = a random transform, up to three levels of nesting over 13 elementary and 21 composite constructions, built together with its dense matrix and offset.",
    need=["leaf:" + k for k in ("dense", "sparse", "diag", "centering", "selector", "intercept")] +
         ["comb:" + k for k in ("composition", "sum_w", "hstack", "vstack", "product", "residual", "adjoint", "posneg", "block_columns", "block_rows",
                                "tensorize", "nest", "selector_reshape")] + ["affine:columns", "power_L"],
    technique="runtime monitor on forward, affine and adjoint maps in random order: explicit dense matrix oracle, aliasing watch",
    level_note=_NOTE + "Trusted: numpy dense algebra.",
)
META["P09"] = dict(
    rule="One case = a random design (dense, integer, Fortran, strided, sparse; constant, wildly scaled, far-from-zero columns) and random options of normalize, plus models fitted through it.",
    need=["normalize:cs-", "normalize:-s-", "normalize:csi", "normalize:cs-:sparse", "constant-column", "fit:gaussian", "fit:logistic"],
    technique="runtime monitor on forward/adjoint maps and fits: explicitly centred and scaled matrix as oracle, data watched for changes",
    level_note=_NOTE + "Trusted: numpy dense algebra. Columns whose spread is below 1e-9 of their size (but not constant) are outside the precondition.",
)
META["P10"] = dict(
    rule="One case = a random structured operator (divided differences over random knots, trend filter and inverse, image lattice, multiscale intervals with a history of re-configurations, SMUCE statistic) against explicit enumeration.",
    need=["polynomials:trend_filter:3", "inverse", "lattice", "multiscale:all", "multiscale:updated", "multiscale:copy-after-update"],
    technique="runtime monitor on operators: textbook recursion, enumerated lattice edges and intervals, polynomial annihilation",
    level_note=_NOTE + "Knots are distinct (documented as coordinates); 'all intervals' are those with both ends among the sample positions, as the library's own reference matrix lists them.",
)
META["P20"] = dict(
    rule="One case = a random matrix of designed rank, gaps/ties, scale and singular vectors (also with disjoint supports) given densely or as a transform, factored from various guesses; proximal maps through one atom for a history of matrices.",
    need=["factor:wide", "factor:tall", "factor:rank0", "factor:rank1", "factor:guess", "truncated", "given:0", "given:1", "prox:nuclear:lagrange", "prox:operator:bound", "prox:history"],
    technique="runtime monitor on factors, maps and low-rank proximal maps: numpy's dense SVD as oracle",
    level_note=_NOTE + "Trusted: numpy SVD. Accuracy is checked at the iteration's tolerance (tight tolerance 1e-13 on spectra with ratio <= .6 or exact ties; default tolerance at 3%).",
)
META["P05"] = dict(
    rule="One case = a random smooth objective (losses of every family, quadratic/affine/sum/smoothed compositions) with random scale, offsets, weights and quadratics, observed on random lines in all modes.",
    need=["sat:logistic", "mean:logistic", "glm:huber", "quad:squared_transform", "sum", "huberized_svm", "check:gradient"],
    technique="runtime monitor on value/gradient calls: consistency of the three modes, secant bounds on random lines, finite differences",
    level_note=_NOTE + "Trusted: the reference losses of rv/refloss.py where a closed form exists; otherwise only self-consistency.",
)
META["P06"] = dict(
    rule="One case = a random loss with curvature (also through designs, dense or sparse), scale, offsets, case weights, subsamples.",
    need=["check:hessian", "check:derivative", "glm:cox", "glm-sub:logistic", "cox"],
    technique="runtime monitor on Hessians and Hessian products: independent second derivatives, derivative of the reported gradient, eigenvalues",
    level_note=_NOTE + "Trusted: rv/refloss.py. Huber-type losses document that they offer no curvature.",
)
META["P07"] = dict(
    rule="One case = a random loss with weights and a random re-weighting, subsample, copy or deletion/replication of observations.",
    need=["chain:3", "replicate:logistic", "replicate:cox", "sat:huber", "fit:gaussian", "empty"],
    technique="runtime monitor: metamorphic oracle, weighted/subsampled loss against the loss rebuilt on the explicitly deleted or replicated data and against the reference",
    level_note=_NOTE + "Losses are compared up to a constant that does not depend on the parameter.",
)
META["P19"] = dict(
    rule="One case = random event times with ties, censoring, weights, scale, offset and a linear predictor.",
    need=["ties", "censored", "invariance", "glm:subsample", "newdata"],
    technique="runtime monitor on survival losses: brute-force partial likelihood from the definition as oracle",
    level_note=_NOTE + "Precondition: linear predictors within a spread of 600 of each other.",
)
META["P21"] = dict(
    rule="One case = a random model and a random symmetry (group names, feature / row / column order, case order, case repetition, signs, units, common scale); "
         "the library's answers for both versions are compared after mapping one to the other.",
    need=["atom", "prox", "replicated", "nonzero", "path-point"],
    assumptions=["a strictly convex ridge makes the compared fits unique"],
    technique="metamorphic relation monitor over paired executions of penalties, losses, solvers and paths",
    level_note=_NOTE + "Relations are checked between executions of the library itself, no reference implementation is involved.",
)
META["P22"] = dict(
    rule="One case = a random multinomial / stacked / common-design / block-design loss (named constructors and mixed lists of single losses), with scale, offsets, weights, a chain of subsamples and copies, or a joint fit.",
    need=["common:logistic", "stacked:cox", "stacked:mixed", "mglm:baseline", "mglm:stacked", "block", "shift", "baseline", "two-class", "joint:gaussian", "joint:multinomial", "subsample"],
    technique="runtime monitor on multi-response losses: sum of independent single-response references, categorical log-likelihood, joint versus separate fits",
    level_note=_NOTE + "Values are compared up to a constant that does not depend on the parameter.",
)
META["P11"] = dict(
    rule="One case = a random convex problem (loss of any family, any penalty or several behind linear maps, offsets, quadratics attached to loss / penalty / problem / solve call) handed to one solver or formulation, with random starts and options, solved again warm.",
    need=["certified", "form:0", "form:3", "form:5", "merged:call", "container:2", "dual", "nesta", "admm", "newton", "separable:2", "tfocs"],
    technique="runtime monitor on solver results: each answer is compared with an optimum computed by independent proximal-gradient / ADMM runs and certified by Fenchel duality against the reference penalties",
    level_note=_NOTE + "Trusted: reference losses and penalties; the certificate makes the optimum itself independent of the library. First-order solvers are judged at tight tolerances (objective 1e-9 relative), splitting and smoothing schemes at the accuracy their iteration reaches when the inner solver is asked for full accuracy.",
)

META["P12"] = dict(
    rule="One case = a sequence of one to three (warm) runs of the first-order method on one random problem (all losses and penalties, smooth only, log-barrier composites that are infinite or NaN outside a polytope, given Lipschitz constants) with random options.",
    need=["accepted", "momentum", "backtracks", "rejects", "restarts", "history", "stop:objective", "stop:coef", "max-its", "warm", "barrier", "fixed", "prox-control", "via:solver", "via:solve"],
    technique="online monitor on the run: every proximal request and accepted iterate is recorded by a subclass installed on the problem object and checked against the majorisation, momentum, history, descent and stopping rules",
    level_note=_NOTE + "Trusted: reference losses and penalties for the objective of each iterate. The momentum rule is judged as the Nesterov sequence since the last restart.",
)

META["P16"] = dict(
    rule="One case = a random estimator of every family with random column layout (trials, weights, offset), regulariser, mixing and dataset; "
         "fit, predict, probability and score outcomes are compared with a reference optimum and reference losses.",
    need=["inputs-kept", "refit+clone", "score-seen", "null-gradient", "cv-folds"],
    assumptions=["R2 compares with the constant prediction at the plain mean response, without offset", "a single offset column is undefined for multinomial responses"],
    technique="online assertion monitor over estimator histories (fit, refit, clone, set_params, predict, score, scikit-learn cross validation), argument and "
              "constructor-call recording, against certified optima and reference scores",
    level_note=_NOTE + "Every estimator class and score method is driven; coefficients judged by certified optimum.",
)
META["P17"] = dict(
    rule="One case = a random object (every penalty, loss, multi-response loss, transform, quadratic, problem) and a random interleaving of 8-18 questions to it, or a copy and its original with one of them changed.",
    need=["history", "independent", "derived", "life:penalty", "life:loss", "life:glm", "life:multi", "life:other", "life:transform", "life:quadratic", "life:problem"],
    technique="history monitor: each answer of a long-lived object is compared with a fresh object's; every array handed in or out and every derived object is re-inspected after each step",
    level_note=_NOTE + "Oracle: a fresh object built from the same seed and asked only once. Questions answered by iteration (solves, containers) are compared to solver accuracy.",
)

META["P18"] = dict(
    rule="One case = a random call or history of calls that reaches a compiled kernel (survival, projection, piecewise-linear, mixed-penalty), with sizes from empty to thousands, ties, strides, zero or infinite weights, or with one inconsistent length or label.",
    need=["sanitized", "cox", "cox:n1", "cox:nlarge", "kernel:0", "kernel:1", "kernel:2", "kernel:3", "kernel:4", "kernel:n0", "mixed:0", "mixed:1", "mixed:2", "stride:2", "stride:-1", "history",
          "refused:labels", "refused:undefined-times", "refused:times", "refused:censoring", "refused:eta", "refused:weights", "refused:call-weights", "refused:right-vector", "refused:reset", "refused:mixed", "refused:group", "refused:design"],
    variants=["asan"],
    technique="AddressSanitizer + UndefinedBehaviorSanitizer build of the extension modules, guard zones around arguments, NaN-filled fresh memory, refusal monitor",
    level_note=_NOTE + "The interpreter and numpy are not instrumented: accesses made inside numpy on behalf of a kernel are covered by numpy's own checks and by the guard zones. numpy recycles small blocks, so a kernel's use of a freed small array can escape AddressSanitizer; the NaN filling and history monitors look for its effect.",
)
META["P14"] = dict(
    rule="One case = a random path problem (loss, design with correlated/duplicated/scaled columns, weights, free features, group labels, elastic net, "
         "l1/l2 mixing), a decreasing sequence (default, coarse, starting above or below the largest) and one or all of five strategies.",
    need=["points:strong", "points:strong-active", "points:warm", "points:basil", "points:basil-inner", "seq:above", "seq:below", "default", "agreed",
          "history:fresh"] + ["subsample:" + k for k in ("lasso", "group", "sgl", "multi", "blocks")],
    assumptions=["features left out by screening may violate their optimality condition by the documented 1e-2 (check_KKT tolerance)",
                 "features are unpenalised by whole groups", "the unpenalised fit exists"],
    technique="online monitor over every point of every path: prox-gradient residual of the full problem with independently written losses and penalties; "
              "differential monitor between strategies, subsamples and repeated runs",
    level_note=_NOTE + "Trusted: rv/refloss.py and the block prox in p14.py; residual tolerance 1e-4 of the coefficient scale (5e-4 for basil, which stops on the objective).",
)
META["P15"] = dict(
    rule="One case = a random path problem of every kind (p14), a fold count, score, random state, worker count and path fitter; hooks record every subsample, fold fit and score call.",
    need=["score-matched", "fold-fit", "concurrent"],
    assumptions=["the documented rescaling of the training loss to the full sample size", "each fold leaves a finite unpenalised fit"],
    technique="offline checker over the recorded log of subsample, fit and score calls (partition, exactly-once scoring, held-out responses, mean and std); "
              "optimality monitor on every fold's coefficients; stress with forced thread switching",
    level_note=_NOTE + "Concurrency reach comes from a 1 microsecond switch interval and up to 8 threads, not from schedule enumeration.",
)
META["P23"] = dict(
    rule="One case = a random valid specification of a penalty, loss, map or problem, which must be accepted, and the same specification with one randomly chosen entry moved outside the documented domain (by amounts from 1e-300 to 1e3), which must raise.",
    need=["refused", "accepted"],
    technique="fault-injection monitor: single-entry corruption of valid specifications, observing acceptance or refusal at construction, assignment and call",
    level_note=_NOTE + "Any exception counts as a refusal.",
)

# how far the quick budgets of the families are stretched (cases are numbered, so a larger budget extends a smaller one)
for _p, _k in dict(P01=4, P02=2.5, P03=2.5, P04=4, P05=4, P06=5, P07=3, P08=5, P09=4, P10=6, P11=1.4, P12=2.5, P13=5, P16=1.3,
                   P17=2, P19=4, P20=5, P21=1.2, P22=2.5, P23=3).items():
    META[_p]["quick_scale"] = _k
