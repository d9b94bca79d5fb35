"""The properties, in the order of properties.jsonl."""
PROPS = []
NA = {}


def prop(id, title, statement, over, forall, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech))


prop("P01", "A failed user evaluation is never swallowed",
     "Whenever a user-supplied evaluation (objective, gradient, constraints, constraint Jacobian, Lagrangian Hessian) reports failure at any point of a solve, "
     "every function that triggered it reports failure to its own caller, and the solve ends with status Error_In_User_Function instead of going on with the "
     "stale or partial data (Error_In_FR when the failure happened inside the nested feasibility-restoration solve). The only tolerated continuation is "
     "a documented fallback in which the same quantity is successfully re-evaluated through the other form of the callback (e.g. one-call constraint evaluation). "
     "The C and Fortran entry points hand the resulting status to their caller.",
     ["inputs", "fault_sequences"], "for every evaluation call site, every failure position in every solve",
     "The test drivers' callbacks never fail, so no failing path is ever executed.",
     ["src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopNlpFormulation.cpp", "src/Optimization/hiopFRProb.cpp", "src/Optimization/hiopAlgPrimalDecomp.cpp", "src/Interface/chiopInterface.cpp"],
     [("boolean results of eval_* are tested and lead to Error_In_User_Function", "hiopAlgFilterIPMBase::evalNlp*, run(), feasibility restoration")])

prop("P02", "Dense factorizations and solves report failure and inertia truthfully",
     "For every matrix, right-hand side and outcome of LAPACK: the symmetric dense solver factors its whole matrix (lower triangle in Fortran order, order and leading dimension that of the matrix) exactly once per request and returns -1 if the factorization reports "
     "an error or a zero pivot, or if an eigenvalue pivot vanishes (magnitude below 1e-14), and otherwise exactly the number of negative pivots of the block diagonal factor, 2x2 blocks counted through their determinant and off-diagonal entry; an empty matrix has "
     "no negative pivots. A solve uses these factors and pivots for its one right-hand side, leaves the solution in its place and returns success exactly when LAPACK reports none of its errors. The solve of the low-rank KKT system passes the system to the expert "
     "driver, reports a failed factorization, and otherwise returns the solution after up to three corrections, each the solve with the original matrix for the residual of the current solution with respect to the original matrix and right-hand side, made "
     "exactly while the largest residual is not below 1e-8. The verdicts of factorizations and solves are passed on unchanged by the multiplier systems (symmetric indefinite: success means no negative or zero pivots).",
     ["inputs", "faults"], "for every matrix, pivoting and LAPACK outcome (orders up to 4 unrolled for the inertia, any order otherwise)",
     "Tests factor a few well-conditioned matrices; 2x2 pivots in particular positions, singular matrices and failing factorizations do not occur.",
     ["src/LinAlg/hiopLinSolverSymDenseLapack.hpp", "src/Optimization/hiopKKTLinSys.cpp", "src/Optimization/hiopDualsUpdater.cpp"],
     [("symmetric indefinite solver", "hiopLinSolverSymDenseLapack::matrixChanged, solve"), ("positive definite solve with refinement", "hiopKKTLinSysLowRank::solveWithRefin"), ("multiplier systems", "hiopDualsLsqUpdateLinsysRedDenseSym")])

prop("P03", "Assertions and deep checks never change what a solve computes",
     "Enabling or disabling assertions (NDEBUG) or the HIOP_DEEPCHECKS self-checks changes nothing about the computed results: asserted expressions have no side "
     "effects, and code compiled only for checking neither modifies solver state, nor changes control flow or returned values, except for aborting the process.",
     ["configurations", "programs"], "for every assertion, every block under HIOP_DEEPCHECKS and every block under NDEBUG in the library",
     "The tests run in one build configuration only; a side effect that exists in one configuration is invisible there.",
     ["src/Optimization", "src/LinAlg", "src/Utils"],
     [("asserts call only pure predicates; deep checks work on private copies", "all source files")])

prop("P23", "Every formatted message is consistent with its arguments",
     "For every message printed or formatted by the library, the number, types and order-dependent kinds (integer, floating point, string, width) of the arguments agree with "
     "the conversions in the format string, so that logging never reads arguments that were not passed or misinterprets their representation.",
     ["inputs", "configurations"], "for every printf-style call site (logger, printf, snprintf) with a literal format, in all verbosity levels and all error paths",
     "Most messages sit on error or high-verbosity paths that no test reaches, and the logger is not annotated, so the compiler does not check it.",
     ["src/Utils/hiopLogger.cpp", "src/Optimization", "src/LinAlg", "src/Utils"],
     [("hiopLogger::printf and its callers", "src/Utils/hiopLogger.hpp")])

prop("P12", "Vector kernels compute their documented algebra for every input",
     "Every element-wise, selective, copying, reducing and testing operation of the host vector hiopVectorPar (axpy/axzpy/axdzpy and their pattern forms, component-wise products, quotients, min/max, "
     "copies between full, sub and indexed vectors, fraction to the boundary, log-barrier value and gradient, linear damping, projection into bounds, dual adjustment, pattern tests, norms, dot products, "
     "element counts, finiteness tests) stores or returns, for every length including zero, every content, every pattern, every offset and every number of ranks, exactly the function of its operands "
     "documented in hiopVector.hpp; elements and operands that are not the destination are left unmodified; non-local reductions combine the contributions of all ranks with the right reduction operator.",
     ["inputs", "configurations"], "for every element index, vector length, pattern, offset, scalar and rank count",
     "Unit tests use constant vectors of one length with one or two special entries and one rank; index, offset, pattern and reduction errors survive them.",
     ["src/LinAlg/hiopVectorPar.cpp", "src/LinAlg/hiopVector.hpp"],
     [("kernels loop over the local elements and reduce with MPI_Allreduce", "src/LinAlg/hiopVectorPar.cpp")])

prop("P13", "Dense matrix kernels compute their documented algebra for every shape",
     "Every operation of the dense row-major matrix hiopMatrixDenseRowMajor (products with vectors and matrices with and without transposition, scaled additions, additions of full and partial diagonals, additions "
     "into upper triangles of symmetric matrices at offsets, block, row and column copies, row shifts, appends and replacements, triangle mirroring, row norms and scaling, finiteness tests) leaves in every entry of its destination exactly "
     "the documented function of its operands for every shape, leading dimension, offset, scalar and rank count, and modifies nothing else.",
     ["inputs", "configurations"], "for every entry, shape, block position, scalar and rank count",
     "Unit tests use constant matrices, square shapes or zero offsets, where transposed or shifted accesses give the same answer.",
     ["src/LinAlg/hiopMatrixDenseRowMajor.cpp", "src/LinAlg/hiopMatrix.hpp", "src/LinAlg/hiopMatrixDense.hpp"],
     [("BLAS calls and loops over M_", "src/LinAlg/hiopMatrixDenseRowMajor.cpp")])

prop("P10", "Iterate, residual and barrier updates implement the primal-dual formulas",
     "For every bound pattern (lower, upper, both or no bounds on each variable and inequality), step length, barrier parameter and problem size: the iterate operations "
     "(primal and dual steps, slacks from x and d, initial bound duals, clearing of unbounded components, norms of the duals, fraction-to-the-boundary step lengths, the kappa_Sigma correction of the bound duals, "
     "log-barrier value and gradient, linear damping on one-sided bounds, safeguarding of small slacks), the residual operations (the residual of the perturbed KKT system and of its second-order-correction form, "
     "the infinity and one norms of optimality, feasibility and complementarity for the NLP and the barrier problem, copies), the barrier problem (value, gradient, directional derivative, non-log-barrier terms), the scaled "
     "overall errors used by the termination tests, the update of mu and tau, and the Newton dual update each compute exactly the primal-dual interior-point formula "
     "documented for them on every component, use each bound vector only with its own pattern, slack and dual, and modify nothing else.",
     ["inputs", "configurations"], "for every bound pattern, iterate, step length, barrier parameter, scaling and rank count",
     "End-to-end tests still converge with a slightly wrong residual, norm or step, and their problems exercise few bound patterns; there are no unit tests of these classes.",
     ["src/Optimization/hiopIterate.cpp", "src/Optimization/hiopResidual.cpp", "src/Optimization/hiopLogBarProblem.hpp", "src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopDualsUpdater.cpp"],
     [("vector operations guarded by ixl, ixu, idl, idu", "hiopIterate, hiopResidual, hiopLogBarProblem"), ("scaled errors and barrier parameter update", "hiopAlgFilterIPMBase::evalNlpAndLogErrors, update_log_barrier_params")])

prop("P11", "KKT systems are assembled and condensed consistently with the full Newton system",
     "For every problem size, bound pattern, iterate and inertia-correction perturbation (delta_wx, delta_wd, delta_cc, delta_cd): in each KKT linear system that is built here (dense XYcYd and XDYcYd, "
     "mixed dense-sparse XYcYd, quasi-Newton low-rank, normal equations, full) update() computes the barrier diagonals Dx and Dd from the current iterate and each bound only where it exists; the assembled symmetric matrix has in its upper triangle exactly the "
     "blocks of the (perturbed) Newton system after elimination, every perturbation on its own diagonal block; the right-hand side handed to the linear solver is the condensed residual; the solution is split into "
     "dx, dd, dyc and dyd, and the eliminated unknowns (dual slack directions, slack directions) are recovered by the elimination formulas; a failed factorisation or solve is reported and not used; the negative-curvature test of the "
     "inertia-free method compares d'Wd with the tolerance times the squared norm of d, W including barrier diagonals and perturbations; and the operator used in iterative refinement is the full (perturbed) KKT operator.",
     ["inputs", "configurations"], "for every size, bound pattern, iterate and perturbation",
     "Newton-type tests converge with slightly wrong blocks, perturbations are zero on almost all tested problems, and single entries of a wrong direction are hidden by the line search.",
     ["src/Optimization/hiopKKTLinSys.cpp", "src/Optimization/hiopKKTLinSys.hpp", "src/Optimization/hiopKKTLinSysDense.hpp", "src/Optimization/hiopKKTLinSysMDS.cpp"],
     [("condensation and recovery", "computeDirections, compute_directions_for_full_space, solveCompressed"), ("matrix assembly", "build_kkt_matrix, update"), ("curvature test and full operator", "test_direction, hiopMatVecKKTFullOpr::times_vec")])

prop("P15", "Inertia correction and direction acceptance follow their protocol",
     "For every history of factorizations of the KKT matrices: a factorization is accepted only if it has the inertia required by the acceptance strategy (exactly m_eq+m_ineq negative eigenvalues for the inertia-based one, "
     "nonsingularity for the inertia-free one; with the sparse Hessian block of a mixed dense-sparse problem accounted for); otherwise the perturbations are changed by the correction for singularity or the one for wrong inertia that applies, the matrix is reassembled with the new perturbations "
     "before it is factorized again, the number of corrections per matrix is bounded, and a correction or assembly that fails is reported as failure, never as success. The sizes delta_wx=delta_wd and delta_cc=delta_cd, the remembered last ones, the degeneracy flags and counters follow Algorithm IC "
     "(first value, decrease of the last one, the two growth factors, minimal and maximal size, dual size delta_c_bar*mu^kappa_c) with the parameters taken from the options of the same meaning, and the perturbation vectors always carry these sizes (times a ratio within the configured limits for the randomized variants). "
     "A search direction is used only if it was solved for with the last successful factorization and passed the curvature test; a direction that was rejected or could not be computed is never used for a step.",
     ["histories", "inputs"], "for every sequence of factorization outcomes, every discrete state of the correction and every size of the perturbations",
     "Almost all tested problems never need a correction, and none needs two kinds of correction in one matrix or a failing one.",
     ["src/Optimization/hiopPDPerturbation.cpp", "src/Optimization/hiopFactAcceptor.cpp", "src/Optimization/hiopKKTLinSys.cpp", "src/Optimization/hiopAlgFilterIPM.cpp"],
     [("perturbation state machine", "hiopPDPerturbation*"), ("factorization acceptance", "hiopFactAcceptor*::requireReFactorization"), ("refactorization loops", "hiopKKTLinSysCurvCheck::factorize, factorize_inertia_free"), ("direction acceptance", "compute_search_direction*, run")])

prop("P04", "Options are registered, typed and legal, and have their documented effect",
     "Every option is registered once, with a default inside its legal range or among its legal values, legal strings being lower case; every read or write of an option by name names a registered option with its type; every constant a "
     "string option is compared with, and every value the code installs, is legal; every option is consulted. SetNumericValue/SetIntegerValue/SetStringValue: a value outside the legal set is rejected and leaves the option as it was; "
     "a value from the options file overrides one set at run time, never the reverse; an option so set counts as user-defined (is_user_defined); strings of options with legal values are lower-cased, free strings (file names) kept; the consistency rules "
     "run afterwards unless put off. Consistency rules: a user-set acceptable_tolerance/dual_tol/cons_tol/comp_tol below 'tolerance' becomes 'tolerance'; Hessian=quasinewton_approx resets an incompatible KKTLinsys to auto; the exact Hessian uses "
     "linear dual updates; linear_solver_sparse, mem_space, callback_mem_space, compute_mode and fact_acceptor fall back to values this build and KKTLinsys support; of two moving limits the absolute one wins. Each option read into a parameter "
     "(filter IPM incl. the constants of reload_options, tau=max(tau_min,1-mu), duals updater, inertia correction, primal decomposition, logger) sets exactly that parameter; the restoration problem gets the documented options and its "
     "result is mapped to the documented status; the logger prints nothing above verbosity_level and, vectors excepted, only on the master rank.",
     ["inputs", "configurations"], "for every option, value and order of setting options",
     "The tests use a few options of a few drivers; wrong values, files against run-time settings and most consistency rules are never exercised.",
     ["src/Utils/hiopOptions.cpp", "src/Utils/hiopOptions.hpp", "src/Utils/hiopLogger.cpp", "src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopPDPerturbation.hpp", "src/Optimization/hiopAlgPrimalDecomp.cpp"],
     [("registry and setters", "hiopOptions::Set*Value, set_val, register_*; register_options()"), ("consistency", "hiopOptionsNLP::ensure_consistence, hiopOptionsPriDec::ensure_consistence"),
      ("parameters", "hiopAlgFilterIPMBase::reload_options, reInitializeNlpObjects, solve_feasibility_restoration; hiopPDPerturbation::initialize")])

prop("P05", "Ranks of a distributed run stay together and their messages match",
     "In a run on several MPI ranks every collective operation - a collective of MPI (reduction, broadcast, gathering), any function of the library that performs one (norms, dot products, minima, residual, "
     "line-search and KKT routines), and each evaluation or notification callback of the user's problem - is reached by all ranks of the communicator or by none, the same number of times: it is never executed, skipped, repeated or returned "
     "from beforehand because of a quantity that can differ between ranks (the rank itself, the size of the local part, local elements or local reductions of distributed vectors and matrices). Counts and roots of collectives are "
     "the same on all ranks. The buffers of every MPI call have the declared datatype and at least the declared extent, send and receive buffers do not coincide, buffers of nonblocking operations outlive the function that posts them. The result "
     "of a reduction is used in place of the local part. In the primal decomposition every message kind (tag, datatype, count) that is sent is also received, and conversely.",
     ["schedules", "configurations", "inputs"], "for every number of ranks, distribution of the variables (empty and unequal local parts included) and data",
     "The tests run on one or a few ranks with even distributions; an early return on one rank or an asymmetric collective shows as a hang only for particular partitions or data.",
     ["src/LinAlg/hiopVectorPar.cpp", "src/LinAlg/hiopMatrixDenseRowMajor.cpp", "src/Optimization/hiopIterate.cpp", "src/Optimization/hiopResidual.cpp", "src/Optimization/hiopNlpFormulation.cpp", "src/Optimization/hiopAlgFilterIPM.cpp",
      "src/Optimization/hiopHessianLowRank.cpp", "src/Optimization/hiopFRProb.cpp", "src/Optimization/hiopAlgPrimalDecomp.cpp"],
     [("collectives", "all functions that perform one, directly or through calls"), ("messages", "ReqRecourseApprox, ReqContingencyIdx, hiopAlgPrimalDecomposition::run, run_local")])

prop("P06", "The C and Fortran interfaces pass the user's problem and the result through",
     "A problem given through the C interface (mixed dense-sparse, dense) or the Fortran interface (dense) is the one that is solved: each evaluation request of the solver (sizes, bounds, starting point, objective, gradient, constraints, Jacobian, Hessian) "
     "reaches the user's callback or routine of that name exactly once on every path, with the sizes, point, new-point and new-multiplier flags, objective factor, multipliers, output arrays and user data of the request, each in its documented place and unchanged, and "
     "what the callback wrote is what the solver gets. Every variable and constraint is given a kind, and no more. Requests for a subset of the constraints are declined, so the one-call form is used. The Fortran layer copies sizes, bounds and starting point, hands out exactly these, and every callback slot holds the "
     "wrapper and the user routine of that name. Creating a problem builds the formulation on the user's callbacks; a solve runs the solver once on it and delivers its objective, number of iterations, status and solution (complete, unmodified) to the caller, "
     "in C and in Fortran; destroying it releases the formulation and then the interface object exactly once.",
     ["inputs", "configurations"], "for every user problem, size and callback behaviour",
     "The driver tests use callbacks that ignore most arguments (new_x, user data) and check the objective only; a swapped or dropped argument shows for other callbacks.",
     ["src/Interface/chiopInterface.hpp", "src/Interface/chiopInterface.cpp", "src/Interface/hiopFortranInterface.c"],
     [("C++ callback objects", "cppUserProblemMDS, cppUserProblemDense"), ("C entry points", "hiop_*_create_problem, hiop_*_solve_problem, hiop_*_destroy_problem"), ("Fortran layer", "*_dense_wrapper, hiopdenseprob_, hiopdensesolve_")])

prop("P07", "The user's problem is transformed for the solver, and results back, faithfully",
     "For every problem: with any chain of transformations (fixed variables relaxed or removed, gradient-based scaling, bounds relaxed) each user callback is called with the user's number of variables and constraints, the iterate mapped back to the user's variables, "
     "the caller's new_x / new_lambda flags and the index map and multipliers in the order the interface documents, and what it returns reaches the solver in the solver's variables and order, multiplied exactly once by the scaling factor of the objective or of its constraint "
     "(objective, gradient, constraints evaluated separately or in one call, dense, mixed dense-sparse and sparse Jacobians and Hessians, multipliers of the Hessian); scaling factors are those the options specify, variable and constraint bounds, right-hand sides, bound patterns, "
     "their counts and the split of constraints into equalities and inequalities follow from the user's bounds; relaxed bounds move outwards by the configured relative amount from the original ones; a variable counts as fixed by the one tolerance test, the maps between full and reduced vectors and "
     "matrices are inverse to each other and a removed variable has its bound as value. Starting points are taken from the user in the user's terms; objective, solution, duals and constraint values are handed back unscaled (by the getters and by the solution callback, "
     "the iterate callback gets the unscaled objective), in the user's order, and the solver's own data are left as they were.",
     ["inputs", "configurations"], "for every problem, scaling factor, pattern of fixed variables and bounds, order of constraints, chain of transformations up to three",
     "Almost no test scales, none removes fixed variables with a dense Jacobian evaluated in one call, or checks dual solutions with scaling.",
     ["src/Optimization/hiopNlpFormulation.cpp", "src/Optimization/hiopNlpFormulation.hpp", "src/Optimization/hiopNlpTransforms.cpp", "src/Optimization/hiopNlpTransforms.hpp"],
     [("transformations", "hiopFixedVarsRemover, hiopFixedVarsRelaxer, hiopNLPObjGradScaling, hiopBoundsRelaxer, hiopNlpTransformations"), ("evaluation layer", "hiopNlpFormulation::eval_*, hiopNlpDenseConstraints, hiopNlpMDS, hiopNlpSparse"),
      ("bounds and constraints", "process_bounds, process_constraints, adjust_bounds, reset_bounds"), ("results", "user_obj, user_x, get_dual_solutions, user_callback_solution")])

prop("P31", "Decisions and reports about an iterate use quantities evaluated at it",
     "For every history of the optimization loops: whatever enters the barrier function, the residual, the linear system, the search direction, the slope, the step length, the filter and line-search test, the multiplier update, "
     "the convergence errors, the termination test or the report of an iterate (objective, constraint bodies, gradient, Jacobians, Hessian, barrier function, residual, infeasibility) was evaluated at that very iterate, after its last modification, "
     "and with the current barrier parameter; it is recomputed, or the filter is reset, whenever the iterate or the barrier parameter changes in between (also after second-order corrections, feasibility restoration, slack adjustments and refreshed duals), "
     "exchanges of current and trial point carry all their quantities along, and the user is told that x is unchanged (new_x=false) only if it is the x of the last evaluation.",
     ["histories", "inputs"], "for every sequence of accepted, corrected, restored and rejected steps and every sequence of barrier parameters",
     "A stale quantity only slows down or misleads single iterations; most tested problems never take the paths on which it would be stale.",
     ["src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopLogBarProblem.hpp", "src/Optimization/hiopResidual.cpp"],
     [("optimization loops", "hiopAlgFilterIPMQuasiNewton::run, hiopAlgFilterIPMNewton::run"), ("evaluations", "evalNlp*"), ("corrections and restoration", "apply_second_order_correction, apply_feasibility_restoration, solve_soft_feasibility_restoration")])

prop("P14", "The filter line search accepts, shortens, augments and restores as specified",
     "For every trial point: the filter contains a point exactly if some entry is no worse in both infeasibility and barrier objective, adding an entry and (re)initialising it keep exactly the entries documented, the limits theta_max and theta_min follow from the infeasibility at the starting point. "
     "The acceptance test is the one of the filter method: far from feasibility sufficient decrease in infeasibility or barrier objective, near it the switching condition decides between Armijo and sufficient decrease, and a point the filter contains is never accepted; the value returned says by which rule it was accepted. "
     "The parameters (gamma_theta, gamma_phi, s_theta, s_phi, delta, eta_phi, ...) are the options of that name. The second-order correction corrects the constraints with the accumulated right-hand sides, for at most the configured number of steps, while infeasibility decreases enough, and accepts by the same test; soft restoration "
     "accepts only a step that reduces the primal-dual error by the required factor and is not in the filter. After acceptance the filter is augmented exactly when the switching condition or Armijo does not hold. The optimization continues only from a point accepted by the test, or by restoration, "
     "or when the user switched testing off (accept_every_trial_step, in which case restoration is not started for it); after a rejection the step is shortened before the next trial point, and a failed restoration always ends with a status other than 'pending'.",
     ["inputs", "histories"], "for every filter content, infeasibility, objective value and step, every path of the line search",
     "Tests solve a few convex problems: filters with several entries, corrections, restoration and switched-off testing are hardly reached.",
     ["src/Optimization/hiopFilter.cpp", "src/Optimization/hiopFilter.hpp", "src/Optimization/hiopAlgFilterIPM.cpp"],
     [("filter", "hiopFilter"), ("acceptance test", "accept_line_search_conditions"), ("corrections and restoration", "apply_second_order_correction, solve_soft_feasibility_restoration, apply_feasibility_restoration"), ("line search loops", "hiopAlgFilterIPMQuasiNewton::run, hiopAlgFilterIPMNewton::run")])

prop("P08", "A solve ends with the status that says what happened; failures are never lost",
     "For every problem, history of callback outcomes and path of the algorithm: the termination test claims success exactly when all four errors are within their tolerances, success relative to the initial errors exactly under the relative tolerance, acceptable level exactly after the configured number of consecutive "
     "iterates within the acceptable tolerance, the iteration limit exactly when it is reached, in this order, and every iteration is counted exactly once between two tests. A false returned by a user callback is reported as failure by every evaluation function up to the algorithm (and success only if none failed); "
     "nothing more is evaluated after it, the iterate is not advanced and the solve ends with Error_In_User_Function - which is the status if and only if an evaluation failed. User_Stopped is the status if and only if the iterate callback asked to stop. A success status is only ever set by the termination test, and once the test "
     "succeeds the solve ends with that status. The status returned is the one kept for the getters, it is never 'pending', and the termination message knows every status the optimization loop ends with.",
     ["inputs", "fault points", "histories"], "for every sequence of callback outcomes and errors, every path of both optimization loops and the functions they call",
     "Tests have no failing callback and end with success or the iteration limit; failures inside restoration or the line search are never exercised.",
     ["src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopNlpFormulation.cpp"],
     [("termination test", "checkTermination"), ("evaluation layers", "hiopNlp*::eval_*, evalNlp_*, startingProcedure"), ("optimization loops", "hiopAlgFilterIPMQuasiNewton::run, hiopAlgFilterIPMNewton::run"), ("termination message", "displayTerminationMsg")])

prop("P16", "Sparse and mixed dense-sparse matrix kernels compute what they document",
     "For triplet matrices of every size, number and pattern of nonzeros (row-sorted), values and offsets: products and transposed products with vectors (beta*y + alpha*A*x, symmetric matrices counting each off-diagonal entry twice), the product with a transposed "
     "sparse matrix, M*D^-1*M' and M*D^-1*N' added to a block of a dense symmetric matrix, the additions of a sparse matrix, its transpose or its upper triangle into a dense matrix at a row/column offset, copies into dense or triplet arrays, the writers of "
     "diagonal blocks and submatrices (whole, transposed, patterned, constant) starting at a given nonzero position, extraction and addition of (sub)diagonals, row scaling (and its inverse), largest absolute value per matrix and per row, finiteness, "
     "is-diagonal and the count of off-diagonal nonzeros compute exactly the documented function, entry by entry, and change nothing outside their destination. The mixed dense-sparse and block-diagonal matrices apply the corresponding operation to the sparse "
     "and the dense block with the right offset, factor and part of the vectors, and combine the results (sum, maximum, conjunction).",
     ["inputs"], "for every matrix pattern, size, offset, scalar and vector",
     "Unit tests use one or two patterns, zero offsets, factor one and all-ones values; an ignored factor or offset and a wrong index only show otherwise.",
     ["src/LinAlg/hiopMatrixSparseTriplet.cpp", "src/LinAlg/hiopMatrixSparseTriplet.hpp", "src/LinAlg/hiopMatrixMDS.hpp"],
     [("triplet kernels", "hiopMatrixSparseTriplet, hiopMatrixSymSparseTriplet"), ("mixed matrices", "hiopMatrixMDS, hiopMatrixSymBlockDiagMDS")])

prop("P17", "Feasibility restoration solves the documented elastic problem",
     "For the three restoration problems (sparse, mixed dense-sparse, dense) and every base problem, reference point and barrier parameter: variables are [x, pe, ne, pi, ni] with bounds those of x and [0, inf) for the rest; the objective is rho (sum of pe, ne, pi, ni) + zeta/2 ||DR (x - x_ref)||^2 with rho = 1000, zeta = sqrt(mu), "
     "DR = 1/max(1,|x_ref|), its gradient exactly that derivative; the constraints are c(x) - pe + ne = c_rhs and dl <= d(x) - pi + ni <= du, evaluated by the base problem at x, with Jacobian [J, -I, I] per block at the right rows and columns; the Hessian is that of the base Lagrangian (objective factor 0) plus zeta DR^2 "
     "on the diagonal of x. The values and the pattern of the derivatives agree entry by entry, and the declared sizes and nonzeros are those returned. The starting point has p and n from the closed formula for the reference point (positive, p - n = residual). "
     "The iterate callback stops the restoration exactly when the infeasibility has dropped by the factor kappa_resto and the point is acceptable to the filter of the base problem, and then hands over x and the slacks of that point.",
     ["inputs", "configurations"], "for every base problem, reference point, multipliers and mu",
     "Restoration is triggered by one or two tests only, with the inequality/equality structure of that example; a wrong derivative or sign just slows it.",
     ["src/Optimization/hiopFRProb.cpp", "src/Optimization/hiopFRProb.hpp", "src/LinAlg/hiopMatrixMDS.hpp"],
     [("restoration problems", "hiopFRProbSparse, hiopFRProbMDS, hiopFRProbDense"), ("block matrices", "hiopMatrixMDS::set_Jac_FR, hiopMatrixSymBlockDiagMDS::set_Hess_FR"), ("stopping test", "iterate_callback")])

prop("P18", "Krylov solvers report success only for verified solutions",
     "For every operator, preconditioner, right-hand side, starting point and tolerance, PCG and BiCGStab report success only if the right-hand side is zero (and is left in its place), or if the vector left in the place of the right-hand side is one whose residual, "
     "recomputed with the operator against the original right-hand side, was tested to be at most tol times the norm of the right-hand side; the convergence flag is then 0, and the absolute and relative residuals reported are those of the returned vector. "
     "What is compared with the tolerance is always the norm of the residual of the current iterate: a residual carried along is updated together with the iterate, and by the same step. In every other case the solver returns false with a nonzero flag and still delivers an iterate (the best or the last one); "
     "the relative residual is the absolute one divided by the norm of the right-hand side, and where the best iterate is delivered its own residual is recomputed and reported. The right-hand side is not modified before the result is delivered. Each solve of the KKT wrapper works on the right-hand side "
     "of, and delivers into the solution object of, that very call, and the compound vector lines up the twelve parts of iterates and residuals in the order of the full KKT operator.",
     ["inputs", "histories"], "for every operator, preconditioner, right-hand side, start, tolerance and sequence of solves",
     "The one Krylov test solves two tiny systems that converge at once; the branches for stagnation, breakdown, extra steps and failure never run, nor does a second call of the wrapper.",
     ["src/LinAlg/hiopKrylovSolver.cpp", "src/LinAlg/hiopVectorCompoundPD.cpp", "src/Optimization/hiopKKTLinSys.cpp"],
     [("solvers", "hiopPCGSolver::solve, hiopBiCGStabSolver::solve"), ("wrappers", "solve(hiopIterate*, const hiopResidual*)"), ("compound vector", "hiopVectorCompoundPD")])

prop("P20", "The quasi-Newton Hessian is the documented limited-memory BFGS matrix",
     "For every sequence of iterates, gradients and Jacobians, every memory length and every sigma strategy: at each update s = x - x_prev and y is the change of the gradient of the Lagrangian at the current "
     "multipliers, y = grad f - grad f_prev + (Jc - Jc_prev)'yc + (Jd - Jd_prev)'yd; a pair is stored exactly when ||s||_inf >= 100 eps and s'y > ||s|| ||y|| sqrt(eps); the newest secant_memory_len pairs are kept in "
     "order of age (append while there is room, otherwise drop the oldest), with L the strictly lower part of S'Y and D its diagonal kept consistent; sigma follows the selected strategy, clamped to "
     "[1e-8, 1e8]; the iterate, gradient and Jacobians are saved for the next update. With B = sigma I - [sigma S, Y] N^{-1} [sigma S, Y]' (compact form) and barrier diagonal Dx, solve applies (B + Dx)^{-1}, "
     "symMatTimesInverseTimesMatTrans computes beta W + alpha X (B + Dx)^{-1} X', the matrix V is assembled blockwise from S, Y, L, D and (sigma I + Dx)^{-1}, and is rebuilt before its next use after every update of the barrier diagonal, "
     "its factorisation and solves pass the right sizes and data to LAPACK, and the product with a vector agrees with the recursive definition (a_k, b_k) without Dx.",
     ["inputs", "histories", "configurations"], "for every history of iterates and options secant_memory_len, sigma0, sigma_update_strategy",
     "The dense examples run a few dozen iterations with the default strategy; a wrong block or a stale matrix only slows convergence or goes unnoticed because line search corrects it.",
     ["src/Optimization/hiopHessianLowRank.cpp", "src/Optimization/hiopHessianLowRank.hpp"],
     [("secant pairs", "hiopHessianLowRank::update, growL/growD/updateL/updateD"), ("compact inverse", "updateInternalBFGSRepresentation, solve, symMatTimesInverseTimesMatTrans, factorizeV, solveWithV"), ("product", "timesVecCmn")])

prop("P21", "Starting point and multiplier estimates follow their definitions",
     "For every combination of what the user provides (nothing, x only, x with duals and/or slacks, a complete warm start) the solve starts from: x as provided (zero if the user provides no point), "
     "pushed into the interior of its bounds with kappa1, kappa2 unless warm-started; scaling applied to the evaluation at the provided point, and all functions re-evaluated at the final x; d the slacks provided or d(x), "
     "pushed into its bounds likewise; safe slacks for mu0 (bounds adjusted exactly when some slack was); bound multipliers as provided, with mu0/slack for those of the inequalities when only part is provided, and 1 "
     "otherwise; multipliers of the constraints as provided, otherwise the least-squares estimate (duals_init=lsq) or zero; the Hessian is evaluated at that point with those multipliers. The least-squares estimate "
     "minimises ||grad f + Jc'yc + Jd'yd - zl + zu||^2 + ||-yd - vl + vu||^2 (dense normal equations by Cholesky, or the sparse augmented system, each assembled and solved exactly); as a starting estimate it is replaced by zero "
     "when the solve failed or its norm exceeds duals_lsq_ini_max; after a step it replaces the linear update exactly when the infeasibility is at most recalc_lsq_duals_tol; failures of the factorisation or solve are reported.",
     ["inputs", "configurations"], "for every user starting point, warm start, scaling and option value",
     "The drivers provide x only, or nothing; no test supplies duals with slacks, a warm start, or a failing least-squares solve.",
     ["src/Optimization/hiopAlgFilterIPM.cpp", "src/Optimization/hiopDualsUpdater.cpp", "src/Optimization/hiopDualsUpdater.hpp", "src/Optimization/hiopIterate.cpp"],
     [("starting procedure", "hiopAlgFilterIPMBase::startingProcedure"), ("least-squares multipliers", "hiopDualsLsqUpdate::go, compute_initial_duals_eq, do_lsq_update of the dense and the sparse updater")])

prop("P40", "The iterates converge to a KKT point of every regular problem",
     "For every problem with continuously differentiable functions that satisfies the assumptions of the filter method (LICQ, bounded iterates), the sequence of iterates "
     "converges to a KKT point and the solve ends with a success status within the iteration limit.",
     ["inputs", "histories"], "for every regular problem and starting point",
     "Tests solve a handful of problems.",
     ["src/Optimization/hiopAlgFilterIPM.cpp"],
     [("filter line-search interior-point method", "hiopAlgFilterIPMNewton::run, hiopAlgFilterIPMQuasiNewton::run")])
NA["P40"] = ("Quantifies over the analytic properties of the user's functions and over floating-point trajectories; no sound static argument bounds them. The formulas, tests and protocols the convergence "
             "proof assumes are decided piecewise by P10, P11, P14, P15, P31 and P08.")

prop("P41", "Linear solves and kernels are accurate to rounding",
     "For every matrix of moderate condition, the directions returned by the linear-algebra layer have a residual of the order of rounding, after iterative refinement if needed.",
     ["inputs"], "for every matrix and right-hand side",
     "Tests sample a few matrices.",
     ["src/LinAlg"],
     [("LAPACK factorizations, iterative refinement by Krylov methods", "hiopLinSolver*, hiopKKTLinSysCompressed*")])
NA["P41"] = "Needs bounds on rounding errors over run-time matrices (conditioning is unbounded); the static checks work over the reals (P11, P12, P13) and do not distinguish rounding."

prop("P42", "Results agree across numbers of ranks, compute modes and memory spaces",
     "For every problem, the iterates computed with any number of MPI ranks, any compute mode and any memory space agree up to rounding.",
     ["configurations", "schedules"], "for every distribution and execution backend",
     "Tests run one to two ranks on one backend.",
     ["src/LinAlg", "src/Optimization"],
     [("the same algebra in every backend", "hiopVectorPar, hiopVectorRaja*, hiopMatrix*")])
NA["P42"] = "The device backends (RAJA, CUDA, HIP, Magma) are not compiled here and their sources need headers that are absent, so there is no type-checked program to analyse; agreement up to rounding also quantifies over run-time values. The rank-dependent algebra of the compiled backend is part of P12 and P13."
