NOTES = {
 "P01": "Every function from which a user evaluation is reachable is analysed on all CFG paths (finite-domain path-merging dataflow). Trusts: class-hierarchy call resolution; an unknown branch condition is assumed feasible both ways; FR callbacks called back through the interface are analysed as user code of the base solve.",
 "P03": "All assertions and all configuration-dependent code of the library are examined. Trusts: the purity summaries treat calls into the C/C++ library by a table; process abort is the only permitted effect.",
 "P23": "All printf-style call sites with a literal format string; non-literal formats are reported as undecided in the evidence. Arguments are judged after the default argument promotions.",
 "P12": "Every listed operation is summarised by gated value numbering (all paths, all loops in closed form) and compared with the reference function by identity of normal forms (random-interpretation identity test, no execution of the code). Real arithmetic: rounding and re-association are not distinguished. An operation whose loops have no closed form is undecided, not an alarm.",
 "P13": "As P12, for matrices: linear addresses are normalised to row/column form; BLAS calls have their mathematical meaning; documented preconditions (conforming shapes, non-empty inner dimension) are assumed.",
 "P10": "As P12, one level up: vector operations have the semantics of their P12 specification, matrix-vector products are uninterpreted sums. Sizes and counts of bounds are identified with the patterns. Trusts: the objects passed as different parameters do not alias; runtime statistics, timers and log output are outside the algebra.",
 "P11": "As P10. The factorisation and triangular solves with the assembled matrix are an uninterpreted solve (their failure handling is P02). The sparse kernels used by the mixed dense-sparse assembly have the semantics written in alg.py, which P16 decides for the triplet classes. The sparse (MA57 and alike) systems are not compiled in this build and not analysed; trans_times_vec of the full operator (unused) and the logged errorKKT are outside.",
 "P15": "The state machine is summarised from every reachable discrete state (flags, test, counter at or below its limit, zero or positive sizes) with symbolic sizes; the protocols are decided on all CFG paths, loops to a fixpoint. Outcomes of factorizations, solves and curvature tests are arbitrary. Trusts: the KKT object is used by one solver loop at a time; nested solves (feasibility restoration) are analysed separately.",
 "P07": "As P10; what a user callback receives and returns are unknowns. Chains of transformations are unrolled to length 3 (the code appends at most three). Outside: finalizeInitialization as a whole, and bound duals when fixed variables are removed (the code passes them in the reduced space and says so).",
 "P17": "As P10; what the base problem evaluates is unknown (uninterpreted in the point it is evaluated at). The dense restoration problem is judged for one rank; the triplet kernels set_Jac_FR and set_Hess_FR of the sparse class are not analysed (their positions come from a running counter in nested while loops); the constraint types are outside.",
 "P18": "Exact arithmetic. Facts are joined by intersection at merges and loops run to a fixed point, one state per value of the convergence flag and per vector delivered; a residual updated along with the iterate counts as its residual only if both moved by the same step and the operator was applied to that step. Outside: convergence itself, iteration counts and messages, the stagnation and breakdown heuristics, and whether the best iterate is truly the best.",
 "P31": "All paths of the two optimization loops with the functions they call that evaluate or use such quantities, loops to a fixpoint; storages are identified by the member they start in and followed through pointers, exchanges and helpers. What cannot be followed is unknown and never an alarm. Trusts: evaluations of the user are deterministic; the residual of soft feasibility restoration beyond its first step is not judged (derivatives at the previous point are used by design); a problem that changes itself (nlp bounds) is outside.",
 "P14": "As P10. Filters of up to 4 entries, up to 2 corrections and up to 3 soft restoration steps are enumerated (the loops do the same for each); the protocol is decided on all CFG paths, loops to a fixpoint. The robust restoration problem itself and its solution are outside, as are the directions (P11) and residuals (P10).",
 "P08": "All CFG paths of the loops, the evaluation layers and the functions in between, loops to a fixpoint; callback outcomes are arbitrary. Outside: the primal decomposition driver, callbacks that describe the problem (sizes, bounds: only asserted by the code), exceptions thrown by user code, and statuses of a restoration subproblem beyond those the code maps.",
 "P20": "As P10 with symbolic sizes (memory length in use, number of variables); products with stored pairs are sums over the rows; the recursive product is unrolled for 0 to 3 stored pairs (the loop does the same for each). LAPACK calls are uninterpreted solves of the matrix and right-hand side they are passed. MPI reductions of the local products are judged as the sum over ranks.",
 "P21": "As P10. The user's starting point is unknown and arbitrary, evaluations are uninterpreted functions of the point they are made at (and of whether scaling is in effect), so an evaluation at a stale point changes the normal form. Sparse assembly is judged as dense entries plus the intervals of nonzeros used. Outside: the linear solvers, the symmetric-indefinite variant of the dense updater (forwards only), allocation of the solver in the sparse updater.",
 "P04": "The table of options is computed by constant propagation through register_options() (helpers and loops over constant lists included); names that are not constants are not judged. String values are identified with their text. Outside: parsing of the options file (load_from_file) beyond the setters it calls, the loop that stores options in a checkpoint, and options of parts not compiled here (listed in optspec.IDLE).",
 "P05": "Rank-dependence is a may-taint from definite sources only: the rank, members of the distributed vector and matrix classes derived from it, elements and *_local results of objects known to be distributed (those in the space of the variables). What comes through other helpers or containers is taken to be equal on all ranks, so a violation hidden behind them is missed, never invented. Vectors of the primal decomposition live on one rank. Trusts: callbacks return the same verdict on all ranks; the wait/test protocol of the primal decomposition and deadlocks between its point-to-point messages are not analysed beyond the matching of kinds.",
 "P06": "Callbacks are unknown functions that may write any of their output arguments. The sparse problems of both interfaces need a sparse solver and are not compiled here. Error codes returned by the callbacks are outside (P01, P08), as are the memory released by the Fortran destructor and what the C++ side does with the sizes it is told.",
 "P16": "As P12: real arithmetic; sums over nonzeros, rows or joined rows are symbolic. The two-pointer merge of two rows is judged for rows sorted by column (the documented storage order); each triplet index lies within the matrix. Row starts are taken as documented; the functions that build or check them, row-wise copies between sparse matrices (copyRowsFrom, copyRowsBlockFrom), sorting and the restoration Jacobian/Hessian writers are outside, as is the CSR class (used by the condensed sparse system only).",
 "P02": "As P10. LAPACK routines are unknown functions with any outcome; the loop over the pivots is unrolled for orders 0 to 4, the refinement for its three passes. The factors of 2x2 blocks are assumed as LAPACK leaves them (in pairs, nonzero off-diagonal). The systems with factors kept elsewhere are in P20 (V matrix) and P21 (normal equations); void functions that only assert the outcome (factorizeV, solveWithV) have nobody to report to. Sparse and device solvers are not compiled here; Krylov solvers are outside.",
}
