"""The properties, one entry each; gen.py writes properties.jsonl and MANIFEST.json from this."""
P = []


def prop(id, title, statement, qtext, why, files, mech, observe, over=("inputs",), state=(), note=""):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": None}, "_note": note})


prop("P01", "Symbolic factorization covers the fill-in of every constraint structure",
     "For every family of variable sets, the analysis eliminates every variable exactly once, visits every constraint exactly once, and each constraint's variables lie in the block it is assembled into. "
     "Every entry that numerical elimination in that order can make nonzero has storage inside the workspace, and each separator lists, without repetition and in elimination order, only variables eliminated later.",
     "every family of variable sets, every choice of root and of admissible leaf constraints, within the stated sizes",
     "the tests analyse a dozen hand-written sparsity patterns; a wrong running-intersection order or a missing fill-in entry shows only for particular overlaps between constraints",
     ["conex/clique_ordering.cc", "conex/supernodal_solver.cc", "conex/triangular_matrix_workspace.cc", "conex/tree_utils.cc"],
     [("clique tree and elimination order", "conex/clique_ordering.cc PickCliqueOrder"), ("supernodes, separators and permutation", "conex/supernodal_solver.cc GetData"), ("storage layout", "conex/triangular_matrix_workspace.cc")],
     ["SparseTriangularMatrix / supernodal data returned by GetData", "addresses stored in the triangular workspace"], over=("inputs", "configurations"))
prop("P02", "The assembled Newton system is the sum of the constraints' contributions",
     "After assembly, the system matrix equals the sum over all constraints of their symmetric blocks placed at their variables (including the rows of equality multipliers), and is symmetric. "
     "The right-hand-side vectors and scalar inner products are likewise the sums of the constraints' contributions, with nothing left over from an earlier assembly.",
     "every overlap pattern of constraints and variables and all real block values, within the stated sizes",
     "tests compare a few fixed patterns; an address that is right for those patterns can be wrong for another overlap of supernode and separator",
     ["conex/supernodal_assembler.cc", "conex/kkt_solver.cc", "conex/supernodal_solver.cc", "conex/triangular_matrix_workspace.cc"],
     [("scatter of blocks into supernodal storage", "conex/supernodal_assembler.cc"), ("assembly driver", "conex/kkt_solver.cc Assemble")],
     ["Solver::KKTMatrix(), AW, AQc, inner products after Assemble"], over=("inputs", "configurations", "histories"))
prop("P03", "Factoring and solving the assembled system returns its solution",
     "When factorization reports success, solving returns a vector that satisfies the assembled system for every right-hand side, also when iterative refinement is requested. "
     "With the Cholesky method factorization succeeds on every positive definite system and reports failure on every system that is not positive semidefinite.",
     "every sparsity pattern within the stated sizes, all real matrix entries in the stated classes, all right-hand sides, Cholesky / LDL' / QR methods",
     "tests solve randomly drawn systems on fixed patterns; errors in one update term appear only for particular separator overlaps",
     ["conex/kkt_solver.cc", "conex/block_triangular_operations.cc", "conex/supernodal_solver.cc", "conex/RLDLT.h"],
     [("numeric factorization", "conex/block_triangular_operations.cc"), ("factor / solve interface", "conex/kkt_solver.cc Factor, Solve")],
     ["Solver::Factor return value, Solver::Solve output"], over=("inputs", "configurations"))
prop("P04", "Dense LDL' factorization is backward exact up to reported regularization",
     "For every symmetric matrix, the factors reproduce the matrix exactly when no regularization is reported; otherwise they reproduce it except that diagonal entries move by at most twice the regularization threshold, and every pivot is at least that threshold in magnitude. "
     "The pivoting order is a permutation, a tiny or zero pivot is reported, and memory outside the matrix is neither read nor written, for every order including zero.",
     "all real symmetric matrices of orders 0 to 2 (order 3 with entries in {-1,0,1}; thorough: arbitrary)",
     "tests factor random matrices where pivots are never tied, zero or tiny",
     ["conex/RLDLT.h"], [("factorization loop, pivoting and regularization", "conex/RLDLT.h")], ["matrixLDLT(), vectorD(), transpositions, regularization flag, solve()"])
prop("P05", "Block triangular kernels equal their dense counterparts",
     "On every block-sparse lower-triangular structure, forward and backward substitution invert the factor and its transpose, and Cholesky of a positive definite matrix recovers the factor. "
     "The signed-pivot (LDL') factorization followed by its solve satisfies the original linear system whenever no regularization is reported.",
     "every block structure within the stated sizes, all real factor entries and right-hand sides",
     "tests use random numbers on a handful of fixed structures",
     ["conex/block_triangular_operations.cc", "conex/triangular_matrix_workspace.cc"],
     [("substitutions and factorizations", "conex/block_triangular_operations.cc")], ["vectors and blocks after each kernel"], over=("inputs", "configurations"))
prop("P06", "Linear inequalities: Newton system, step and metrics match their definition",
     "For rows Ay <= c (and lower/upper bounds) with positive scaling w, the Newton contribution is A'W^2A, A'w, A'W^2c, <w,c>, <c,W^2c>, both when overwriting and when accumulating. "
     "The step e*weight + W(Ay - kc), its largest absolute entry and its squared norm are exact; taking it multiplies w entrywise by exp(step size * step), so w stays positive, and the affine step yields w + W^2 A y. "
     "The weighted slack metrics are the exact minimum, maximum, sum and sum of squares of w*(kc - Ay), and computing norms or metrics never moves the scaling.",
     "all real data within the stated sizes and boxes, full and damped steps",
     "tests check convergence of a few solves, which tolerates slightly wrong steps and norms",
     ["conex/linear_constraint.cc", "conex/linear_constraint.h"],
     [("Newton contribution", "conex/linear_constraint.cc ConstructSchurComplementSystem"), ("step", "conex/linear_constraint.cc PrepareStep, TakeStep"), ("metrics", "conex/linear_constraint.cc GetWeightedSlackEigenvalues")],
     ["SchurComplementSystem, StepInfo, workspace W, WeightedSlackEigenvalues"])
prop("P07", "Second-order and quadratic cones contribute the exact Newton system",
     "For a second-order cone, a cone defined by a positive definite quadratic form, and a quadratic epigraph, with scaling w in the cone's interior, the Newton contribution is A'Q(w)A, A'w, A'Q(w)c, <w,c> and <c,Q(w)c>, where Q is the cone's quadratic representation and the inner product counts each eigenvalue once. "
     "Accumulating adds exactly this contribution to what other constraints put there; overwriting replaces it; the quadratic epigraph contributes the system of the set {(x,t): x'Qx/2 <= t}.",
     "all real constraint data and all interior scalings within the stated boxes and sizes",
     "tests compare one random instance against a dense reformulation",
     ["conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/quadratic_epigraph.cc", "conex/workspace_soc.h"],
     [("Newton contribution", "ConstructSchurComplementSystem in each file")], ["SchurComplementSystem"])
prop("P08", "Second-order and quadratic cones: step norms, metrics and step are exact",
     "The reported squared norm and infinity norm of a step are the sum of squares and the largest magnitude of its two eigenvalues; the weighted slack metrics are its exact smallest and largest eigenvalue, trace and squared norm, ordered, and do not move the scaling. "
     "Taking a step moves the scaling to Q(w^(1/2)) exp(step size * d), which stays in the interior of the cone.",
     "all interior scalings along rays with rational length, or a fixed scaling with all data symbolic; full and damped steps",
     "tests check only that solves converge",
     ["conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/quadratic_epigraph.cc"],
     [("step", "PrepareStep / TakeStep in each file"), ("metrics", "GetWeightedSlackEigenvalues in each file")], ["StepInfo, WeightedSlackEigenvalues, workspace W0/W1"])
prop("P09", "Matrix cones contribute the exact Newton system and affine step",
     "For linear matrix inequalities over the reals and Hermitian ones over reals, complex numbers, quaternions and octonions, with positive definite scaling W, the Newton contribution is <A_i,Q(W)A_j>, <A_i,W>, <A_i,Q(W)C>, <W,C> and <C,Q(W)C> with the real trace inner product, both when overwriting and when accumulating. "
     "The affine step (all but octonions) moves the scaling to (1+e)W + W(sum y_i A_i - kC)W, and its real part is what is published as the dual variable.",
     "all real data of order 1 and 2 (thorough: order 3 along a line), all symmetric scalings in a box",
     "tests compare objective values of random solves between equivalent formulations",
     ["conex/dense_lmi_constraint.cc", "conex/psd_constraint.cc", "conex/hermitian_psd.cc", "conex/hermitian_psd.h"],
     [("Newton contribution", "ConstructSchurComplementSystem"), ("affine step", "PrepareStep with affine")], ["SchurComplementSystem, workspace W"])
prop("P10", "Matrix cones: step norms, slack metrics and approximate geodesic step",
     "The squared norm of a step is trace((I + W(sum y_i A_i - kC))^2) and the trace and squared norm of the weighted slack are exact; infinity norms and extreme eigenvalues (except for octonions) are estimates that never leave the spectrum and are exact for scalars. "
     "Taking a step of size t along S = sum y_i A_i - kC replaces W by exp(t(I+WS))W with the code's rational or polynomial approximation of exp, keeps it Hermitian, and computing norms or metrics never moves it.",
     "order 1 with all data symbolic; order 2 at a fixed scaling with one symbolic slack parameter; every Lanczos starting vector (fixed for complex and quaternion order 2)",
     "tests only check convergence, which hides wrong norms and asymmetric scalings",
     ["conex/psd_constraint.cc", "conex/dense_lmi_constraint.cc", "conex/hermitian_psd.cc", "conex/approximate_eigenvalues.cc", "conex/exponential_map.cc", "conex/exponential_map_pade.cc"],
     [("step", "PrepareStep / TakeStep"), ("eigenvalue estimates", "conex/approximate_eigenvalues.cc"), ("exponential", "conex/exponential_map*.cc")], ["StepInfo, WeightedSlackEigenvalues, workspace W"])
prop("P11", "Real, complex, quaternion and octonion matrix algebra laws",
     "Scalars form a composition algebra (unit, multiplicative norm, conjugation reversing products, alternative laws; associative up to quaternions), each extending the previous one, and matrix products, sums, adjoints and trace inner product are built entrywise from them. "
     "Hermitian matrices form a Euclidean Jordan algebra (commutative product, Jordan identity, associative trace form) whose quadratic representation is 2x(xy) - x^2 y; the Hermitian and equality predicates recognise exactly these up to a small tolerance.",
     "all components of scalars, matrix shapes up to 2x2, Hermitian matrices of order 1 to 3, over all four algebras",
     "tests check single random instances; a sign error in one of 64 structure constants needs the right component pair",
     ["conex/jordan_matrix_algebra.cc", "conex/jordan_matrix_algebra.h"],
     [("products", "conex/jordan_matrix_algebra.cc Multiply, JordanMultiply, QuadraticRepresentation"), ("predicates", "IsHermitian, IsEqual")], ["return values of MatrixAlgebra<n>"])
prop("P13", "Matrix exponentials equal the approximation they promise",
     "The hypercomplex exponential is the fourth power of the second-order Taylor polynomial at x/4 (the identity at zero), and the real one is the [3/3] Pade approximant, which leaves its argument unchanged. "
     "Geodesic updates are Hermitian and equal the corresponding truncated series in the scaling and the direction.",
     "scalars in a box with all components symbolic, matrices of order up to 3 along a line, over all four algebras",
     "tests compare at one point with a loose tolerance",
     ["conex/exponential_map.cc", "conex/exponential_map_pade.cc"],
     [("polynomial exponential", "conex/exponential_map.cc ExponentialMap, GeodesicUpdate"), ("rational exponential", "conex/exponential_map_pade.cc")], ["output matrices"])
prop("P14", "Barrier parameter selection inverts the divergence bound",
     "The divergence bound is (k^2 F - 2 k tr + rank) / (1 - max |k lambda - 1|) for weighted slack statistics. "
     "Its inverse at a target returns the largest k > 0 at which the bound is finite and attains the target, and -1 only if the bound exceeds the target wherever it is finite.",
     "all statistics in a box for the bound; one or two distinct positive eigenvalues and targets in [1/8,4] for the inverse",
     "tests evaluate the inverse at a few points on one branch; the branch switch and ties need particular spectra",
     ["conex/divergence.cc"], [("bound", "conex/divergence.cc DivergenceUpperBound"), ("inverse", "DivergenceUpperBoundInverse")], ["return values"])
prop("P12", "Line search returns the largest admissible step interval",
     "Along the segment between two step directions of a linear inequality, the reported interval is exactly the intersection, over the rows whose entry varies along it, of the parameters at which that row's step entry is within the given bound. "
     "Failure is reported exactly when that intersection is empty.",
     "all real data with one row; two free rows (thorough: three) with every combination of signs",
     "tests run one fixed line search",
     ["conex/linear_constraint.cc"], [("interval computation", "conex/linear_constraint.cc PerformLineSearch")], ["LineSearchOutput and return value"])

prop("P15", "Splitting two-sided inequalities keeps the feasible set",
     "Splitting lb <= Ax <= ub into one-sided inequalities and equalities keeps exactly the same set of points: rows with equal bounds become equalities, a side whose bound is beyond 1e8 in magnitude imposes nothing, and crossed bounds leave no point. "
     "Every resulting row together with its right-hand side has unit length (or is entirely zero), and rows already in the output matrices are kept.",
     "all real matrices and bounds in a box within the stated sizes, each side bounded or open",
     "tests solve one program with two-sided bounds; a sign or scaling slip in one of the three cases needs a point near that bound to show",
     ["conex/linear_constraint.cc", "interfaces/conex.cc"], [("splitting", "conex/linear_constraint.cc PreprocessLinearInequality")], ["output matrices of PreprocessLinearInequality"])
prop("P18", "Workspaces never overlap and fit the size they request",
     "For every size, each workspace (linear, second-order cone, matrix, Hermitian, Newton system, solve statistics) lays out its arrays aligned, disjoint and inside the number of doubles it asks for, whether initialised in place or constructed on caller memory. "
     "Initialising a list of workspaces places them one after another without overlap.",
     "all sizes within the stated limits, as machine integers",
     "tests use a few sizes, where padding hides an overlap",
     ["conex/linear_workspace.h", "conex/workspace_soc.h", "conex/psd_constraint.h", "conex/hermitian_psd.h", "conex/newton_step.h", "conex/workspace.h", "conex/memory_utils.h"],
     [("layouts", "size_of / Initialize in each workspace header"), ("packing of several workspaces", "conex/workspace.h Initialize")], ["addresses and sizes of the mapped arrays"], over=("inputs", "configurations"))
prop("P20", "A program's Newton system, step size and slack metrics combine those of its constraints",
     "For a program built from linear constraints, equalities and quadratic costs, each on its own list of variables, the assembled system, right-hand sides and inner products are the sums of the constraints' at their variables in the order given, with one extra unknown per equality. "
     "The step's squared norm, the slack trace and squared slack norm are sums over constraints, infinity norm and extreme slacks are extremes over constraints, equalities and quadratic costs contribute rank zero, and a cold start sets every scaling to the identity.",
     "all constraint data and scalings in a box, every assignment of variables to constraints within the stated sizes",
     "tests build a few programs in which most constraints use all variables in natural order",
     ["conex/cone_program.cc", "conex/cone_program.h", "conex/constraint_manager.h", "conex/equality_constraint.cc", "conex/quadratic_cost.cc"],
     [("constraint bookkeeping", "conex/constraint_manager.h"), ("combination of steps and metrics", "conex/cone_program.* PrepareStep, GetWeightedSlackEigenvalues"), ("residual assembly", "conex/constraint_manager.h AssembleSchurComplementResiduals")],
     ["Program.sys, Program.solver->KKTMatrix(), StepInfo, WeightedSlackEigenvalues"], over=("inputs", "configurations", "histories"))
prop("P22", "Graph, tree and set utilities match their definitions",
     "Chordality and perfect elimination orders are recognised exactly, the elimination ordering is a permutation that causes no fill-in on chordal graphs, and exactly the vertices of maximum degree are listed. "
     "Paths in rooted trees list each vertex between the ends once and finish at the meeting point nearest the root; intersection and union of sorted lists are exact.",
     "every graph, rooted tree and pair of sets within the stated sizes; any real edge weights",
     "tests run a few hand-drawn graphs",
     ["conex/elimination_ordering.cc", "conex/tree_utils.cc", "conex/clique_ordering.cc", "conex/supernodal_solver.cc"],
     [("orderings", "conex/elimination_ordering.cc"), ("tree paths", "conex/tree_utils.cc PathInTree")], ["return values"], over=("inputs", "configurations"))

prop("P16", "The C interface builds exactly the program described, and rejects invalid calls",
     "Setting entries of matrix inequalities (over reals, complex numbers, quaternions, octonions), second-order cones, linear inequalities and quadratic costs one at a time gives the same constraint as supplying its whole data at once: unset entries are zero, entries are mirrored to keep matrices Hermitian, the last value set wins. "
     "Dense, sparse and two-sided constraints given at once are stored on exactly the variables named, identifiers count up in order of creation, and every constraint covers the program's variables. "
     "Calls with an index, order, dimension or pointer out of range return failure and change nothing, and no call reads or writes outside its own data.",
     "every argument value as a machine integer, every entry value in a box, on empty and filled constraints, one update per call sequence",
     "tests set every entry of a few constraints with valid arguments",
     ["interfaces/conex.cc", "interfaces/conex.h", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/linear_constraint.cc", "conex/quadratic_cost.cc", "conex/cone_program.h"],
     [("argument checks", "interfaces/conex.cc"), ("entry updates", "UpdateLinearOperator, UpdateAffineTerm of each constraint")],
     ["return codes, constraint ids, Newton system of the resulting constraint"], over=("inputs", "histories"))


prop("P19", "The outer iteration follows its contract and reports success only when it converged",
     "Each iteration assembles once, picks the barrier parameter by the line search or divergence bound over all constraints (within its limits, kept while centring, with the documented fallbacks), solves the Newton system at that parameter, and takes each step once, damped to 2 over its squared infinity norm and never extended; iteration limits hold. "
     "Success is reported only if the last step is within the centring tolerance or all final centring steps were used within the iteration limit, and never above the infeasibility threshold; the solution returned is unscaled, and for linear programs reported solved with a step below one it satisfies every inequality strictly and every equality. "
     "Infeasibility flags are set exactly when the corresponding ray improves above the threshold; a failed factorization is never success, and statistics and status describe the run.",
     "every answer that constraints can give (Newton blocks, norms, line-search intervals, slack spectra) within boxes, 0 to 3 iterations, options as listed; all data of linear programs with one or two rows",
     "tests solve a few random programs to convergence and look only at the result",
     ["conex/cone_program.cc", "conex/cone_program.h", "conex/divergence.cc", "conex/constraint_manager.h"],
     [("outer iteration", "conex/cone_program.cc Solve"), ("parameter choice", "ComputeMuFromLineSearch, ComputeMuFromDivergence, ApplyLimits")],
     ["return value, Status(), stats, y written, calls seen by the constraints"], over=("inputs", "configurations", "histories"))
prop("P21", "Dual variables returned after a solve satisfy their equations",
     "When dual variables are requested, they are prepared once from the final scalings, for linear inequalities they satisfy A'x = b (A'x proportional to b with positive factor when primal infeasibility is reported), and exactly the requested constraint's variable is written, unscaled by barrier parameter and cost scaling. "
     "Without the request no extra step is taken.",
     "every answer constraints can give within boxes, up to one iteration; all data of linear programs of one or two rows",
     "tests check one random program after convergence with a loose tolerance",
     ["conex/cone_program.cc", "conex/cone_program.h", "conex/linear_constraint.cc"],
     [("dual preparation", "conex/cone_program.cc Solve, prepare_dual_variables"), ("retrieval and unscaling", "conex/cone_program.h GetDualVariable")], ["GetDualVariable, GetDualVariableSize"], over=("inputs", "configurations"))
prop("P17", "Programs take shape, receive options and report results as documented",
     "A constraint or cost is accepted exactly when its variables are distinct variables of the program (and its order fits); accepted ones keep their order and variables, equalities receive fresh multipliers in order of creation, and refused ones change nothing. Linear costs add up until cleared and are refused in the wrong dimension. "
     "Every option and argument of the C interface reaches the solver unchanged and default options are the solver's. Iteration statistics and dual variables are those of the iteration or constraint asked for, nothing is written for ones that do not exist, calls that cannot be solved are never reported solved, and programs can grow after a solve.",
     "every pair of additions (six kinds) with any integers as variables, every option value, every index as machine integer, small constraints",
     "tests build a few programs and never pass invalid indices or unusual options",
     ["conex/constraint_manager.h", "conex/cone_program.h", "conex/cone_program.cc", "interfaces/conex.cc"],
     [("constraint manager", "conex/constraint_manager.h AddConstraint, AddEqualityConstraint"), ("program", "conex/cone_program.h Program"), ("options", "interfaces/conex.cc APIConvertSolverConfiguration"), ("statistics", "interfaces/conex.cc CONEX_GetIterationStats")],
     ["return codes, lists of variables and multipliers, options seen by Solve, statistics and dual variables written"], over=("inputs", "configurations", "histories"),
     state=(("constraints", "lists of constraints, variables and multipliers", "ConstraintManager"), ("costs", "linear_cost_", "Program")))

prop("P24", "A warm start continues from the previous solve, and only from a valid one",
     "A warm-started solve keeps the scalings of the constraints and of the data from the previous solve, also with a larger iteration limit or from another program on the same memory. "
     "It falls back to a cold start when there is nothing to continue from (first solve, constraints added, empty memory), and resets the scalings when its first factorization fails or its first step exceeds the abort threshold; the solution is unscaled accordingly.",
     "every history of one solve followed by a warm-started one (same program, constraint added, other program on the same or empty memory), with and without rescaling, every answer constraints can give within boxes",
     "tests warm start one program once",
     ["conex/cone_program.cc", "conex/cone_program.h", "conex/workspace.h"],
     [("initialisation", "conex/cone_program.cc Initialize"), ("memory", "conex/cone_program.h InitializeWorkspace"), ("abort", "conex/cone_program.cc Solve")],
     ["scalings seen by the constraints at the first assembly, status and solution of the second solve"], over=("inputs", "configurations", "histories"),
     state=(("scalings", "workspaces of the constraints", "Program.memory_"), ("data scalings", "b_scaling, c_scaling of WorkspaceStats", "conex/workspace.h")))

NOT_APPLICABLE = [
    ("N01", "Python interface", "interfaces/*.py is Python 2 and calls the compiled library through ctypes; there is no Python 2 interpreter and no symbolic executor for it in the sandbox"),
]
