SN = ["conex/clique_ordering.cc", "conex/supernodal_solver.cc", "conex/tree_utils.cc", "conex/triangular_matrix_workspace.cc", "conex/block_triangular_operations.cc"]
KK = SN + ["conex/kkt_solver.cc", "conex/supernodal_assembler.cc"]
CONE = ["conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/quadratic_epigraph.cc"]
LMI = ["conex/dense_lmi_constraint.cc", "conex/psd_constraint.cc", "conex/approximate_eigenvalues.cc", "conex/exponential_map.cc", "conex/exponential_map_pade.cc", "conex/jordan_matrix_algebra.cc"]
HERM = ["conex/hermitian_psd.cc", "conex/jordan_matrix_algebra.cc", "conex/exponential_map.cc"]
TY = {0: "second-order cone", 1: "quadratic cone (identity)", 2: "quadratic cone (general form)", 3: "quadratic epigraph"}
AL = {0: "real LMI", 1: "Hermitian over R", 2: "Hermitian over C", 4: "Hermitian over H", 8: "Hermitian over O"}


def ONLY8(y, t, w):
    return {"only": "thorough", "qtimeout": 4} if (y, t, w) == (0, 4, 1) else {"qtimeout": 1} if (y, t, w) == (0, 4, 3) else {}



LIN = ["conex/linear_constraint.cc"]


def U(name, harness, srcs, defs, bounds, **kw):
    return dict({"name": name, "harness": harness, "srcs": srcs, "defs": defs, "bounds": bounds}, **kw)


CHECKS = {}


def C(pid, units, **kw):
    CHECKS[pid] = dict({"level": "model_checking", "units": units}, **kw)


T = "thorough"
C("P01", [
    U("n3k3", "symbolic_fact.cc", SN, {"NV": 3, "KMAX": 3, "LEAFS": 0}, "every family of 1..3 nonempty variable sets over 1..3 variables, every root choice", thorough={"LEAFS": 1}),
    U("n3k2leaf", "symbolic_fact.cc", SN, {"NV": 3, "KMAX": 2, "LEAFS": 1}, "1..2 sets over 1..3 variables, every set of admissible leaves"),
    U("n4k2", "symbolic_fact.cc", SN, {"NV": 4, "NVMIN": 4, "KMIN": 2, "KMAX": 2, "LEAFS": 0}, "2 sets over 4 variables"),
    U("n4k4edge", "symbolic_fact.cc", SN, {"NV": 4, "NVMIN": 4, "KMAX": 4, "KMIN": 4, "MAXSZ": 2, "MINSZ": 2, "LEAFS": 0, "ROOTMAX": -1}, "4 pairs over 4 variables (cycles, paths, stars), default root"),
    U("n4k3", "symbolic_fact.cc", SN, {"NV": 4, "NVMIN": 4, "KMIN": 3, "KMAX": 3, "LEAFS": 0, "ROOTMAX": -1}, "3 sets over 4 variables, default root", only=T),
    U("n5k5edge", "symbolic_fact.cc", SN, {"NV": 5, "NVMIN": 5, "KMIN": 5, "KMAX": 5, "MINSZ": 2, "MAXSZ": 2, "LEAFS": 0, "ROOTMAX": -1}, "5 pairs over 5 variables, default root", only=T),
], outside="more than 5 variables or 5 constraints; performance of the ordering")
C("P02", [
    U("asm", "kkt_solve.cc", KK, {"NV": 3, "KMAX": 2, "DUALS": 1}, "1..2 constraint blocks over 1..3 variables plus up to one multiplier each, arbitrary real entries", thorough={"KMAX": 3, "DUALS": 0}),
    U("asm2", "kkt_solve.cc", KK, {"NV": 4, "NVMIN": 4, "KMIN": 2, "KMAX": 2, "DUALS": 1}, "2 blocks over 4 variables plus multipliers", only=T),
])
C("P03", [
    U("llt2", "kkt_solve.cc", KK, {"NV": 2, "KMAX": 2, "SOLVE": 1}, "Cholesky: arbitrary symmetric blocks, 1..2 variables, 1..2 blocks"),
    U("sdd", "kkt_solve.cc", KK, {"NV": 3, "KMAX": 2, "SOLVE": 1, "VAL": 1}, "Cholesky: diagonally dominant blocks, 1..3 variables, 1..2 blocks"),
    U("sdd4", "kkt_solve.cc", KK, {"NV": 4, "NVMIN": 4, "KMIN": 3, "KMAX": 3, "MAXSZ": 2, "SOLVE": 1, "VAL": 1}, "Cholesky: 3 diagonally dominant blocks of at most 2 variables over 4 variables"),
    U("ld3", "kkt_solve.cc", KK, {"NV": 3, "KMAX": 2, "DUALS": 1, "SOLVE": 1, "VAL": 2}, "LDL': 1..2 blocks with up to one multiplier each, fixed well-conditioned entries, arbitrary right-hand side"),
    U("ref", "kkt_solve.cc", KK, {"NV": 2, "KMAX": 2, "DUALS": 1, "SOLVE": 1, "VAL": 2, "REFINE": 1}, "as ld3 with one step of iterative refinement, 1..2 variables"),
    U("qrs", "kkt_solve.cc", KK, {"NV": 2, "KMAX": 1, "DUALS": 0, "SOLVE": 1, "VAL": 1, "MODE": 2}, "QR: one diagonally dominant block over 1..2 variables"),
    U("llt3", "kkt_solve.cc", KK, {"NV": 3, "NVMIN": 3, "KMAX": 2, "SOLVE": 1}, "Cholesky: arbitrary symmetric blocks over 3 variables", only=T),
    U("sdd3", "kkt_solve.cc", KK, {"NV": 3, "NVMIN": 3, "KMIN": 3, "KMAX": 3, "SOLVE": 1, "VAL": 1}, "Cholesky: 3 diagonally dominant blocks over 3 variables", only=T),
])
C("P04", [
    U("d2", "rldlt.cc", [], {"NMAX": 2}, "orders 0..2, entries any real in [-8,8]"),
    U("d3i", "rldlt.cc", [], {"NMIN": 3, "NMAX": 3, "VAL": 1}, "order 3, entries in {-1,0,1} (all ties and zero pivots)"),
    U("d3", "rldlt.cc", [], {"NMIN": 3, "NMAX": 3}, "order 3, entries any real in [-8,8]", only=T),
])
C("P05", [
    U("tri", "block_ops.cc", SN, {"TASK": 0}, "every structure of 1..2 blocks over 1..3 variables, arbitrary factor entries"),
    U("tri43", "block_ops.cc", SN, {"TASK": 0, "NVMIN": 4, "NV": 4, "KMIN": 3, "KMAX": 3}, "every structure of 3 blocks over 4 variables", only=T),
    U("chol", "block_ops.cc", SN, {"TASK": 1}, "Cholesky of L L' for every structure of 1..2 blocks over 1..3 variables"),
    U("ldlt", "block_ops.cc", SN, {"TASK": 2, "NV": 2}, "LDL' factor and solve, 1..2 variables"),
    U("ldltz", "block_ops.cc", SN, {"TASK": 2, "NV": 2, "DLOW": -1}, "LDL' factor and solve, 1..2 variables, diagonal entries of any sign or zero"),
    U("pivots", "block_ops.cc", SN, {"TASK": 3}, "LDL' factor and solve on chains of 1..3 blocks with every pivot order of a block of three, fixed entries, a line of right-hand sides"),
    U("ldlt3", "block_ops.cc", SN, {"TASK": 2, "NVMIN": 3, "FIXOFF": 1}, "LDL' factor and solve, 3 variables, fixed off-diagonal entries", only=T),
])
C("P06", [U("t%d" % t, "linear_cone.cc", LIN, {"TASK": t}, b, thorough={"NMAX": 3} if t == 1 else {}) for t, b in (
    (1, "Newton system: 1..2 rows, 1..2 variables, all data symbolic"), (2, "step direction, norms, full and damped step"), (3, "weighted slack metrics"), (4, "affine step"))] +
  [U("b%dt%d" % (k, t), "linear_cone.cc", LIN, {"TASK": t, "KIND": k}, "%s bounds, 1..2 variables" % ("lower" if k == 1 else "upper"), **({"only": T} if t > 2 else {})) for k in (1, 2) for t in (1, 2, 3, 4)],
  parallel=6)
C("P07", [U("y%dt1" % y, "soc_cone.cc", CONE, {"TYPE": y, "TASK": 1, "NMIN": 2 if y == 3 else 1, "NMAX": 2, "MMAX": 2}, b + ": orders up to 1+2, 1..2 variables, every interior scaling in a box") for y, b in (
    (0, "second-order cone"), (1, "quadratic cone, identity form"), (2, "quadratic cone, general form"), (3, "epigraph of a quadratic form"))])
C("P08", [U("y%dt%dw%d" % (y, t, w), "soc_cone.cc", CONE, dict({"TYPE": y, "TASK": t, "WVAL": w, "SLACK": sl, "NMIN": 2 if y == 3 else 1, "NMAX": 2, "MMAX": 1}),
            "%s, %s, scaling %s" % (TY[y], {2: "step norms", 3: "slack metrics", 4: "geodesic step"}[t], "with rational length, slack symbolic" if w == 1 else "fixed, data symbolic"), **ONLY8(y, t, w))
          for y in (0, 1, 2, 3) for t in (2, 3, 4) for w, sl in ((1, 1), (3, 0))], parallel=8)
C("P09", [U("d%dt%dn%d" % (d, t, n), "lmi_cone.cc", LMI if d == 0 else HERM, dict({"DIM": d, "TASK": t, "NMIN": n, "NMAX": n}, **({"SYMW": 0, "SYMS": 1} if n == 3 else {})),
            "%s, order %d, %s" % (AL[d], n, "Newton system" if t == 1 else "affine step"), **({"only": T} if n == 3 else {}))
          for d in (0, 1, 2, 4, 8) for t in (1, 4) for n in (1, 2, 3) if not (d == 8 and t == 4) and not (n == 1 and d in (1, 2, 4, 8))], parallel=8)
C("P10", [U("d%dt%dn%d" % (d, t, n), "lmi_cone.cc", LMI if d == 0 else HERM,
            dict({"DIM": d, "TASK": t, "NMIN": n, "NMAX": n}, **({"SYMW": 0, "SYMS": 1} if n >= 2 else {}), **({"FIXRAND": 1} if n >= 2 and d in (2, 4) else {})),
            "%s, order %d, %s%s" % (AL[d], n, "step and norms" if t == 2 else "slack metrics", "" if n == 1 else "; fixed scaling, one symbolic slack parameter" + (", fixed Lanczos start" if d in (2, 4) else "")))
          for d in (0, 1, 2, 4, 8) for t in (2, 3) for n in (1, 2) if not (n == 1 and d in (2, 4))], parallel=8)
C("P12", [
    U("n1", "linear_cone.cc", LIN, {"TASK": 5, "NMAX": 1, "MMAX": 1}, "one row, one variable, all data symbolic"),
    U("n2", "linear_cone.cc", LIN, {"TASK": 5, "SIMPLE": 1, "NMIN": 2, "NMAX": 2}, "two free rows"),
    U("n3", "linear_cone.cc", LIN, {"TASK": 5, "SIMPLE": 1, "NMIN": 3, "NMAX": 3}, "three free rows", only=T),
], outside="rows whose step does not change along the search (division by zero in the code) are excluded")
ALG = ["conex/jordan_matrix_algebra.cc", "conex/exponential_map.cc", "conex/exponential_map_pade.cc"]
C("P11", [U("s%d" % d, "algebra.cc", ALG, {"DIM": d, "TASK": 1}, "scalars over dimension %d, all components" % d) for d in (1, 2, 4, 8)] +
  [U("m%d" % d, "algebra.cc", ALG, {"DIM": d, "TASK": 2, "NMAX": 2}, "matrix products, all shapes up to 2x2, dimension %d" % d) for d in (1, 2, 4, 8)] +
  [U("j%d" % d, "algebra.cc", ALG, {"DIM": d, "TASK": 3, "NMAX": 3}, "Jordan algebra of Hermitian matrices of order 1..3, dimension %d" % d) for d in (1, 2, 4, 8)] +
  [U("p%d" % d, "algebra.cc", ALG, {"DIM": d, "TASK": 4, "NMAX": 2 if d == 1 else 1}, "predicates, dimension %d" % d) for d in (1, 2, 4, 8)], parallel=8)
C("P13", [U("poly%d" % d, "algebra.cc", ALG, {"DIM": d, "TASK": 10, "NMAX": 2}, "polynomial exponential, order 1..2, dimension %d" % d) for d in (1, 2, 4, 8)] +
  [U("pade", "algebra.cc", ALG, {"DIM": 1, "TASK": 11, "NMAX": 3}, "rational exponential, order 1 any value in [-2,2]; orders 2, 3 along a line")] +
  [U("geo%d" % d, "algebra.cc", ALG, {"DIM": d, "TASK": 12, "NMAX": 2 if d < 8 else 1}, "geodesic updates along a line, order 1..2, dimension %d" % d) for d in (1, 2, 4, 8)], parallel=8)
C("P14", [U("bound", "divergence.cc", ["conex/divergence.cc"], {"TASK": 1}, "all statistics and parameters in a box"),
          U("inv1", "divergence.cc", ["conex/divergence.cc"], {"TASK": 2, "SPEC": 0}, "inverse: all eigenvalues equal"),
          U("inv2", "divergence.cc", ["conex/divergence.cc"], {"TASK": 2, "SPEC": 1}, "inverse: two positive eigenvalues, every target in [1/8, 4], compared with every other parameter")])

C("P15", [U("one", "preprocess.cc", LIN, {}, "one row over 1..2 variables, all data symbolic, equal and ordered and crossed bounds"),
          U("open", "preprocess.cc", LIN, {"KIND": 1, "MMAX": 1}, "one row, one variable, each side bounded or open"),
          U("wide", "preprocess.cc", LIN, {"KIND": 2, "MMAX": 1}, "one row, one variable, bounds and points of any magnitude up to 1e10, absent from 1e8 on"),
          U("again", "preprocess.cc", LIN, {"MMAX": 1, "PREFILL": 1}, "one row, one variable, appended to earlier rows"),
          U("two", "preprocess.cc", LIN, {"NMAX": 2, "MMAX": 1}, "two rows, one variable")])

C("P22", [U("graph4", "graph.cc", SN + ["conex/elimination_ordering.cc"], {"TASK": 1}, "every graph on 1..4 vertices", thorough={"NMAX": 5}),
          U("weights", "graph.cc", SN + ["conex/elimination_ordering.cc"], {"TASK": 4, "NMAX": 3}, "order test for every weighted graph on 1..3 vertices, any weights in [-2, 2]", thorough={"NMAX": 4}),
          U("worder", "graph.cc", SN + ["conex/elimination_ordering.cc"], {"TASK": 5, "NMAX": 3}, "elimination order for every weighted graph on 1..3 vertices, any weights in [-2, 2]"),
          U("tree", "graph.cc", SN + ["conex/elimination_ordering.cc"], {"TASK": 2, "NMAX": 4}, "every rooted tree on 1..4 vertices in two numberings, every pair of ends", thorough={"NMAX": 5}),
          U("sets", "graph.cc", SN + ["conex/elimination_ordering.cc"], {"TASK": 3, "NMAX": 4}, "every pair of subsets of 1..4 elements")])

C("P18", [U(nm, "layout.cc", [], {"TASK": t, "LIM": lim}, "%s, every size up to %d" % (b, lim)) for t, nm, b, lim in (
    (1, "lin", "linear inequality workspace", 1000), (2, "soc", "second-order cone workspace", 1000), (3, "psd", "matrix workspace", 1000), (4, "herm", "Hermitian matrix workspace", 1000),
    (5, "newton", "Newton system workspace", 1000), (6, "stats", "solve statistics", 1000), (7, "all", "five workspaces in a row", 6))])

PROG = ["conex/cone_program.cc", "conex/divergence.cc", "conex/equality_constraint.cc", "conex/quadratic_cost.cc", "conex/linear_constraint.cc"] + KK
C("P20", [U("t%d" % t, "aggregate.cc", PROG, {"TASK": t}, "%s: one linear constraint of 1..2 rows, optional equality and quadratic cost, each on every nonempty subset of 2 variables in either order" % b) for t, b in ((1, "assembly"), (2, "step"), (3, "metrics"))] +
  [U("two%d" % t, "aggregate.cc", PROG, {"TASK": t, "NLIN": 2}, "%s: as above with two linear constraints" % b, only=T) for t, b in ((1, "assembly"), (2, "step"), (3, "metrics"))] +
  [U("pair%d" % t, "aggregate.cc", PROG, {"TASK": t, "NLIN": 2, "NVARS": 1}, "%s: two linear constraints of 1..2 rows on one variable, optional equality and quadratic cost" % b) for t, b in ((1, "assembly"), (2, "step"), (3, "metrics"))] +
  [U("last%d" % t, "aggregate.cc", PROG, {"TASK": t, "LAST": 1}, "%s: as above with the linear constraint after the equality and the quadratic cost" % b) for t, b in ((1, "assembly"), (2, "step"), (3, "metrics"))], parallel=6)
API = sorted(set(PROG + LMI + HERM + ["conex/soc_constraint.cc", "interfaces/conex.cc"]))
EV = ", every index as a machine integer, one entry set on an empty or filled constraint"
C("P16", [U("lmi%d" % d, "api.cc", API, {"TASK": 1, "DIM": d, "MMAX": 2 if d < 4 else 1}, "matrix inequality of order 1..2 over dimension %d, 1..%d variables" % (d, 2 if d < 4 else 1) + EV, deadline=300, thorough={"MMAX": 2}) for d in (8, 4, 2, 1)] +
  [U("soc", "api.cc", API, {"TASK": 2}, "second-order cone of order 1+1, 1+2, 1..2 variables" + EV), U("lin", "api.cc", API, {"TASK": 3}, "linear inequality of 1..2 rows, 1..2 variables" + EV),
   U("quad", "api.cc", API, {"TASK": 4}, "quadratic cost over 1..2 variables" + EV), U("quadm", "api.cc", API, {"TASK": 4, "GIVEN": 1}, "quadratic cost over 1..2 variables given at once"),
   U("new", "api.cc", API, {"TASK": 5}, "creation with every order and dimension as a machine integer, null pointers"), U("dense", "api.cc", API, {"TASK": 7}, "dense, sparse (2 of 3 variables) and two-sided constraints of order 1..2 given at once")], parallel=8)

LIB = sorted(set(API) - {"interfaces/conex.cc"})
C("P17", [U("build", "program.cc", API, {"TASK": 1}, "two additions to a program of 2 variables: linear, second-order cone, equality (named or temporary), quadratic cost, on all or any list of up to 2 integers", deadline=400, thorough={"NOPS": 3}),
  U("costs", "program.cc", API, {"TASK": 2}, "three steps of adding costs of 0..3 entries or clearing them, 1..2 variables"),
  U("options", "program.cc", LIB, {"TASK": 3}, "every option field as any integer or real, default options, 1..2 variables"),
  U("stats", "program.cc", API, {"TASK": 4}, "0..4 iterations done, any integer as index"),
  U("duals", "program.cc", API, {"TASK": 5}, "three constraints (linear, matrix, equality), any integer as index, no or two iterations"),
  U("refused", "program.cc", API, {"TASK": 6}, "empty programs, objectives of every wrong dimension up to 4, every unsupported pair of options as integers"),
  U("grow", "program.cc", API, {"TASK": 7}, "1..3 constraints, then twice one more of four kinds after initialisation"),
  U("feasible", "program.cc", API, {"TASK": 8}, "1..2 linear constraints of 1..2 rows, optional equality, 1..2 variables")], parallel=8)
SOLVE = ["conex/cone_program.cc", "conex/divergence.cc", "conex/equality_constraint.cc", "conex/quadratic_cost.cc"] + KK
LP = SOLVE + LIN
PR = "constraints that answer with arbitrary values; "
C("P19", [
  U("ls1", "solve.cc", SOLVE, {"FREE": 1, "FINAL": 2, "ITERS": 3, "ITERMIN": 3, "QUAD": 1, "NOFAIL": 1}, PR + "3 iterations, 2 final centring steps, quadratic costs, Newton vectors, line searches and norms symbolic", deadline=400, jobs=3),
  U("ls2", "solve.cc", SOLVE, {"FREE": 2, "THR": 0.25}, PR + "1..2 iterations, inner products, line searches and norms symbolic, infeasibility threshold 1/4", deadline=400, jobs=3),
  U("bad", "solve.cc", SOLVE, {"BADFACTOR": 1, "FREE": 2, "ITERMIN": 2}, PR + "factorization fails at one iteration", deadline=400),
  U("ls0", "solve.cc", SOLVE, {"FREE": 0, "QUAD": 1}, PR + "1..2 iterations, quadratic costs, Newton matrix, line searches and norms symbolic", deadline=400, jobs=3),
  U("lsr", "solve.cc", SOLVE, {"RESCALE": 1, "FINAL": 2, "THR": 0.125}, PR + "1..2 iterations with rescaling", deadline=400),
  U("dv", "solve.cc", SOLVE, {"LINESEARCH": 0, "ITERMIN": 2, "THR": 0.25}, PR + "2 iterations, five slack spectra, divergence bound", deadline=400),
  U("dv2", "solve.cc", SOLVE, {"LINESEARCH": 0, "PROBES": 2, "ITERS": 1}, PR + "two constraints, one iteration, divergence bound", deadline=400),
  U("two", "solve.cc", SOLVE, {"PROBES": 2, "ITERS": 1, "QUAD": 1}, PR + "two constraints, one iteration, line search", deadline=400),
  U("lp", "lp.cc", LP, {}, "real linear program: one row, one variable, one iteration, all data symbolic"),
  U("lpd", "lp.cc", LP, {"LINESEARCH": 0}, "as lp with the divergence bound", only=T),
  U("lpe", "lp.cc", LP, {"EQ": 1}, "one row, two variables, one equality, one iteration, right-hand sides symbolic"),
  U("lpe3", "lp.cc", LP, {"EQ": 1, "NROWS": 2}, "two rows, two variables, one equality, one iteration", only=T),
  U("lp3", "lp.cc", LP, {"NROWS": 1, "ITERS": 2, "SYMA": 0}, "one row, one variable, two iterations, right-hand sides symbolic", only=T),
  ], parallel=8, outside="more than 3 iterations or 2 constraints; whether the iteration converges at all; rounding")
C("P21", [
  U("dual", "solve.cc", SOLVE, {"DUAL": 1, "ITERMIN": 0, "ITERS": 1, "THR": 1}, PR + "0..1 iterations, feasible and infeasible ends"),
  U("dualr", "solve.cc", SOLVE, {"DUAL": 1, "RESCALE": 1, "ITERS": 1}, PR + "one iteration with rescaling"),
  U("two", "solve.cc", SOLVE, {"DUAL": 1, "PROBES": 2, "ITERS": 1, "QUAD": 1}, PR + "two constraints, one iteration", only=T),
  U("lp", "lp.cc", LP, {"DUAL": 1}, "real linear program: one row, one variable, one iteration, all data symbolic"),
  U("lp2", "lp.cc", LP, {"NROWS": 2, "SYMA": 0, "DUAL": 1}, "two rows, one variable, one iteration, right-hand sides symbolic"),
  U("lpd", "lp.cc", LP, {"LINESEARCH": 0, "DUAL": 1}, "as lp with the divergence bound", only=T),
  ], parallel=8, outside="second-order and quadratic cones do not provide dual variables")
C("P24", [
  U("warm", "solve.cc", SOLVE, {"WARM": 1, "ITERS": 1, "NOFAIL": 1, "FREE": 3, "QUAD": 1}, PR + "a solve, then a warm-started solve of the same program, with a constraint added, or of another program on its memory or on empty memory, with the same or a larger iteration limit; its first factorization may fail", deadline=400),
  U("warmr", "solve.cc", SOLVE, {"WARM": 1, "ITERS": 1, "NOFAIL": 1, "FREE": 3, "RESCALE": 1}, PR + "as warm with rescaling", deadline=400),
  ], parallel=8)
