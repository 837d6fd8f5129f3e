// P19, P21: whole solves of small linear programs with the real constraints.
#include "common.h"
#include "conex/cone_program.h"
#include "conex/equality_constraint.h"
#include "conex/linear_constraint.h"
using namespace conex;
#ifndef NROWS
#define NROWS 1
#endif
#ifndef LINESEARCH
#define LINESEARCH 1
#endif
#ifndef DUAL
#define DUAL 0
#endif
#ifndef EQ
#define EQ 0
#endif
#ifndef SYMA
#define SYMA !EQ
#endif
#ifndef ITERS
#define ITERS 1
#endif
extern "C" void sx_main() {
  const int n = NROWS, m = EQ ? 2 : 1;
  MatrixXd A(n, m), c(n, 1);
  for (int i = 0; i < n; i++) {
    static const double a[] = {1, -2, 0.5, 3};
    for (int j = 0; j < m; j++) A(i, j) = i == 0 && j == 0 && SYMA ? sx_real_in("A", -4, 4) : a[(i + 2 * j) % 4];
    c(i) = sx_real_in("c", 0.125, 4);
  }
  VectorXd b(m);
  for (int j = 0; j < m; j++) b(j) = j ? 0.5 : sx_real_in("b", -4, 4);
  if (SYMA) sx_assume(A(0, 0) != 0);
  Program prog(m);
  sx_assert(prog.AddConstraint(LinearConstraint(A, c)) == CONEX_SUCCESS, "constraint is accepted");
  MatrixXd E(1, m), e(1, 1);
  E(0, 0) = 1;
  if (EQ) {
    E(0, 1) = -1;
    e(0) = 0.25;
    sx_assert(prog.AddConstraint(EqualityConstraints(E, e)) == CONEX_SUCCESS, "constraint is accepted");
  }
  SolverConfiguration cf;
  cf.max_iterations = ITERS;
  cf.final_centering_steps = ITERS;
  cf.enable_rescaling = 0;
  cf.enable_line_search = LINESEARCH;
  cf.prepare_dual_variables = DUAL;
  cf.final_centering_tolerance = 0.9;
  cf.kkt_solver = EQ;
  VectorXd y = VectorXd::Zero(m);
  bool ok = Solve(b, prog, cf, y.data());
  if (ok) {
    for (int i = 0; i < n; i++) {
      double s = c(i);
      for (int j = 0; j < m; j++) s -= A(i, j) * y(j);
      sx_assert_lt(0, s, "a solution reported as solved satisfies every inequality");
    }
    if (EQ) sx_assert_eq(y(0) - y(1), 0.25, "a solution reported as solved satisfies every equality");
    sx_witness("solved");
  }
#if DUAL
  sx_assert(prog.GetDualVariableSize(0) == n, "size of the dual variable");
  VectorXd x(n);
  prog.GetDualVariable(0, &x);
  double k = prog.stats->sqrt_inv_mu[prog.stats->num_iter - 1], inf = prog.Status().primal_infeasible;
  double s = 0;
  for (int i = 0; i < n; i++) s += A(i, 0) * x(i);
  if (inf)
    sx_assert_near(s, k * b(0), 1e-9, "dual ray satisfies its equations");
  else
    sx_assert_near(s, b(0), 1e-9, "dual variable satisfies A'x = b");
#endif
  sx_witness("end");
}
