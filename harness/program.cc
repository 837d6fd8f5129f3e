// P17: building a program, handing options to the solver, and reading results back.
#include "interfaces/conex.h"
#include <climits>
#include <list>
#include "common.h"
#include "conex/cone_program.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/equality_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cost.h"
#if TASK != 3  // has no include guard
#include "conex/soc_constraint.h"
#endif
using namespace conex;
using std::vector;
#ifndef TASK
#define TASK 1
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef NVARS
#define NVARS 2
#endif
enum { OK = 0, FAIL = 1 };
static const Constraint* Nth(Program& p, int k) {
  auto it = p.kkt_system_manager_.eqs.begin();
  while (k--) ++it;
  return &it->constraint;
}
#if TASK == 1  // adding constraints of every kind on arbitrary lists of variables
extern "C" void sx_main() {
  const int m = NVARS;
  Program p(m);
  vector<vector<int>> cliques, duals;
  vector<int> conic;
  int mult = 0;
  for (int k = 0; k < NOPS; k++) {
    int op = sx_choose("op", 0, 5), all = op == 4 || op == 5 || op == 0 ? 1 : sx_choose("all", 0, 1), len = all ? m : sx_choose("len", 0, NVARS);
    vector<int> v(len);
    bool good = true;
    for (int i = 0; i < len; i++) {
      v[i] = all ? i : sx_int("v", INT_MIN, INT_MAX);
      if ((v[i] < 0) | (v[i] >= m)) good = false;
      for (int j = 0; j < i; j++)
        if (v[i] == v[j]) good = false;
    }
    MatrixXd A = MatrixXd::Constant(2, len, 1 + k), b = MatrixXd::Constant(2, 1, 3);
    bool r = false;
    int rows = 0;
    if (op == 0) {
      LinearConstraint c(A, b);
      r = k ? p.AddConstraint(c) : p.AddConstraint(c, v);
    } else if (op == 1) {
      r = all ? p.AddConstraint(LinearConstraint(A, b)) : p.AddConstraint(LinearConstraint(A, b), v);
    } else if (op == 2) {
      rows = 1 + k;
      EqualityConstraints e(MatrixXd::Constant(rows, len, 1), MatrixXd::Constant(rows, 1, 2));
      r = all ? p.AddConstraint(e) : p.AddConstraint(e, v);
      sx_assert(e.A_.rows() == rows && e.A_.cols() == len && e.b_.rows() == rows, "the caller's constraint is left alone");
    } else if (op == 3) {
      int shape = sx_choose("shape", 0, 2), order = shape == 1 ? len + 1 : len, wide = shape == 2;
      if (all && !order) order = len;
      if (order != len || wide) good = false;
      MatrixXd Q = MatrixXd::Identity(order, order + wide);
      bool had = p.contains_quadratic_costs_;
      r = all && !wide ? p.AddQuadraticCost(Q) : p.AddQuadraticCost(Q, v);
      sx_assert(p.contains_quadratic_costs_ == (had || good), "the program knows whether it has quadratic costs");
    } else if (op == 4) {
      int dim = sx_choose("row", 1, 2);
      r = p.AddConstraint(EqualityConstraints(MatrixXd::Constant(dim, len, 1), MatrixXd::Constant(dim, 1, 2)));
      rows = dim;
    } else {
      r = p.AddConstraint(SOCConstraint(MatrixXd::Constant(3, len, 1), MatrixXd::Constant(3, 1, 1)));
    }
    sx_assert(r == (good ? OK : FAIL), "constraints are accepted exactly on distinct variables of the program");
    if (good) {
      duals.push_back({});
      for (int i = 0; i < rows; i++) {
        v.push_back(m + mult);
        duals.back().push_back(m + mult++);
      }
      if (op != 2 && op != 4) conic.push_back((int)cliques.size());
      cliques.push_back(v);
    }
    const int n = cliques.size();
    auto& km = p.kkt_system_manager_;
    sx_assert(p.NumberOfConstraints() == n && (int)km.cliques.size() == n && (int)km.dual_vars.size() == n, "a constraint is counted exactly when it was accepted");
    sx_assert(km.SizeOfKKTSystem() == m + mult && p.GetNumberOfVariables() == m, "one unknown per variable and per equality row");
    for (int i = 0; i < n; i++) {
      sx_assert(km.cliques[i] == cliques[i], "each constraint keeps its variables in the order given, followed by its own multipliers");
      sx_assert(km.dual_vars[i] == duals[i], "multipliers are numbered after the variables in order of creation");
    }
    sx_assert((int)p.constraints_.size() <= n, "constraints taking part in steps are those accepted");
    size_t at = 0;
    for (int i = 0; i < (int)conic.size(); i++) {
      const Constraint* want = Nth(p, conic[i]);
      while (at < p.constraints_.size() && p.constraints_[at] != want) at++;
      sx_assert(at < p.constraints_.size(), "every accepted inequality, cone and cost takes part in steps, in order");
    }
  }
  sx_witness("end");
}
#endif
#if TASK == 2  // linear costs
extern "C" void sx_main() {
  const int m = sx_choose("m", 1, NVARS);
  Program p(m);
  sx_assert(p.linear_cost_.rows() == m, "one cost per variable");
  VectorXd want = VectorXd::Zero(m);
  for (int k = 0; k < 3; k++) {
    if (sx_choose("clear", 0, 1)) {
      p.ClearLinearCosts();
      want.setZero();
    } else {
      int n = Pick("n", 0, NVARS + 1);
      VectorXd b = SymMatIn("b", n, 1, -4, 4);
      sx_assert(p.AddLinearCost(b) == (n == m ? OK : FAIL), "linear costs are accepted exactly with one entry per variable");
      if (n == m) want += b;
    }
    sx_assert(p.linear_cost_.rows() == m, "one cost per variable");
    for (int i = 0; i < m; i++) sx_assert_eq(p.linear_cost_(i), want(i), "the linear cost is the sum of those added since it was cleared");
  }
  sx_witness("end");
}
#endif
#if TASK == 3  // options and arguments reach the solver
static SolverConfiguration got;
static Program* gotprog;
static double* goty;
static int calls, answer;
static MatrixXd gotb;
namespace conex {
bool CapturedSolve(Program& p, const SolverConfiguration& c, double* y) {
  calls++;
  got = c;
  gotprog = &p;
  goty = y;
  gotb = -p.linear_cost_;
  return answer;
}
bool CapturedSolve(const DenseMatrix& b, Program& p, const SolverConfiguration& c, double* y) {
  calls++;
  got = c;
  gotprog = &p;
  goty = y;
  gotb = b;
  return answer;
}
}  // namespace conex
#define Solve CapturedSolve
#include "interfaces/conex.cc"
#undef Solve
#define INTS(F) F(prepare_dual_variables) F(initialization_mode) F(enable_line_search) F(final_centering_steps) F(initial_centering_steps_warmstart) F(initial_centering_steps_coldstart) F(max_iterations) F(iterative_refinement_iterations) F(enable_rescaling) F(kkt_solver)
#define REALS(F) F(inv_sqrt_mu_max) F(minimum_mu) F(maximum_mu) F(divergence_upper_bound) F(dinf_upper_bound) F(final_centering_tolerance) F(warmstart_abort_threshold) F(infeasibility_threshold) F(kkt_error_tolerance)
extern "C" void sx_main() {
  CONEX_SolverConfiguration c;
  int defaults = sx_choose("defaults", 0, 1);
  if (defaults) {
    CONEX_SetDefaultOptions(&c);
    SolverConfiguration d;
#define F(x) sx_assert(c.x == d.x, "default options are those of the solver");
    INTS(F)
    REALS(F)
#undef F
    CONEX_SetDefaultOptions(nullptr);
  } else {
#define F(x) c.x = sx_int(#x, INT_MIN, INT_MAX);
    INTS(F)
#undef F
#define F(x) c.x = sx_real(#x);
    REALS(F)
#undef F
  }
  CONEX_SolverConfiguration c0 = c;
  const int m = sx_choose("m", 1, 2);
  void* p = CONEX_CreateConeProgram();
  sx_assert(CONEX_SetNumberOfVariables(p, m) == OK, "number of variables is accepted");
  VectorXd b = SymMatIn("b", m, 1, -4, 4), b0 = b, y = VectorXd::Constant(m, 7);
  answer = sx_int("answer", 0, 1) ? 1 : 0;
  int r;
  if (sx_choose("maximize", 0, 1)) {
    r = CONEX_Maximize(p, b.data(), m, &c, y.data(), m);
    sx_assert(calls == 1 && gotb.rows() == m && gotb.cols() == 1, "the objective has one entry per variable");
    for (int i = 0; i < m; i++) sx_assert_eq(gotb(i), b0(i), "the objective reaches the solver unchanged");
  } else {
    static_cast<Program*>(p)->AddLinearCost(b);
    r = CONEX_Solve(p, &c, y.data(), m);
    sx_assert(calls == 1, "one solve");
    for (int i = 0; i < m; i++) sx_assert_eq(gotb(i), -b0(i), "costs added earlier are kept");
  }
  sx_assert(gotprog == p && goty == y.data(), "the solver is given the program and the output");
  sx_assert(r == answer, "the outcome is the solver's");
#define F(x) sx_assert((got.x == c0.x) & (c.x == c0.x), "option " #x " reaches the solver unchanged");
  INTS(F)
#undef F
#define F(x) sx_assert_eq(got.x, c0.x, "option " #x " reaches the solver unchanged"); sx_assert_eq(c.x, c0.x, "options are left alone");
  REALS(F)
#undef F
  CONEX_DeleteConeProgram(p);
  sx_witness("end");
}
#endif
#if TASK == 4  // statistics of every iteration
extern "C" void sx_main() {
  void* v = CONEX_CreateConeProgram();
  Program* p = static_cast<Program*>(v);
  CONEX_IterationStats s;
  s.mu = 77;
  s.iteration_number = -77;
  int any = sx_int("index", INT_MIN, INT_MAX);
  CONEX_GetIterationStats(v, &s, any);
  CONEX_GetIterationStats(v, nullptr, any);
  CONEX_GetIterationStats(nullptr, &s, any);
  sx_assert((s.mu == 77) & (s.iteration_number == -77), "no statistics before the first solve");
  const int most = sx_choose("iterations", 1, 4), n = Pick("done", 0, most);
  p->SetNumberOfVariables(1);
  p->AddConstraint(LinearConstraint(MatrixXd::Constant(1, 1, 1), MatrixXd::Constant(1, 1, 1)));
  SolverConfiguration c;
  c.max_iterations = most;
  Initialize(*p, c);
  VectorXd k = SymMatIn("k", most, 1, 0.125, 8);
  p->stats->num_iter = n;
  for (int i = 0; i < most; i++) p->stats->sqrt_inv_mu[i] = k(i);
  int i = sx_choose("near", 0, 1) ? Pick("i", -n - 1, n) : sx_int("i", INT_MIN, INT_MAX);
  CONEX_GetIterationStats(v, &s, i);
  bool ok = (i < n) & (i >= -n);
  if (ok) {
    int at = i < 0 ? n + i : i;
    sx_assert(s.iteration_number == at, "iterations are counted from the start, or from the end when negative");
    at = sx_split(at);
    sx_assert_eq(s.mu * k(at) * k(at), 1, "the barrier parameter of the iteration asked for");
    sx_witness("inside");
  } else {
    sx_assert((s.mu == 77) & (s.iteration_number == -77), "nothing is written for iterations that did not take place");
    sx_witness("outside");
  }
  CONEX_DeleteConeProgram(v);
  sx_witness("end");
}
#endif
#if TASK == 5  // dual variables of the constraint asked for
extern "C" void sx_main() {
  void* v = CONEX_CreateConeProgram();
  Program* p = static_cast<Program*>(v);
  p->SetNumberOfVariables(2);
  vector<int> size;
  for (int k = 0; k < 3; k++) {
    int kind = sx_choose("kind", 0, 2), n = 1 + (k + kind) % 2;
    if (kind == 0) {
      p->AddConstraint(LinearConstraint(MatrixXd::Constant(n, 2, 1), MatrixXd::Constant(n, 1, 1)));
      size.push_back(n);
    } else if (kind == 1) {
      vector<MatrixXd> A(2, MatrixXd(MatrixXd::Identity(n, n)));
      p->AddConstraint(DenseLMIConstraint(n, A, MatrixXd(MatrixXd::Identity(n, n))));
      size.push_back(n * n);
    } else {
      p->AddConstraint(EqualityConstraints(MatrixXd::Constant(n, 2, 1), MatrixXd::Constant(n, 1, 1)));
      size.push_back(0);
    }
  }
  Initialize(*p, SolverConfiguration());
  for (int k = 0; k < 3; k++) sx_assert(CONEX_GetDualVariableSize(v, k) == size[k], "size of each dual variable");
  vector<VectorXd> W(3);
  int k = 0;
  for (auto& ci : p->kkt_system_manager_.eqs) {
    W[k] = SymMatIn("W", size[k], 1, -4, 4);
    if (auto* L = std::any_cast<LinearConstraint>(&ci.obj))
      for (int i = 0; i < size[k]; i++) L->workspace()->W(i, 0) = W[k](i);
    if (auto* D = std::any_cast<DenseLMIConstraint>(&ci.obj))
      for (int i = 0; i < size[k]; i++) D->workspace()->W.data()[i] = W[k](i);
    k++;
  }
  const int n = 2 * sx_choose("iterations", 0, 1), inf = sx_choose("infeasible", 0, 1);
  double scale = 1;
  p->stats->num_iter = n;
  p->status_.primal_infeasible = inf;
  p->stats->b_scaling() = sx_real_in("b_scaling", 0.125, 1);
  for (int i = 0; i < 4; i++) p->stats->sqrt_inv_mu[i] = sx_real_in("k", 0.125, 8);
  if (n && !inf) scale = p->stats->sqrt_inv_mu[n - 1] * p->stats->b_scaling();
  int which = sx_choose("inside", 0, 1) ? Pick("i", 0, 2) : sx_int("i", INT_MIN, INT_MAX);
  bool in = (which >= 0) & (which < 3);
  if (in) which = sx_split(which);
  int len = in ? size[which] : 2;
  VectorXd x = VectorXd::Constant(len + 1, 77);
  CONEX_GetDualVariable(v, which, x.data(), len, 1);
  for (int i = 0; i < len; i++)
    if (in)
      sx_assert_eq(x(i) * scale, W[which](i), "the dual variable of the constraint asked for, without the solver's scalings");
    else
      sx_assert(x(i) == 77, "nothing is written for constraints that do not exist");
  sx_assert(x(len) == 77, "nothing is written past the end");
  CONEX_DeleteConeProgram(v);
  sx_witness("end");
}
#endif
#if TASK == 6  // calls that cannot be solved
extern "C" void sx_main() {
  const int m = sx_choose("m", 1, 2), kind = sx_choose("kind", 0, 2);
  Program p(m);
  SolverConfiguration c;
  if (kind) p.AddConstraint(LinearConstraint(MatrixXd::Identity(m, m), MatrixXd::Constant(m, 1, 1)));
  p.status_.solved = sx_int("solved", 0, 1);
  p.status_.primal_infeasible = sx_int("pi", 0, 1);
  p.status_.dual_infeasible = sx_int("di", 0, 1);
  VectorXd y = VectorXd::Constant(4, 77);
  bool r = true;
  if (kind == 0) {  // nothing to solve
    VectorXd b(m);
    for (int i = 0; i < m; i++) b(i) = sx_choose("sign", 0, 1) ? -2 : 3;
    r = Solve(b, p, c, y.data());
    for (int i = m; i < 4; i++) sx_assert(y(i) == 77, "nothing is written past the end");
  } else if (kind == 1) {  // objective of another dimension
    int n = Pick("n", 0, 4);
    sx_assume(n != m);
    VectorXd b = SymMatIn("b", n, 1, -4, 4);
    r = Solve(b, p, c, y.data());
    for (int i = 0; i < 4; i++) sx_assert(y(i) == 77, "no solution is written");
  } else {  // options that quadratic costs do not support
    p.AddQuadraticCost(MatrixXd::Identity(m, m));
    c.enable_line_search = sx_int("line search", INT_MIN, INT_MAX);
    c.enable_rescaling = sx_int("rescaling", INT_MIN, INT_MAX);
    sx_assume((c.enable_line_search == 0) | (c.enable_rescaling != 0));
    r = Solve(p, c, y.data());
    for (int i = 0; i < 4; i++) sx_assert(y(i) == 77, "no solution is written");
  }
  sx_assert(!r, "what cannot be solved is not reported solved");
  sx_assert((p.Status().solved == 0) & (p.Status().primal_infeasible == 0) & (p.Status().dual_infeasible == 0), "the status of an earlier solve does not survive");
  sx_witness("end");
}
#endif
#if TASK == 7  // programs can grow after a solve
extern "C" void sx_main() {
  void* v = CONEX_CreateConeProgram();
  Program* p = static_cast<Program*>(v);
  CONEX_SetNumberOfVariables(v, 2);
  int n = 0, id = -7;
  for (int k = sx_choose("constraints", 1, 3); k > 0; k--) {
    switch (k % 2) {
      case 0: CONEX_NewLinearInequality(v, 1, &id); break;
      default: CONEX_NewLorentzConeConstraint(v, 1, &id);
    }
    sx_assert(id == n++, "constraints are numbered in order");
  }
  for (int round = 0; round < 2; round++) {
    Initialize(*p, SolverConfiguration());
    sx_assert(CONEX_SetNumberOfVariables(v, 3) == FAIL && p->GetNumberOfVariables() == 2, "the number of variables stays");
    int more = 1;
    for (int k = 0; k < more; k++) {
      int r = OK;
      id = -7;
      switch (sx_choose("then", 0, 3)) {
        case 0: r = CONEX_NewLinearInequality(v, 2, &id); break;
        case 1: r = CONEX_NewLorentzConeConstraint(v, 2, &id); break;
        case 2: r = CONEX_NewLinearMatrixInequality(v, 1, 2, &id); break;
        default: r = CONEX_NewQuadraticCost(v, &id);
      }
      sx_assert(r == OK && id == n && p->NumberOfConstraints() == n + 1, "constraints can be added after a solve");
      n++;
    }
    int at = Pick("at", 0, n - 1);
    double val = sx_real_in("value", -4, 4);
    sx_assert(CONEX_UpdateAffineTerm(v, at, val, 0, 0, 0) == OK, "constraints can be changed after a solve");
  }
  sx_assert(p->kkt_system_manager_.SizeOfKKTSystem() == 2, "one unknown per variable");
  CONEX_DeleteConeProgram(v);
  sx_witness("end");
}
#endif
#if TASK == 8  // an objective for which dual variables exist
extern "C" void sx_main() {
  const int m = sx_choose("m", 1, 2), eq = sx_choose("equality", 0, 1), cons = sx_choose("constraints", 1, 2);
  Program p(m);
  VectorXd want = VectorXd::Zero(m);
  for (int k = 0; k < cons; k++) {
    int n = sx_choose("rows", 1, 2);
    MatrixXd A = SymMatIn("A", n, m, -4, 4), c = SymMatIn("c", n, 1, -4, 4);
    for (int r = 0; r < n; r++)
      for (int i = 0; i < m; i++) want(i) += A(r, i);
    p.AddConstraint(LinearConstraint(A, c));
  }
  if (eq) p.AddConstraint(EqualityConstraints(SymMatIn("E", 1, m, -4, 4), SymMatIn("e", 1, 1, -4, 4)));
  DenseMatrix b = GetFeasibleObjective(&p);
  sx_assert(b.rows() >= m && b.cols() == 1, "one entry per variable");
  for (int i = 0; i < m; i++) sx_assert_eq(2 * b(i), want(i), "the objective is that of the identity scaling, halved");
  sx_witness("end");
}
#endif
