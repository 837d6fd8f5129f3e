// P16/P17: building programs through the C interface.
#include "interfaces/conex.h"
#include <climits>
#include <list>
#include "cone_check.h"
#include "conex/cone_program.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/equality_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cost.h"
#include "conex/soc_constraint.h"
using namespace conex;
using std::vector;
#ifndef TASK
#define TASK 1
#endif
#ifndef DIM
#define DIM 1
#endif
#ifndef NUP
#define NUP 1
#endif
#ifndef MMAX
#define MMAX 2
#endif
#ifndef NMAX
#define NMAX 2
#endif
enum { OK = 0, FAIL = 1 };
static Container& At(void* p, int k) {
  auto it = static_cast<Program*>(p)->kkt_system_manager_.eqs.begin();
  while (k--) ++it;
  return *it;
}
// An index near or far from [0, n): every value close by, and arbitrary ones beyond.
static int Index(const char* nm, int n) {
  switch (sx_choose(nm, 0, 2)) {
    case 0: return Pick(nm, 0, n - 1);
    case 1: return sx_int(nm, INT_MIN, -1);
    default: return sx_int(nm, n, INT_MAX);
  }
}
static bool In(int i, int n) { return i >= 0 && i < n; }
struct System {
  System(int m) : sys(m) {
    mem.resize(SizeOf(sys));
    for (int i = 0; i < mem.rows(); i++) mem(i) = 77;
    Initialize(&sys, mem.data());
  }
  SchurComplementSystem sys;
  VectorXd mem;
};
static void Same(const SchurComplementSystem& a, const SchurComplementSystem& b, int m) {
  for (int i = 0; i < m; i++) {
    for (int j = 0; j <= i; j++) sx_assert_eq(a.G(i, j), b.G(i, j), "constraint built by updates has the Newton system of the same constraint built at once");
    sx_assert_eq(a.AW(i, 0), b.AW(i, 0), "constraint built by updates has the Newton system of the same constraint built at once");
    sx_assert_eq(a.AQc(i, 0), b.AQc(i, 0), "constraint built by updates has the Newton system of the same constraint built at once");
  }
  sx_assert_eq(a.inner_product_of_w_and_c, b.inner_product_of_w_and_c, "constraint built by updates has the Newton system of the same constraint built at once");
  sx_assert_eq(a.inner_product_of_c_and_Qc, b.inner_product_of_c_and_Qc, "constraint built by updates has the Newton system of the same constraint built at once");
}
static Ref Vec(VectorXd& v) { return Ref(v.data(), v.rows(), 1); }

#if TASK == 1
using Alg = MatrixAlgebra<DIM>;
using H = HyperComplexMatrix;
extern "C" void sx_main() {
  int m = sx_choose("m", 1, MMAX), n = sx_choose("n", 1, NMAX);
  void* p = CONEX_CreateConeProgram();
  int id = -7;
  sx_assert(CONEX_SetNumberOfVariables(p, m) == OK, "number of variables is accepted");
  sx_assert(CONEX_NewLinearMatrixInequality(p, n, DIM, &id) == OK && id == 0, "matrix inequality is created");
  vector<H> A(m);
  H C = Alg::Zero(n, n);
  for (auto& a : A) a = Alg::Zero(n, n);
  // fixed entries first, so that a wrong position or sign shows against them
  if (sx_choose("dense", 0, 1)) {
    int v = 1;
    for (int k = 0; k < m; k++)
      for (int d = 0; d < DIM; d++)
        for (int j = 0; j < n; j++)
          for (int i = j + (d > 0); i < n; i++) {
            double x = v++ % 7 - 3;
            sx_assert(CONEX_UpdateLinearOperator(p, 0, x, k, i, j, d) == OK, "entry in range is accepted");
            A[k].at(d)(i, j) = x;
            A[k].at(d)(j, i) = d ? -x : x;
          }
    for (int d = 0; d < DIM; d++)
      for (int j = 0; j < n; j++)
        for (int i = j + (d > 0); i < n; i++) {
          double x = v++ % 5 - 2;
          sx_assert(CONEX_UpdateAffineTerm(p, 0, x, i, j, d) == OK, "entry in range is accepted");
          C.at(d)(i, j) = x;
          C.at(d)(j, i) = d ? -x : x;
        }
  }
  for (int u = 0; u < NUP; u++) {
    double val = sx_real_in("val", -4, 4);
    int affine = sx_choose("affine", 0, 1);
    int which = sx_choose("badarg", 0, 5);  // at most one argument is out of range
    int con = 0, r = Pick("row", 0, n - 1), c = Pick("col", 0, n - 1), d = Pick("dim", 0, DIM - 1), v = affine ? 0 : Pick("var", 0, m - 1);
    int* arg[] = {nullptr, &con, &r, &c, &d, &v};
    int lim[] = {0, 1, n, n, DIM, m};
    if (affine && which == 5) sx_stop("no variable");
    if (which) {
      *arg[which] = sx_choose("side", 0, 1) ? sx_int("beyond", lim[which], INT_MAX) : sx_int("negative", INT_MIN, -1);
    }
    bool valid = !which && !(r == c && d > 0 && val != 0);
    int status = affine ? CONEX_UpdateAffineTerm(p, con, val, r, c, d) : CONEX_UpdateLinearOperator(p, con, val, v, r, c, d);
    sx_assert(status == (valid ? OK : FAIL), "updates succeed exactly when their arguments are in range and Hermitian");
    if (status == OK) {
      H& M = affine ? C : A[v];
      M.at(d)(r, c) = val;
      if (r != c) M.at(d)(c, r) = d ? -val : val;
    }
  }
  HermitianPsdConstraint<Alg> ref(n, A, C);
  auto& con = At(p, 0);
  sx_assert(con.constraint.number_of_variables() == m, "constraint covers every variable");
  sx_assert(Rank(con.constraint) == n, "order");
  VectorXd mem1(SizeOf(*ref.workspace()) + 1), mem2(SizeOf(con.constraint.workspace()) + 1);
  Initialize(ref.workspace(), mem1.data());
  Workspace w = con.constraint.workspace();
  Initialize(&w, mem2.data());
  SetIdentity(&ref);
  SetIdentity(&con.constraint);
  System a(m), b(m);
  ConstructSchurComplementSystem(&con.constraint, true, &a.sys);
  ConstructSchurComplementSystem(&ref, true, &b.sys);
  Same(a.sys, b.sys, m);
#if DIM != 8
  VectorXd y(m);
  for (int i = 0; i < m; i++) y(i) = 0.5 + i;
  StepOptions o;
  o.affine = true;
  o.e_weight = 0;
  o.c_weight = 0.25;
  StepInfo info;
  PrepareStep(&con.constraint, o, Vec(y), &info);
  PrepareStep(&ref, o, Vec(y), &info);
  ConstructSchurComplementSystem(&con.constraint, true, &a.sys);
  ConstructSchurComplementSystem(&ref, true, &b.sys);
  Same(a.sys, b.sys, m);
  sx_assert(con.constraint.dual_variable_size() == n * n, "dual variable is one matrix");
  MatrixXd X(n, n);
  con.constraint.get_dual_variable(X.data());
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      double x = (i == j) - 0.25 * C.at(0)(i, j);
      for (int k = 0; k < m; k++) x += A[k].at(0)(i, j) * y(k);
      sx_assert_eq(X(i, j), x, "entries are stored at their row and column");
    }
#endif
  CONEX_DeleteConeProgram(p);
  sx_witness("end");
}
#endif

#if TASK == 2 || TASK == 3
// second-order cone / linear inequality
extern "C" void sx_main() {
  int m = sx_choose("m", 1, MMAX), n = sx_choose("n", 1, NMAX);
  void* p = CONEX_CreateConeProgram();
  int id = -7;
  sx_assert(CONEX_SetNumberOfVariables(p, m) == OK, "number of variables is accepted");
  int own = TASK == 3 ? sx_choose("before", 0, 1) : 0, other;
  if (own) sx_assert(CONEX_NewLinearInequality(p, 1, &other) == OK && other == 0, "inequality is created");
#if TASK == 2
  sx_assert(CONEX_NewLorentzConeConstraint(p, n, &id) == OK && id == own, "cone is created");
  int rows = n + 1;
#else
  sx_assert(CONEX_NewLinearInequality(p, n, &id) == OK && id == own, "inequality is created");
  int rows = n;
#endif
  if (TASK == 3) sx_assert(CONEX_NewLinearInequality(p, 1, &other) == OK && other == own + 1, "inequality is created");
  MatrixXd A = MatrixXd::Zero(rows, m), C = MatrixXd::Zero(rows, 1);
  if (sx_choose("dense", 0, 1)) {
    int v = 1;
    for (int i = 0; i < rows; i++) {
      for (int k = 0; k < m; k++) {
        A(i, k) = v++ % 7 - 3;
        sx_assert(CONEX_UpdateLinearOperator(p, own, A(i, k), k, i, 0, 0) == OK, "entry in range is accepted");
      }
      C(i) = v++ % 5 - 2;
      sx_assert(CONEX_UpdateAffineTerm(p, own, C(i), i, 0, 0) == OK, "entry in range is accepted");
    }
  }
  for (int u = 0; u < NUP; u++) {
    double val = sx_real_in("val", -4, 4);
    int affine = sx_choose("affine", 0, 1);
    int which = sx_choose("badarg", 0, 5);
    int con = own, r = Pick("row", 0, rows - 1), c = 0, d = 0, v = affine ? 0 : Pick("var", 0, m - 1);
    int* arg[] = {nullptr, &con, &r, &c, &d, &v};
    int lim[] = {0, own + 1 + (TASK == 3), rows, 1, 1, m};
    if (affine && which == 5) sx_stop("no variable");
    if (which) *arg[which] = sx_choose("side", 0, 1) ? sx_int("beyond", lim[which], INT_MAX) : sx_int("negative", INT_MIN, -1);
    int status = affine ? CONEX_UpdateAffineTerm(p, con, val, r, c, d) : CONEX_UpdateLinearOperator(p, con, val, v, r, c, d);
    sx_assert(status == (which ? FAIL : OK), "updates succeed exactly when their arguments are in range");
    if (status == OK) (affine ? C(r) : A(r, v)) = val;
  }
#if TASK == 2
  SOCConstraint ref(A, C);
#else
  LinearConstraint ref(A, C);
#endif
  auto& con = At(p, own);
  sx_assert(con.constraint.number_of_variables() == m, "constraint covers every variable");
  sx_assert(Rank(con.constraint) == (TASK == 2 ? 2 : n), "rank");
  if (TASK == 3)  // constraints around it stay empty
    for (int k = 0; k <= own; k++) {
      auto& e = At(p, k == own ? own + 1 : 0).constraint;
      VectorXd mem(SizeOf(e.workspace()) + 1);
      Workspace w = e.workspace();
      Initialize(&w, mem.data());
      SetIdentity(&e);
      System s(m);
      ConstructSchurComplementSystem(&e, true, &s.sys);
      for (int i = 0; i < m; i++) sx_assert_eq(s.sys.G(i, i), 0, "an update changes only the constraint named");
      sx_assert_eq(s.sys.inner_product_of_c_and_Qc, 0, "an update changes only the constraint named");
    }
  VectorXd mem1(SizeOf(*ref.workspace()) + 1), mem2(SizeOf(con.constraint.workspace()) + 1);
  Initialize(ref.workspace(), mem1.data());
  Workspace w = con.constraint.workspace();
  Initialize(&w, mem2.data());
  SetIdentity(&ref);
  SetIdentity(&con.constraint);
#if TASK == 2  // a scaling that tells the rows apart: (5, 3, 0..)/.. has a rational square root
  for (int i = 0; i < n; i++) ref.workspace()->W1(i) = std::any_cast<SOCConstraint>(&con.obj)->workspace()->W1(i) = i ? 0 : 3;
  *ref.workspace()->W0 = *std::any_cast<SOCConstraint>(&con.obj)->workspace()->W0 = 5;
#else
  for (int i = 0; i < n; i++) ref.workspace()->W(i) = std::any_cast<LinearConstraint>(&con.obj)->workspace()->W(i) = 2 + i;
#endif
  System a(m), b(m);
  ConstructSchurComplementSystem(&con.constraint, true, &a.sys);
  ConstructSchurComplementSystem(&ref, true, &b.sys);
  Same(a.sys, b.sys, m);
#if TASK == 3
  for (int i = 0; i < m; i++)
    for (int j = 0; j <= i; j++) {
      double g = 0;
      for (int r = 0; r < n; r++) g += (2 + r) * (2 + r) * A(r, i) * A(r, j);
      sx_assert_eq(a.sys.G(i, j), g, "entries are stored at their row and variable");
    }
#endif
  CONEX_DeleteConeProgram(p);
  sx_witness("end");
}
#endif

#if TASK == 4  // quadratic costs
extern "C" void sx_main() {
  int m = sx_choose("m", 1, MMAX);
  void* p = CONEX_CreateConeProgram();
  Program* prog = static_cast<Program*>(p);
  int id = -7;
  sx_assert(CONEX_SetNumberOfVariables(p, m) == OK, "number of variables is accepted");
  MatrixXd Q = MatrixXd::Zero(m, m);
  int before = sx_choose("before", 0, 1);
  if (before) {
    int l;
    sx_assert(CONEX_NewLinearInequality(p, 1, &l) == OK && l == 0, "inequality is created");
  }
  vector<int> vars;
#ifdef GIVEN  // a whole matrix: variables with a positive diagonal entry, symmetric part
  MatrixXd M = SymMatIn("Q", m, m, -4, 4);
  for (int i = 0; i < m; i++)  // a positive semidefinite matrix has zero rows where its diagonal vanishes
    if (M(i, i) > 0)
      vars.push_back(i);
    else {
      sx_assume(M(i, i) == 0);
      for (int j = 0; j < m; j++) sx_assume(M(i, j) == 0 && M(j, i) == 0);
    }
  sx_assert(CONEX_AddQuadraticCost(p, M.data(), m, m) == OK, "quadratic cost is accepted");
  Q = 0.5 * (M + M.transpose());
  id = before;
#else
  sx_assert(CONEX_NewQuadraticCost(p, &id) == OK && id == before, "quadratic cost is created");
  for (int i = 0; i < m; i++) vars.push_back(i);
  for (int u = 0; u < NUP; u++) {
    double val = sx_real_in("val", -4, 4);
    int which = sx_choose("badarg", 0, 3);
    int con = id, r = Pick("row", 0, m - 1), c = Pick("col", 0, m - 1);
    int* arg[] = {nullptr, &con, &r, &c};
    int lim[] = {0, id + 1, m, m};
    if (which) *arg[which] = sx_choose("side", 0, 1) ? sx_int("beyond", lim[which], INT_MAX) : sx_int("negative", INT_MIN, -1);
    int status = CONEX_UpdateQuadraticCostMatrix(p, con, val, r, c);
    sx_assert(status == (which ? FAIL : OK), "updates succeed exactly when their arguments are in range");
    if (which) continue;
    Q(r, c) = val;
    sx_assert(CONEX_UpdateQuadraticCostMatrix(p, con, val, c, r) == OK, "entry in range is accepted");
    Q(c, r) = val;
  }
#endif
  sx_assert(prog->contains_quadratic_costs_, "program knows it has a quadratic cost");
  auto& con = At(p, id);
  auto& clique = prog->kkt_system_manager_.cliques.at(id);
  sx_assert(clique.size() == vars.size(), "cost covers its variables");
  for (size_t i = 0; i < vars.size(); i++) sx_assert(clique[i] == vars[i], "cost covers its variables");
  int k = vars.size();
  System a(k);
  ConstructSchurComplementSystem(&con.constraint, true, &a.sys);
  for (int i = 0; i < k; i++) {
    for (int j = 0; j < k; j++) sx_assert_eq(a.sys.G(i, j), Q(vars[i], vars[j]), "quadratic cost adds its matrix to the Newton system");
    sx_assert_eq(a.sys.AW(i, 0), 0, "quadratic cost adds nothing else");
    sx_assert_eq(a.sys.AQc(i, 0), 0, "quadratic cost adds nothing else");
  }
  sx_assert_eq(a.sys.inner_product_of_w_and_c, 0, "quadratic cost adds nothing else");
  sx_assert_eq(a.sys.inner_product_of_c_and_Qc, 0, "quadratic cost adds nothing else");
  CONEX_DeleteConeProgram(p);
  sx_witness("end");
}
#endif

#if TASK == 5  // creating constraints: arguments, identifiers
extern "C" void sx_main() {
  void* p = CONEX_CreateConeProgram();
  int m = 2;
  if (sx_choose("badm", 0, 1)) sx_assert(CONEX_SetNumberOfVariables(p, sx_int("m", INT_MIN, 0)) == FAIL, "a program has at least one variable");
  sx_assert(CONEX_SetNumberOfVariables(p, m) == OK, "number of variables is accepted, also after a rejected one");
  sx_assert(CONEX_SetNumberOfVariables(p, sx_int("again", 1, 9)) == FAIL, "the number of variables is set once");
  sx_assert(static_cast<Program*>(p)->GetNumberOfVariables() == m, "number of variables is kept");
  int count = sx_choose("before", 0, 1);
  if (count) {
    int l = -7;
    sx_assert(CONEX_NewLorentzConeConstraint(p, 1, &l) == OK && l == 0, "creation succeeds exactly for valid arguments");
  }
  {
    int id = -7, kind = sx_choose("kind", 0, 3);
    int null = sx_choose("null", 0, 2);
    int order = 1, dim = 1;
    bool good = !null;
    if (kind < 3 && !null) {
      order = sx_choose("badorder", 0, 1) ? sx_int("order", INT_MIN, 0) : Pick("order", 1, kind ? 2 : 4);
      if (order < 1) good = false;
    }
    if (kind == 0 && good) {
      dim = sx_choose("baddim", 0, 1) ? sx_int("dim", INT_MIN, INT_MAX) : 1 << Pick("dim", 0, 3);
      if (dim != 1 && dim != 2 && dim != 4 && dim != 8) good = false;
      if (dim == 8 && order > 3) good = false;
    }
    void* q = null == 1 ? nullptr : p;
    int* out = null == 2 ? nullptr : &id;
    int status = kind == 0 ? CONEX_NewLinearMatrixInequality(q, order, dim, out) : kind == 1 ? CONEX_NewLorentzConeConstraint(q, order, out) : kind == 2 ? CONEX_NewLinearInequality(q, order, out) : CONEX_NewQuadraticCost(q, out);
    sx_assert(status == (good ? OK : FAIL), "creation succeeds exactly for valid arguments");
    if (good) {
      sx_assert(id == count, "identifiers count up");
      auto& con = At(p, count);
      sx_assert(Rank(con.constraint) == (kind == 0 ? order : kind == 1 ? 2 : kind == 2 ? order : 0), "constraint has the requested size");
      auto& clique = static_cast<Program*>(p)->kkt_system_manager_.cliques.at(count);
      sx_assert((int)clique.size() == m, "constraint covers every variable");
      for (int i = 0; i < m; i++) sx_assert(clique[i] == i, "constraint covers every variable");
      count++;
    } else
      sx_assert(id == -7, "a rejected constraint leaves its identifier alone");
    sx_assert(static_cast<Program*>(p)->NumberOfConstraints() == count, "a rejected constraint is not added");
    sx_assert((int)static_cast<Program*>(p)->constraints_.size() == count, "a rejected constraint is not added");
  }
  CONEX_DeleteConeProgram(p);
  sx_witness("end");
}
#endif

#if TASK == 7  // dense constraints given at once
extern "C" void sx_main() {
  int m = sx_choose("m", 1, 2), n = sx_choose("n", 1, 2), kind = sx_choose("kind", 0, 3);
  void* p = CONEX_CreateConeProgram();
  Program* prog = static_cast<Program*>(p);
  int N = kind == 2 ? 3 : m;
  sx_assert(CONEX_SetNumberOfVariables(p, N) == OK, "number of variables is accepted");
  int before = sx_choose("before", 0, 1);
  if (before) {
    int l;
    sx_assert(CONEX_NewLinearInequality(p, 1, &l) == OK, "inequality is created");
  }
  int id = before;
  vector<int> vars;
  for (int i = 0; i < m; i++) vars.push_back(i);
  System b(m);
  if (kind == 0) {
    MatrixXd A = SymMatIn("A", n, m, -4, 4), c = SymMatIn("c", n, 1, -4, 4);
    sx_assert(CONEX_AddDenseLinearConstraint(p, A.data(), n, m, c.data(), n) == id, "identifiers count up");
    LinearConstraint ref(A, c);
    VectorXd mem(SizeOf(*ref.workspace()) + 1);
    Initialize(ref.workspace(), mem.data());
    SetIdentity(&ref);
    ConstructSchurComplementSystem(&ref, true, &b.sys);
  } else if (kind == 3) {
    MatrixXd A = SymMatIn("A", n, m, -4, 4), lb(n, 1), ub(n, 1);
    int eq = sx_choose("eq", 0, 1);
    for (int i = 0; i < n; i++) lb(i) = -1 - i, ub(i) = i == 0 && eq ? lb(i) : 2 + i;
    CONEX_AddLinearInequalities(p, A.data(), n, m, lb.data(), n, ub.data(), n);
    MatrixXd Ai, bi, Ae, be;
    PreprocessLinearInequality(A, lb, ub, &Ai, &bi, &Ae, &be);
    int k = id;
    if (Ai.rows()) {
      sx_assert(prog->NumberOfConstraints() > k, "inequality rows are added");
      sx_assert(Rank(At(p, k).constraint) == Ai.rows(), "one inequality per bounded side");
      k++;
    }
    if (Ae.rows()) {
      sx_assert(prog->NumberOfConstraints() > k, "equality rows are added");
      EqualityConstraints* e = std::any_cast<EqualityConstraints>(&At(p, k).obj);
      sx_assert(e && e->SizeOfDualVariable() == Ae.rows(), "one multiplier per equality");
      sx_assert(prog->kkt_system_manager_.SizeOfKKTSystem() == m + Ae.rows(), "one multiplier per equality");
      for (int i = 0; i < Ae.rows(); i++) {
        for (int j = 0; j < m; j++) sx_assert_eq(e->A_(i, j), Ae(i, j), "equality rows are added");
        sx_assert_eq(e->b_(i), be(i), "equality rows are added");
      }
      k++;
    }
    sx_assert(prog->NumberOfConstraints() == k, "nothing else is added");
    CONEX_DeleteConeProgram(p);
    sx_witness("bounds");
    return;
  } else {
    vector<MatrixXd> A;
    VectorXd data(m * n * n);
    for (int k = 0; k < m; k++) {
      MatrixXd a(n, n);
      for (int j = 0; j < n; j++)
        for (int i = j; i < n; i++) a(i, j) = a(j, i) = sx_real_in("A", -4, 4);
      A.push_back(a);
      for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++) data(k * n * n + j * n + i) = a(i, j);
    }
    MatrixXd C(n, n);
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++) C(i, j) = C(j, i) = sx_real_in("C", -4, 4);
    if (kind == 1)
      sx_assert(CONEX_AddDenseLMIConstraint(p, data.data(), n, n, m, C.data(), n, n) == id, "identifiers count up");
    else {
      long lv[2];
      for (int i = 0; i < m; i++) {
        vars[i] = Pick("var", 0, N - 1);
        lv[i] = vars[i];
      }
      if (m > 1) sx_assume(vars[0] != vars[1]);
      sx_assert(CONEX_AddSparseLMIConstraint(p, data.data(), n, n, m, C.data(), n, n, lv, m) == id, "identifiers count up");
    }
    DenseLMIConstraint ref(n, A, C);
    VectorXd mem(SizeOf(*ref.workspace()) + 1);
    Initialize(ref.workspace(), mem.data());
    SetIdentity(&ref);
    ConstructSchurComplementSystem(&ref, true, &b.sys);
  }
  auto& con = At(p, id);
  auto& clique = prog->kkt_system_manager_.cliques.at(id);
  sx_assert((int)clique.size() == m, "constraint is on the given variables");
  for (int i = 0; i < m; i++) sx_assert(clique[i] == vars[i], "constraint is on the given variables");
  VectorXd mem(SizeOf(con.constraint.workspace()) + 1);
  Workspace w = con.constraint.workspace();
  Initialize(&w, mem.data());
  SetIdentity(&con.constraint);
  System a(m);
  ConstructSchurComplementSystem(&con.constraint, true, &a.sys);
  Same(a.sys, b.sys, m);
  CONEX_DeleteConeProgram(p);
  sx_witness("end");
}
#endif
