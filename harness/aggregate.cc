// P20: a program's Newton system, step information and slack metrics combine those of its constraints.
#include "cone_check.h"
#include "conex/cone_program.h"
#include "conex/equality_constraint.h"
#include "conex/linear_constraint.h"
#include "conex/soc_constraint.h"
namespace conex {
void GetWeightedSlackEigenvalues(ConstraintManager<Container>* constraints, const Ref& y, double c_weight, WeightedSlackEigenvalues* p);
}
using namespace conex;
using std::vector;
#ifndef TASK
#define TASK 1
#endif
#ifndef NVARS
#define NVARS 2
#endif
#ifndef CMAX
#define CMAX (TASK == 3 ? 1e6 : 4.0)
#endif
#ifndef LAST  // linear constraints after the equality and the quadratic cost
#define LAST 0
#endif
#ifndef NLIN
#define NLIN 1
#endif
static vector<int> Subset(int m, int minsize) {
  vector<int> v;
  for (int i = 0; i < m; i++)
    if (sx_int("member", 0, 1)) v.push_back(i);
  sx_assume((int)v.size() >= minsize);
  if (v.size() > 1 && sx_int("reverse", 0, 1)) std::reverse(v.begin(), v.end());
  return v;
}
extern "C" void sx_main() {
  const int m = NVARS;
  Program prog(m);
  vector<vector<int>> lv;
  vector<MatrixXd> A, c;
  int rows = sx_choose("rows", 1, 2);
  auto linear = [&]() {
    for (int k = 0; k < NLIN; k++) {
      lv.push_back(Subset(m, 1));
      A.push_back(SymMatIn("A", rows, lv[k].size(), -4, 4));
      c.push_back(SymMatIn("c", rows, 1, -CMAX, CMAX));
      sx_assert(prog.AddConstraint(LinearConstraint(A[k], c[k]), lv[k]) == CONEX_SUCCESS, "constraint is accepted");
    }
  };
  if (!LAST) linear();
  int eq = sx_choose("equality", 0, 1), quad = sx_choose("quadratic", 0, 1), ne = 0;
  vector<int> ev, qv;
  MatrixXd E, e, Q;
  if (eq) {
    ev = Subset(m, 1);
    ne = 1;
    E = SymMatIn("E", ne, ev.size(), -4, 4);
    e = SymMatIn("e", ne, 1, -4, 4);
    sx_assert(prog.AddConstraint(EqualityConstraints(E, e), ev) == CONEX_SUCCESS, "equality is accepted");
  }
  if (quad) {
    qv = Subset(m, 1);
    Q = SymSymmetric("Q", qv.size());
    sx_assert(prog.AddQuadraticCost(Q, qv) == CONEX_SUCCESS, "quadratic cost is accepted");
  }
  if (LAST) sx_assume(eq | quad), linear();
  vector<int> seen(m);
  for (auto& v : lv)
    for (int i : v) seen[i] = 1;
  for (int i : ev) seen[i] = 1;
  for (int i : qv) seen[i] = 1;
  for (int i = 0; i < m; i++) sx_assume(seen[i]);
  SolverConfiguration config;
  sx_assert(Initialize(prog, config), "initialised");
  int N = m + ne;
  sx_assert(prog.kkt_system_manager_.SizeOfKKTSystem() == N, "one unknown per variable and per equality");
  vector<VectorXd> w;
  {
    int k = 0;
    for (auto& ci : prog.kkt_system_manager_.eqs) {
      LinearConstraint* L = std::any_cast<LinearConstraint>(&ci.obj);
      if (!L) continue;
      sx_assert(k < NLIN && L->number_of_variables() == (int)lv[k].size(), "constraints keep their order");
      for (int i = 0; i < rows; i++) sx_assert_eq(L->workspace()->W(i), 1, "a cold start begins at the identity");
      w.push_back(SymMatIn("w", rows, 1, 0.125, 4));
      L->workspace()->W = w[k];
      k++;
    }
  }
#if TASK == 1
  MatrixXd G = MatrixXd::Zero(N, N);
  VectorXd AW = VectorXd::Zero(N), AQc = VectorXd::Zero(N);
  double wc = 0, cqc = 0;
  for (int k = 0; k < NLIN; k++)
    for (int r = 0; r < rows; r++) {
      double W = w[k](r);
      for (size_t i = 0; i < lv[k].size(); i++) {
        for (size_t j = 0; j < lv[k].size(); j++) G(lv[k][i], lv[k][j]) += A[k](r, i) * A[k](r, j) * W * W;
        AW(lv[k][i]) += A[k](r, i) * W;
        AQc(lv[k][i]) += A[k](r, i) * c[k](r) * W * W;
      }
      wc += W * c[k](r);
      cqc += W * W * c[k](r) * c[k](r);
    }
  for (size_t i = 0; i < ev.size(); i++) {
    G(m, ev[i]) += E(0, i);
    G(ev[i], m) += E(0, i);
  }
  if (eq) AQc(m) += e(0);
  for (size_t i = 0; i < qv.size(); i++)
    for (size_t j = 0; j < qv.size(); j++) G(qv[i], qv[j]) += Q(i, j);
  int twice = sx_choose("twice", 0, 1);
  for (int r = 0; r <= twice; r++) {
    prog.solver->Assemble();
    AssembleSchurComplementResiduals(&prog.kkt_system_manager_, &prog.sys);
  }
  MatrixXd K = prog.solver->KKTMatrix();
  for (int i = 0; i < N; i++) {
    for (int j = 0; j < N; j++) sx_assert_eq(K(i, j), G(i, j), "system matrix is the sum over constraints, equalities and quadratic costs");
    sx_assert_eq(prog.sys.AW(i, 0), AW(i), "A'w is summed over the constraints");
    sx_assert_eq(prog.sys.AQc(i, 0), AQc(i), "A'Q(w)c is summed over the constraints, equality right-hand sides included");
  }
  sx_assert_eq(prog.sys.inner_product_of_w_and_c, wc, "<w,c> is summed over the constraints");
  sx_assert_eq(prog.sys.inner_product_of_c_and_Qc, cqc, "<c,Q(w)c> is summed over the constraints");
#else
  VectorXd y = SymMatIn("y", N, 1, -4, 4);
  Ref yr(y.data(), N, 1);
  double cw = sx_real_in("cw", 0.25, 4);
  vector<double> d;
  double sq = 0, tr = 0, fr = 0;
  vector<double> s;
  for (int k = 0; k < NLIN; k++)
    for (int r = 0; r < rows; r++) {
      double v = -cw * c[k](r);
      for (size_t i = 0; i < lv[k].size(); i++) v += A[k](r, i) * y(lv[k][i]);
      v *= w[k](r);
      d.push_back(1 + v);
      s.push_back(-v);
      sq += (1 + v) * (1 + v);
      tr += -v;
      fr += v * v;
    }
  double tol = sx_symbolic() ? 0 : 1e-9;
#if TASK == 2
  StepOptions opt;
  opt.affine = false;
  opt.e_weight = 1;
  opt.c_weight = cw;
  StepInfo info;
  info.normsqrd = 5;
  info.norminfd = 1e9;  // whatever an earlier call left behind
  PrepareStep(&prog.kkt_system_manager_, opt, yr, &info);
  sx_assert_eq(info.normsqrd, sq, "squared norms of the steps add up");
  bool hit = false;
  for (double x : d) {
    sx_assert_le(std::fabs(x), info.norminfd, "largest step entry bounds every constraint");
    if (std::fabs(std::fabs(x) - info.norminfd) <= tol * (1 + std::fabs(x))) hit = true;
  }
  sx_assert(hit, "largest step entry is attained");
  if (eq) {
    int k = 0;
    for (auto& ci : prog.kkt_system_manager_.eqs)
      if (auto* e1 = std::any_cast<EqualityConstraints>(&ci.obj)) sx_assert_eq(e1->lambda_(0), y(m), "equality multipliers are recorded"), k++;
    sx_assert(k == 1, "the equality is kept");
  }
#endif
#if TASK == 3
  WeightedSlackEigenvalues p;
  GetWeightedSlackEigenvalues(&prog.kkt_system_manager_, yr, cw, &p);
  sx_assert_eq(p.trace, tr, "traces add up");
  sx_assert_eq(p.frobenius_norm_squared, fr, "squared norms of the weighted slacks add up");
  bool lo = false, hi = false;
  for (double x : s) {
    sx_assert_le(x, p.lambda_max, "largest weighted slack bounds every constraint");
    sx_assert_le(p.lambda_min, x, "smallest weighted slack bounds every constraint");
    if (std::fabs(x - p.lambda_max) <= tol * (1 + std::fabs(x))) hi = true;
    if (std::fabs(x - p.lambda_min) <= tol * (1 + std::fabs(x))) lo = true;
  }
  sx_assert(lo && hi, "extreme weighted slacks are attained");
#endif
  int rank = 0;
  for (auto* ci : prog.constraints_) rank += Rank(*ci);
  sx_assert(rank == NLIN * rows, "equalities and quadratic costs have rank zero");
#endif
  sx_witness("end");
}
