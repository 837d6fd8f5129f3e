// Linear inequalities A y <= c: Newton system, step, metrics, line search.
#include "cone_check.h"
#include "conex/linear_constraint.h"
using namespace conex;
#ifndef TASK
#define TASK 1
#endif
#ifndef NMAX
#define NMAX 2
#endif
#ifndef MMAX
#define MMAX 2
#endif
// 0: LinearConstraint, 1: LowerBound, 2: UpperBound
#ifndef KIND
#define KIND 0
#endif
#ifndef MMIN
#define MMIN 1
#endif
#ifndef NMIN
#define NMIN 1
#endif
extern "C" void sx_main() {
#if KIND == 0
  int n = sx_choose("n", NMIN, NMAX), m = sx_choose("m", MMIN, MMAX);
#ifdef SIMPLE  // rows are free: A = I, c = 0, w = 1
  m = n;
  MatrixXd A = MatrixXd::Identity(n, n), c = MatrixXd::Zero(n, 1);
#else
  MatrixXd A = SymMatIn("A", n, m, -8, 8), c = SymMatIn("c", n, 1, -8, 8);
#endif
  LinearConstraint L(n, A, c);
#else
  int n = sx_choose("n", NMIN, NMAX), m = n;
  VectorXd bnd = SymMatIn("c", n, 1, -8, 8);
  MatrixXd A = MatrixXd::Identity(n, n) * (KIND == 1 ? -1 : 1), c = bnd * (KIND == 1 ? -1 : 1);
#if KIND == 1
  LowerBound L(bnd);
#else
  UpperBound L(bnd);
#endif
#endif
  VectorXd mem;
  BindWorkspace(&L, &mem);
  sx_assert(Rank(L) == n, "rank is the number of rows");
  sx_assert(L.number_of_variables() == m, "number of variables is the number of columns");
  SetIdentity(&L);
  for (int i = 0; i < n; i++) sx_assert_eq(L.workspace()->W(i), 1, "identity");
  #ifdef SIMPLE
  MatrixXd w = MatrixXd::Ones(n, 1);
#else
  MatrixXd w = SymMatIn("w", n, 1, 0.125, 8);
#endif
  L.workspace()->W = w;
#if TASK == 1
  Expected e{MatrixXd::Zero(m, m), VectorXd::Zero(m), VectorXd::Zero(m), 0, 0};
  for (int k = 0; k < n; k++) {
    for (int i = 0; i < m; i++) {
      for (int j = 0; j < m; j++) e.G(i, j) += A(k, i) * w(k) * w(k) * A(k, j);
      e.AW(i) += A(k, i) * w(k);
      e.AQc(i) += A(k, i) * w(k) * w(k) * c(k);
    }
    e.wc += w(k) * c(k);
    e.cqc += c(k) * w(k) * w(k) * c(k);
  }
  CheckSchur(static_cast<LinearConstraint*>(&L), e);
#else
  VectorXd y = SymMatIn("y", m, 1, -8, 8);
  Ref yr(y.data(), m, 1);
  double cw = sx_real_in("cweight", -8, 8);
  VectorXd ms(n);  // A y - k c
  for (int i = 0; i < n; i++) {
    ms(i) = -c(i) * cw;
    for (int j = 0; j < m; j++) ms(i) += A(i, j) * y(j);
  }
#endif
#if TASK == 2  // step direction, its norms, and the geodesic step
  StepOptions opt;
  opt.affine = false;
  opt.c_weight = cw;
  opt.e_weight = sx_real_in("eweight", -2, 2);
  opt.step_size = sx_choose("damped", 0, 1) ? sx_real_in("step", 0, 0.99) : 1;
  StepInfo info;
  PrepareStep(&L, opt, yr, &info);
  double n2 = 0;
  bool attained = false;
  VectorXd d(n);
  for (int i = 0; i < n; i++) {
    d(i) = opt.e_weight + w(i) * ms(i);
    n2 += d(i) * d(i);
    sx_assert_le(std::fabs(d(i)), info.norminfd, "infinity norm bounds every entry of the step");
    if (std::fabs(d(i)) == info.norminfd || (!sx_symbolic() && std::fabs(std::fabs(d(i)) - info.norminfd) < 1e-9 * (1 + info.norminfd))) attained = true;
    sx_assert_eq(L.workspace()->W(i), w(i), "preparing a step does not move the scaling");
  }
  sx_assert(attained, "infinity norm of the step is attained");
  sx_assert_eq(info.normsqrd, n2, "squared norm of the step");
  sx_assert(TakeStep(&L, opt), "step reports success");
  for (int i = 0; i < n; i++) {
    double W = L.workspace()->W(i);
    sx_assert_eq(W, w(i) * std::exp(opt.step_size * d(i)), "scaling moves along the geodesic w * exp(step * d)");
    sx_assert_lt(0, W, "scaling stays in the interior of the cone");
  }
#endif
#if TASK == 3  // slack metrics
  WeightedSlackEigenvalues p;
  GetWeightedSlackEigenvalues(&L, yr, cw, &p);
  double tr = 0, f = 0;
  bool amax = false, amin = false;
  for (int i = 0; i < n; i++) {
    double s = -w(i) * ms(i);
    sx_assert_le(s, p.lambda_max, "largest weighted slack bounds all");
    sx_assert_le(p.lambda_min, s, "smallest weighted slack bounds all");
    double tol = sx_symbolic() ? 0 : 1e-9 * (1 + std::fabs(s));
    if (std::fabs(s - p.lambda_max) <= tol) amax = true;
    if (std::fabs(s - p.lambda_min) <= tol) amin = true;
    tr += s;
    f += s * s;
    sx_assert_eq(L.workspace()->W(i), w(i), "metrics do not move the scaling");
  }
  sx_assert(amax && amin, "extreme weighted slacks are attained");
  sx_assert_eq(p.trace, tr, "trace of weighted slack");
  sx_assert_eq(p.frobenius_norm_squared, f, "squared norm of weighted slack");
#endif
#if TASK == 4  // affine (dual recovery) step
  StepOptions opt;
  opt.affine = true;
  opt.c_weight = 0;
  opt.e_weight = 0;
  StepInfo info;
  PrepareStep(&L, opt, yr, &info);
  for (int i = 0; i < n; i++) {
    double ay = 0;
    for (int j = 0; j < m; j++) ay += A(i, j) * y(j);
    sx_assert_eq(L.workspace()->W(i), w(i) + w(i) * ay * w(i), "affine step is w + Q(w) A y");
  }
#endif
#if TASK == 5  // line search
  VectorXd y1 = SymMatIn("y1", m, 1, -8, 8);
  Ref y1r(y1.data(), m, 1);
  LineSearchParameters par;
  par.c0_weight = cw;
  par.c1_weight = sx_real_in("c1weight", -8, 8);
  par.dinf_upper_bound = sx_real_in("dinf", 0.01, 1);
  LineSearchOutput out;
  VectorXd d0(n), del(n);
  for (int i = 0; i < n; i++) {
    d0(i) = 1 + w(i) * ms(i);
    double s = -c(i) * par.c1_weight;
    for (int j = 0; j < m; j++) s += A(i, j) * y1(j);
    del(i) = 1 + w(i) * s - d0(i);
    sx_assume(std::fabs(del(i)) > 1e-3);
  }
  bool fail = PerformLineSearch(static_cast<LinearConstraint*>(&L), par, yr, y1r, &out);
  // admissible set {t : |d0 + t (d1 - d0)| <= dinf} = intersection of one interval per row
  bool lo_hit = false, up_hit = false;
  for (int i = 0; i < n; i++) {
    double lo = ((del(i) > 0 ? -1 : 1) * par.dinf_upper_bound - d0(i)) / del(i);
    double up = ((del(i) > 0 ? 1 : -1) * par.dinf_upper_bound - d0(i)) / del(i);
    sx_assert_le(lo, out.lower_bound, "reported interval lies inside every row's admissible interval");
    sx_assert_le(out.upper_bound, up, "reported interval lies inside every row's admissible interval");
    double tol = sx_symbolic() ? 0 : 1e-9;
    if (std::fabs(lo - out.lower_bound) <= tol * (1 + std::fabs(lo))) lo_hit = true;
    if (std::fabs(up - out.upper_bound) <= tol * (1 + std::fabs(up))) up_hit = true;
  }
  sx_assert(lo_hit && up_hit, "reported interval is the largest admissible one");
  sx_assert(fail == (out.lower_bound > out.upper_bound), "failure is reported exactly for an empty interval");
#endif
  sx_witness("end");
}
