// Second-order (Lorentz) cones and quadratic-form cones: Newton system, step, metrics.
#include "cone_check.h"
#include "conex/soc_constraint.h"
#include "conex/quadratic_cone_constraint.h"
using namespace conex;
#define MAG (TASK == 4 ? 0.25 : 4)  // keeps exponentials in a range where replays are accurate
// TYPE 0: second-order cone; 1: quadratic cone, identity form; 2: quadratic cone, general
// form; 3: epigraph of a quadratic form
#ifndef TYPE
#define TYPE 0
#endif
#ifndef TASK
#define TASK 1
#endif
#ifndef NMIN
#define NMIN 1
#endif
#ifndef NMAX
#define NMAX 2
#endif
#ifndef MMAX
#define MMAX 2
#endif
#ifndef MMIN
#define MMIN 1
#endif
#ifndef WVAL
#define WVAL 0
#endif
#ifndef SLACK
#define SLACK 0
#endif
static MatrixXd Q;  // inner product on the vector part
static double Dot1(const VectorXd& x, const VectorXd& y) {
  double s = 0;
  for (int i = 1; i < x.rows(); i++)
    for (int j = 1; j < x.rows(); j++) s += x(i) * Q(i - 1, j - 1) * y(j);
  return s;
}
static double Inner(const VectorXd& x, const VectorXd& y) { return x(0) * y(0) + Dot1(x, y); }
static double Det(const VectorXd& x) { return x(0) * x(0) - Dot1(x, x); }
// quadratic representation: 2 x <x,y> - det(x) R y
static VectorXd Quad(const VectorXd& x, const VectorXd& y) {
  VectorXd z = x * (2 * Inner(x, y));
  double d = Det(x);
  z(0) -= d * y(0);
  for (int i = 1; i < z.rows(); i++) z(i) += d * y(i);
  return z;
}
extern "C" void sx_main() {
  int n = sx_choose("n", NMIN, NMAX), m = sx_choose("m", MMIN, MMAX);
#if TYPE == 3
  m = n;  // n = order of the form + 1
  int nq = n - 1;
  MatrixXd Qi(nq, nq);
  for (int i = 0; i < nq; i++)
    for (int j = i; j < nq; j++) Qi(i, j) = Qi(j, i) = WVAL ? 4 : i == j ? sx_real_in("q", 1, 4) : sx_real_in("qo", -0.5, 0.5);
  Q = MatrixXd::Zero(n, n);
  Q(0, 0) = 1;
  for (int i = 0; i < nq; i++)
    for (int j = 0; j < nq; j++) Q(i + 1, j + 1) = Qi(i, j);
  // t >= x'Qi x / 2  <=>  (1 + t/2, -1 + t/2, -x) in the cone
  MatrixXd A = MatrixXd::Zero(n + 1, m), c = MatrixXd::Zero(n + 1, 1);
  A(0, m - 1) = A(1, m - 1) = -0.5;
  for (int i = 0; i < nq; i++) A(2 + i, i) = 1;
  c(0) = 1;
  c(1) = -1;
  QuadraticEpigraph S(Qi);
#else
  MatrixXd A = SLACK ? MatrixXd(MatrixXd::Zero(n + 1, m)) : SymMatIn("A", n + 1, m, -MAG, MAG), c = SymMatIn("c", n + 1, 1, -MAG, MAG);
  Q = MatrixXd::Identity(n, n);
#if TYPE == 2 && WVAL != 0
  Q = n == 1 ? MatrixXd(MatrixXd::Constant(1, 1, 4)) : MatrixXd(2, 2);
  if (n == 2) Q << 4, 2, 2, 2;
#elif TYPE == 2
  for (int i = 0; i < n; i++)
    for (int j = i; j < n; j++) Q(i, j) = Q(j, i) = i == j ? sx_real_in("q", 1, 4) : sx_real_in("qo", -0.5, 0.5);
#endif
#if TYPE == 0
  SOCConstraint S(A, c);
#elif TYPE == 1
  QuadraticConstraint S(A, c);
#else
  QuadraticConstraint S(Q, A, c);
#endif
#endif
  VectorXd mem;
  BindWorkspace(&S, &mem);
  sx_assert(Rank(S) == 2, "rank is two");
  sx_assert(S.number_of_variables() == m, "number of variables is the number of columns");
  SetIdentity(&S);
  sx_assert_eq(*S.workspace()->W0, 1, "identity");
  for (int i = 0; i < n; i++) sx_assert_eq(S.workspace()->W1(i), 0, "identity");
  VectorXd w(n + 1);
#if WVAL == 0  // any interior point
  for (int i = 0; i <= n; i++) w(i) = sx_real_in("w", -8, 8);
  sx_assume(w(0) > 0);
  sx_assume(Det(w) > 0);
#elif WVAL == 1  // |w1| rational: w = t (1 + delta, unit vector)
  {
    double t = sx_real_in("t", 0.125, 8), dl = sx_real_in("delta", 0.125, 8);
    t = sx_choose("zero", 0, 1) ? 0 : t;
    // unit vectors of the cone's inner product
    if (n == 1)
      w(1) = (sx_choose("sgn", 0, 1) ? t : -t) * (TYPE == 2 ? 0.5 : 1);
    else {
      w(1) = (TYPE == 2 ? 0.7 : 0.6) * t;
      w(2) = (TYPE == 3 ? -0.4 : -0.8) * t;
    }
    w(0) = t + dl;
  }
#elif WVAL == 2
  w.setZero();
  w(0) = sx_real_in("w0", 0.125, 8);
#else
  w(0) = 5;
  w(1) = TYPE == 2 ? 2 : 4;
  for (int i = 2; i <= n; i++) w(i) = 0;
#endif
  *S.workspace()->W0 = w(0);
  for (int i = 0; i < n; i++) S.workspace()->W1(i) = w(i + 1);
#if TASK == 1
  Expected e{MatrixXd::Zero(m, m), VectorXd::Zero(m), VectorXd::Zero(m), 0, 0};
  VectorXd cv = c.col(0);
  VectorXd qc = Quad(w, cv);
  for (int i = 0; i < m; i++) {
    VectorXd a = A.col(i);
    for (int j = 0; j < m; j++) e.G(i, j) = 2 * Inner(a, Quad(w, A.col(j)));
    e.AW(i) = 2 * Inner(a, w);
    e.AQc(i) = 2 * Inner(a, qc);
  }
  e.wc = 2 * Inner(w, cv);
  e.cqc = 2 * Inner(cv, qc);
  CheckSchur(&S, e);
#else
  double cw = SLACK ? -1 : sx_real_in("cweight", -4, 4);
  VectorXd y = SLACK ? MatrixXd(MatrixXd::Zero(m, 1)) : SymMatIn("y", m, 1, -MAG, MAG);
  Ref yr(y.data(), m, 1);
  VectorXd ms(n + 1);
  for (int i = 0; i <= n; i++) {
    ms(i) = -c(i) * cw;
    for (int j = 0; j < m; j++) ms(i) += A(i, j) * y(j);
  }
  // -s weighted by w has trace 2<w,-s> and determinant det(w) det(s)
  double tr = 2 * Inner(w, ms), dt = Det(w) * Det(ms);
#endif
#if TASK == 2
  StepOptions opt;
  opt.affine = false;
  opt.c_weight = cw;
  opt.e_weight = 1;
  opt.step_size = 1;
  StepInfo info;
  PrepareStep(&S, opt, yr, &info);
  double p = tr + 2, q = 1 + tr + dt;  // trace and determinant of d = e + Q(w^1/2)(-s)
  double r = 2 * info.norminfd - std::fabs(p);
  sx_assert_eq(info.normsqrd, p * p - 2 * q, "squared norm of the step is the sum of its squared eigenvalues");
  sx_assert_eq(r * r, p * p - 4 * q, "infinity norm of the step is its largest absolute eigenvalue");
  sx_assert_le(0, r, "infinity norm of the step is not below half its absolute trace");
#endif
#if TASK == 3
  WeightedSlackEigenvalues p;
  GetWeightedSlackEigenvalues(&S, yr, cw, &p);
  sx_assert_eq(p.lambda_max + p.lambda_min, -tr, "weighted slack eigenvalues sum to the trace");
  sx_assert_eq(p.lambda_max * p.lambda_min, dt, "weighted slack eigenvalues multiply to the determinant");
  sx_assert_le(p.lambda_min, p.lambda_max, "weighted slack eigenvalues are ordered");
  sx_assert_eq(p.trace, -tr, "trace of weighted slack");
  sx_assert_eq(p.frobenius_norm_squared, tr * tr - 2 * dt, "squared norm of weighted slack");
  sx_assert_eq(*S.workspace()->W0, w(0), "metrics do not move the scaling");
  for (int i = 0; i < n; i++) sx_assert_eq(S.workspace()->W1(i), w(i + 1), "metrics do not move the scaling");
#endif
#if TASK == 4
  StepOptions opt;
  opt.affine = false;
  opt.c_weight = cw;
  opt.e_weight = 1;
  opt.step_size = sx_choose("damped", 0, 1) ? sx_real_in("step", 0.01, 0.99) : 1;
  StepInfo info;
  PrepareStep(&S, opt, yr, &info);
  // reference: w^{1/2}, d, exp(step d), Q(w^{1/2}) exp(step d)
  VectorXd h(n + 1), d, ed(n + 1);
  double t = std::sqrt(Dot1(w, w)), s1 = std::sqrt(w(0) + t), s2 = std::sqrt(w(0) - t);
  h(0) = (s1 + s2) / 2;
  for (int i = 1; i <= n; i++) h(i) = t > 0 ? w(i) * (s1 - s2) / (2 * t) : 0;
  d = Quad(h, ms);
  d(0) += 1;
  d *= opt.step_size;
  double k = std::sqrt(Dot1(d, d));
  bool kpos = k > 0;
  double e1 = std::exp(d(0) + k), e2 = std::exp(d(0) - k);
  ed(0) = (e1 + e2) / 2;
  for (int i = 1; i <= n; i++) ed(i) = kpos ? d(i) * (e1 - e2) / (2 * k) : 0;
  VectorXd wn = Quad(h, ed);
  sx_assert(TakeStep(&S, opt), "step reports success");
  VectorXd wg(n + 1);
  wg(0) = *S.workspace()->W0;
  for (int i = 0; i < n; i++) wg(i + 1) = S.workspace()->W1(i);
  for (int i = 0; i <= n; i++) {
    sx_assert_eq(wg(i), wn(i), "scaling moves along the geodesic Q(w^1/2) exp(step * d)");
    sx_observe("w", wg(i));
  }
  sx_assert_eq(Det(wg), Det(w) * e1 * e2, "determinant of the new scaling (positive: it stays in the interior)");
#endif
  sx_witness("end");
}
