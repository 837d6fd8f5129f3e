// P09/P10: matrix cones (real LMI, Hermitian over R, C, H, O).
#include "cone_check.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/hermitian_psd.h"
using namespace conex;
using std::vector;
// 0: DenseLMIConstraint; 1, 2, 4, 8: HermitianPsdConstraint over that algebra
#ifndef DIM
#define DIM 0
#endif
#ifndef TASK
#define TASK 1
#endif
#ifndef NMIN
#define NMIN 1
#endif
#ifndef NMAX
#define NMAX 2
#endif
#ifndef MMAX
#define MMAX 2
#endif
// SYMW 1: the scaling is fully symbolic; 2: one symbolic parameter; 0: fixed positive definite numbers
#ifndef SYMW
#define SYMW 1
#endif
// SYMS 2: symbolic matrices; 1: one symbolic parameter per matrix; 0: numbers
#ifndef SYMS
#define SYMS 2
#endif
constexpr int D = DIM ? DIM : 1;
using T = MatrixAlgebra<D>;
using H = HyperComplexMatrix;
static H Zero(int n) {
  H z(D);
  for (int k = 0; k < D; k++) z.at(k) = MatrixXd::Zero(n, n);
  return z;
}
// The harness's own product (the repository's convention is i*j = -k); octonion
// products use the library, whose algebra laws are a property of their own.
static H Mul(const H& a, const H& b) {
#if DIM == 8
  return T::Multiply(a, b);
#else
  H z = Zero(a.at(0).rows());
  static const int idx[4][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}};
  static const int sg[4][4] = {{1, 1, 1, 1}, {1, -1, -1, 1}, {1, 1, -1, -1}, {1, -1, 1, -1}};
  int n = a.at(0).rows();
  for (int p = 0; p < D; p++)
    for (int q = 0; q < D; q++)
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          for (int k = 0; k < n; k++) z.at(idx[p][q])(i, j) += sg[p][q] * a.at(p)(i, k) * b.at(q)(k, j);
  return z;
#endif
}
static H Lin(const H& a, double s, const H& b, double t) {
  H z(D);
  for (int k = 0; k < D; k++) z.at(k) = s * a.at(k) + t * b.at(k);
  return z;
}
static double Dot(const H& a, const H& b) {
  double s = 0;
  int n = a.at(0).rows();
  for (int k = 0; k < D; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) s += a.at(k)(i, j) * b.at(k)(i, j);
  return s;
}
static H Eye(int n) {
  H z = Zero(n);
  for (int i = 0; i < n; i++) z.at(0)(i, i) = 1;
  return z;
}
// Q(w) x
static H Quad(const H& w, const H& x) {
#if DIM == 8
  return T::QuadraticRepresentation(w, x);
#else
  return Mul(w, Mul(x, w));
#endif
}
static int count = 0;
static H Sym(const char* nm, int n, double r, int symbolic) {
  H z = Zero(n);
  double t = symbolic == 1 ? sx_real_in(nm, -r, r) : 0;
  for (int k = 0; k < D; k++)
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++) {
        if (k && i == j) continue;
        double v;
        if (symbolic == 2)
          v = sx_real_in(nm, -r, r);
        else {
          count = (count * 5 + 3) % 16;
          v = (count - 7.5) / 8 * (symbolic ? t : r);
          if (symbolic == 1 && count % 3 == 0) v += r / 8;
        }
        z.at(k)(i, j) = v;
        if (i != j) z.at(k)(j, i) = k ? -v : v;
      }
  return z;
}
static H Basis(int n, int which) {  // unit Hermitian matrices
  H z = Zero(n);
  int c = 0;
  for (int k = 0; k < D; k++)
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++) {
        if (k && i == j) continue;
        if (c++ == which) {
          z.at(k)(i, j) = 1;
          if (i != j) z.at(k)(j, i) = k ? -1 : 1;
        }
      }
  return z;
}
static int Dimension(int n) { return n + D * n * (n - 1) / 2; }
#if DIM == 0
using Con = DenseLMIConstraint;
#else
using Con = HermitianPsdConstraint<T>;
#endif
static Con* Make(int n, const vector<H>& A, const H& C) {
#if DIM == 0
  vector<MatrixXd> a;
  for (auto& x : A) a.push_back(x.at(0));
  return new Con(n, a, C.at(0));
#else
  return new Con(n, A, C);
#endif
}
static Ref Vec(VectorXd& v) { return Ref(v.data(), v.rows(), 1); }
// Puts the scaling at B (at the harness's disposal: the last constraint matrix is B).
static void SetScaling(Con* c, int n, int m, const H& B, H* W) {
#if DIM == 0
  c->workspace()->W = B.at(0);
  *W = B;
#elif DIM != 8
  VectorXd y = VectorXd::Zero(m);
  y(m - 1) = 1;
  StepOptions o;
  o.affine = true;
  o.e_weight = -1;
  o.c_weight = 0;
  StepInfo info;
  PrepareStep(c, o, Vec(y), &info);
  *W = B;
#else
  VectorXd y = VectorXd::Zero(m);
  y(m - 1) = 1;
  StepOptions o;
  o.affine = false;
  o.e_weight = 1;
  o.c_weight = 0;
  o.step_size = 1;
  StepInfo info;
  PrepareStep(c, o, Vec(y), &info);
  TakeStep(c, o);
  // from the identity the step gives (1.5 e + .5 B)^2
  H R = Lin(Eye(n), 1.5, B, 0.5);
  *W = Mul(R, R);
#endif
}
// Reads the scaling through the Newton system: AW_i = <A_i, W>.
static VectorXd Probe(Con* c, int m) {
  SchurComplementSystem sys(m);
  VectorXd mem(SizeOf(sys));
  Initialize(&sys, mem.data());
  ConstructSchurComplementSystem(c, true, &sys);
  return sys.AW.col(0);
}
static H Scaling(int n) {
  H B = Sym("w", n, 0.25, SYMW == 1 ? 2 : SYMW == 2 ? 1 : 0);
  for (int i = 0; i < n; i++) B.at(0)(i, i) += DIM == 8 ? 0 : 0.75;
  return B;
}
extern "C" void sx_main() {
#ifdef FIXRAND
  sx_rand_fixed(1);
#endif
  int n = sx_choose("n", NMIN, NMAX);
#if TASK == 1
  int m = sx_choose("m", 1, MMAX);
  vector<H> A;
  for (int i = 0; i + 1 < m; i++) A.push_back(Sym("A", n, 8, SYMS));
  H B = Scaling(n);
  A.push_back(B);
  H C = Sym("C", n, 8, SYMS);
#else
  int m = Dimension(n) + 1;  // every Hermitian matrix is a combination of the A_i
  vector<H> A;
  for (int i = 0; i + 1 < m; i++) A.push_back(Basis(n, i));
  H B = Scaling(n);
  A.push_back(B);
  H C = Sym("C", n, 0.25, SYMS == 2 ? 2 : 0);
#endif
  Con* con = Make(n, A, C);
  VectorXd mem;
  BindWorkspace(con, &mem);
  sx_assert(Rank(*con) == n, "rank is the matrix order");
  sx_assert(con->number_of_variables() == m, "number of variables is the number of matrices");
  SetIdentity(con);
  VectorXd aw = Probe(con, m);
  for (int i = 0; i < m; i++) sx_assert_eq(aw(i), A[i].at(0).trace(), "identity");
  H W;
  SetScaling(con, n, m, B, &W);
#if TASK == 1
  Expected e{MatrixXd::Zero(m, m), VectorXd::Zero(m), VectorXd::Zero(m), 0, 0};
  vector<H> QA;
  H QC = Quad(W, C);
  for (int i = 0; i < m; i++) QA.push_back(Quad(W, A[i]));
  for (int i = 0; i < m; i++) {
    for (int j = 0; j < m; j++) e.G(i, j) = Dot(A[i], QA[j]);
    e.AW(i) = Dot(A[i], W);
    e.AQc(i) = Dot(A[i], QC);
  }
  e.wc = Dot(W, C);
  e.cqc = Dot(C, QC);
  CheckSchur(con, e, DIM == 8 ? 1 : 1);
#else
  VectorXd y(m);
  H X = Sym("s", n, 0.25, SYMS);  // direction, as a matrix
  int c = 0;
  for (int k = 0; k < D; k++)
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++)
        if (!(k && i == j)) y(c++) = X.at(k)(i, j);
  y(m - 1) = 0;
  double cw = sx_real_in("cweight", -1, 1);
  H S = Lin(X, 1, C, -cw);  // A y - k c
  H WS = Mul(W, S);
#endif
#if TASK == 2  // step direction and its norm; the geodesic step
  StepOptions o;
  o.affine = false;
  o.e_weight = 1;
  o.c_weight = cw;
#ifdef DAMPED
  o.step_size = 0.75;
#else
  o.step_size = 1;
#endif
  StepInfo info;
  PrepareStep(con, o, Vec(y), &info);
#if DIM == 0
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) sx_assert_eq(con->workspace()->W(i, j), W.at(0)(i, j), "preparing a step does not move the scaling");
#endif
  double n2 = n + 2 * Dot(W, S) + Dot(Quad(W, S), S);
  sx_assert_eq(info.normsqrd, n2, "squared norm of the step");
  sx_observe("n2", info.normsqrd);
  if (n == 1 && DIM != 8) {
    double d = 1 + WS.at(0)(0, 0);
    sx_assert_eq(info.norminfd, std::fabs(d), "infinity norm of a scalar step is exact");
  }
#if DIM == 0
  if (n == 2) {  // a Ritz value lies between the eigenvalues of e + Q(w^.5) s
    double tr = WS.at(0).trace() + 2, q = info.norminfd;
    double det = (1 + WS.at(0)(0, 0)) * (1 + WS.at(0)(1, 1)) - WS.at(0)(0, 1) * WS.at(0)(1, 0);
    // the estimate never exceeds the true norm max |lambda|: q in [l1, l2] or -q in [l1, l2]
    double p = q * q - q * tr + det, r = q * q + q * tr + det;
    sx_assert_le(p < r ? p : r, 0, "infinity norm estimate lies in the spectrum of the step");
  }
#endif
  sx_assert(TakeStep(con, o), "step reports success");
  VectorXd got = Probe(con, m);
  H Wn = Zero(n);
  c = 0;
  for (int k = 0; k < D; k++)
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++)
        if (!(k && i == j)) {
          double v = i == j ? got(c) : got(c) / 2;
          Wn.at(k)(i, j) = v;
          if (i != j) Wn.at(k)(j, i) = k ? -v : v;
          c++;
        }
#if DIM == 0
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) sx_assert_eq(con->workspace()->W(i, j), Wn.at(0)(i, j), "scaling stays symmetric");
#endif
#if DIM != 8
  H M = Lin(Eye(n), o.step_size, WS, o.step_size), M2 = Mul(M, M);
#if DIM == 0  // [3/3] Pade approximant N/D of exp: D W' = N W
  H M3 = Mul(M2, M), N = Lin(Lin(Eye(n), 120, M, 60), 1, Lin(M2, 12, M3, 1), 1), De = Lin(Lin(Eye(n), 120, M, -60), 1, Lin(M2, 12, M3, -1), 1);
  H L = Mul(De, Wn), R = Mul(N, W);
#else  // (I + M/4 + M^2/32)^4
  H P = Lin(Lin(Eye(n), 1, M, 0.25), 1, M2, 1.0 / 32), P2 = Mul(P, P);
  H R = Mul(Mul(P2, P2), W), L = Wn;
#endif
#else  // (1.5 w + ..): 2.25 w + 1.5 Q(w) s + .25 Q(w) Q(s) w
  H St = Lin(S, o.step_size, S, 0);
  H R = Lin(Lin(W, 2.25, Quad(W, St), 1.5), 1, Quad(W, Quad(St, W)), 0.25), L = Wn;
#endif
  for (int k = 0; k < D; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        sx_assert_eq(L.at(k)(i, j), R.at(k)(i, j), "scaling moves along the approximate geodesic");
        sx_observe("w", Wn.at(k)(i, j));
      }
#endif
#if TASK == 3  // slack metrics
  WeightedSlackEigenvalues p;
  GetWeightedSlackEigenvalues(con, Vec(y), cw, &p);
  double f = Dot(Quad(W, S), S), tr = -Dot(W, S);
  sx_assert_eq(p.trace, tr, "trace of weighted slack");
  sx_assert_eq(p.frobenius_norm_squared, f, "squared norm of weighted slack");
  VectorXd w0 = Probe(con, m);
  for (int i = 0; i < m; i++) sx_assert_eq(w0(i), Dot(A[i], W), "metrics do not move the scaling");
  sx_observe("max", p.lambda_max);
  if (n == 1 && DIM != 8) {
    sx_assert_eq(p.lambda_max, tr, "extreme eigenvalues of a scalar slack are exact");
    sx_assert_eq(p.lambda_min, tr, "extreme eigenvalues of a scalar slack are exact");
  }
#if DIM == 0
  if (n == 2) {
    double det = WS.at(0)(0, 0) * WS.at(0)(1, 1) - WS.at(0)(0, 1) * WS.at(0)(1, 0);
    sx_assert_le(p.lambda_max * p.lambda_max - p.lambda_max * tr + det, 0, "eigenvalue estimates lie in the spectrum of the weighted slack");
    sx_assert_le(p.lambda_min * p.lambda_min - p.lambda_min * tr + det, 0, "eigenvalue estimates lie in the spectrum of the weighted slack");
  }
#endif
#if DIM && DIM != 8
  if (n == 2 && p.lambda_min < p.lambda_max) {
    sx_assert_eq(p.lambda_min + p.lambda_max, tr, "both eigenvalues of a 2x2 slack are found");
    sx_assert_eq(p.lambda_min * p.lambda_min + p.lambda_max * p.lambda_max, f, "both eigenvalues of a 2x2 slack are found");
    sx_witness("two eigenvalues");
  }
#endif
#endif
#if TASK == 4 && DIM != 8  // affine step used to recover the dual variable
  StepOptions o;
  o.affine = true;
  o.c_weight = cw;
  o.e_weight = sx_choose("e", 0, 1) ? 0.5 : 0;
  StepInfo info;
  PrepareStep(con, o, Vec(y), &info);
  VectorXd got = Probe(con, m);
  H want = Lin(W, 1 + o.e_weight, Quad(W, S), 1);
  for (int i = 0; i < m; i++) sx_assert_eq(got(i), Dot(A[i], want), "affine step is (1 + e) w + Q(w)(A y - k c)");
#if DIM == 0
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) sx_assert_eq(con->workspace()->W(i, j), want.at(0)(i, j), "affine step is (1 + e) w + Q(w)(A y - k c)");
#else
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) sx_assert_eq(con->workspace()->W(i, j), want.at(0)(i, j), "real part of the dual variable is published");
#endif
#endif
  delete con;
  sx_witness("end");
}
