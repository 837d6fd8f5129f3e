// P15: two-sided inequalities lb <= A x <= ub are split into inequality and equality rows.
#include "common.h"
#include "conex/linear_constraint.h"
namespace conex {
void PreprocessLinearInequality(const Eigen::MatrixXd& A, const Eigen::MatrixXd& lb, const Eigen::MatrixXd& ub, Eigen::MatrixXd* Aineq, Eigen::MatrixXd* bineq, Eigen::MatrixXd* Aeq,
                                Eigen::MatrixXd* beq);
}
using namespace conex;
#ifndef NMAX
#define NMAX 1
#endif
#ifndef MMAX
#define MMAX 2
#endif
// KIND: 0 finite bounds; 1 each bound finite or absent (beyond 1e8); 2 any magnitude up to 1e10, any point up to 1e10
#ifndef KIND
#define KIND 0
#endif
extern "C" void sx_main() {
  int n = sx_choose("n", 1, NMAX), m = sx_choose("m", 1, MMAX);
  MatrixXd A = SymMatIn("A", n, m, -4, 4), lb(n, 1), ub(n, 1);
  for (int i = 0; i < n; i++) {
    lb(i) = sx_real_in("lb", -4, 4);
    ub(i) = sx_real_in("ub", -4, 4);
#if KIND == 2
    lb(i) = sx_real_in("lb", -1e10, 1e10);
    ub(i) = sx_real_in("ub", -1e10, 1e10);
    sx_assume(!(lb(i) == ub(i) && (lb(i) >= 1e8 || lb(i) <= -1e8)));  // fixed at an absent value
#endif
#if KIND == 1
    int k = sx_choose("open", 0, 3);
    if (k & 1) lb(i) = sx_real_in("far", -1e12, -1e8);
    if (k & 2) ub(i) = sx_real_in("far", 1e8, 1e12);
#endif
  }
  MatrixXd Ai, bi, Ae, be;
#ifdef PREFILL  // rows of an earlier call
  MatrixXd a0 = SymMatIn("a0", 1, m, -4, 4), b0 = SymMatIn("b0", 1, 1, -4, 4), a1 = SymMatIn("a1", 1, m, -4, 4), b1 = SymMatIn("b1", 1, 1, -4, 4);
  Ai = a0;
  bi = b0;
  Ae = a1;
  be = b1;
#endif
  PreprocessLinearInequality(A, lb, ub, &Ai, &bi, &Ae, &be);
#ifdef PREFILL
  sx_assert(Ai.rows() >= 1 && bi.rows() == Ai.rows() && Ae.rows() >= 1 && be.rows() == Ae.rows() && Ai.cols() == m && Ae.cols() == m, "earlier rows are kept");
  for (int j = 0; j < m; j++) {
    sx_assert_eq(Ai(0, j), a0(0, j), "earlier rows are kept");
    sx_assert_eq(Ae(0, j), a1(0, j), "earlier rows are kept");
  }
  sx_assert_eq(bi(0), b0(0), "earlier rows are kept");
  sx_assert_eq(be(0), b1(0), "earlier rows are kept");
  Ai = MatrixXd(Ai.bottomRows(Ai.rows() - 1));
  bi = MatrixXd(bi.bottomRows(bi.rows() - 1));
  Ae = MatrixXd(Ae.bottomRows(Ae.rows() - 1));
  be = MatrixXd(be.bottomRows(be.rows() - 1));
#endif
#if KIND == 2
  VectorXd x = SymMatIn("x", m, 1, -1e10, 1e10);
#else
  VectorXd x = SymMatIn("x", m, 1, -4, 4);
#endif
  sx_assert(Ai.rows() == bi.rows() && Ae.rows() == be.rows(), "one right-hand side per row");
  sx_assert((Ai.rows() == 0 || Ai.cols() == m) && (Ae.rows() == 0 || Ae.cols() == m), "one column per variable");
  sx_assert((Ai.rows() == 0 || bi.cols() == 1) && (Ae.rows() == 0 || be.cols() == 1), "one right-hand side per row");
  bool in = true, got = true;
  double margin = 1e9;
  for (int i = 0; i < n; i++) {
    double s = 0;
    for (int j = 0; j < m; j++) s += A(i, j) * x(j);
#if KIND >= 1
    if (lb(i) > -1e8)
#endif
      if (s < lb(i)) in = false;
#if KIND >= 1
    if (ub(i) < 1e8)
#endif
      if (s > ub(i)) in = false;
  }
  for (int i = 0; i < Ai.rows(); i++) {
    double s = 0;
    for (int j = 0; j < m; j++) s += Ai(i, j) * x(j);
    if (s > bi(i) + (sx_symbolic() ? 0 : 1e-9)) got = false;
    double nn = bi(i) * bi(i);
    for (int j = 0; j < m; j++) nn += Ai(i, j) * Ai(i, j);
    if (nn != 0) sx_assert_eq(nn, 1, "rows are normalised");
  }
  for (int i = 0; i < Ae.rows(); i++) {
    double s = 0;
    for (int j = 0; j < m; j++) s += Ae(i, j) * x(j);
    if (std::fabs(s - be(i)) > (sx_symbolic() ? 0 : 1e-9)) got = false;
    double nn = be(i) * be(i);
    for (int j = 0; j < m; j++) nn += Ae(i, j) * Ae(i, j);
    if (nn != 0) sx_assert_eq(nn, 1, "rows are normalised");
  }
  sx_assert(in == got, "a point satisfies the original bounds exactly when it satisfies the split rows");
  sx_witness("end");
}
