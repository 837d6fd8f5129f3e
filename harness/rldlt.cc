// P04: dense LDL' factorization with static regularisation of tiny pivots.
#include "common.h"
#include "conex/RLDLT.h"
#include "conex/block_triangular_operations.h"
#ifndef NMAX
#define NMAX 2
#endif
#ifndef NMIN
#define NMIN 0
#endif
#ifndef VAL
#define VAL 0
#endif
extern "C" void sx_main() {
  int n = sx_choose("n", NMIN, NMAX);
  // Guard words around the matrix: the factorization may touch only its own block.
  VectorXd mem(n * n + 2);
  mem(0) = mem(n * n + 1) = sx_real_in("guard", -1, 1);
  double guard = mem(0);
  Eigen::Map<MatrixXd> A(mem.data() + 1, n, n);
  MatrixXd S(n, n);  // the symmetric matrix the lower triangle stands for
  for (int j = 0; j < n; j++)
    for (int i = j; i < n; i++) {
#if VAL == 1  // integer entries with many ties and zero pivots
      double v = sx_choose("a", -1, 1);
#else
      double v = sx_real_in("a", -8, 8);
#endif
      S(i, j) = S(j, i) = A(i, j) = v;
      if (i > j) A(j, i) = 17;  // the strict upper triangle carries no information
    }
  Eigen::Ref<MatrixXd> R(A);
  Eigen::RLDLT<Eigen::Ref<MatrixXd>> f(R);
  bool reg = f.regularization_used();
  sx_observe("reg", reg);
  sx_assert_eq(mem(0), guard, "memory before the block is untouched");
  sx_assert_eq(mem(n * n + 1), guard, "memory after the block is untouched");
  // P' L D L' P, from the factors
  MatrixXd L = MatrixXd::Identity(n, n);
  VectorXd D(n);
  const auto& M = f.matrixRLDLT();
  for (int j = 0; j < n; j++) {
    D(j) = M(j, j);
    for (int i = j + 1; i < n; i++) L(i, j) = M(i, j);
  }
  Eigen::PermutationMatrix<-1> P(f.transpositionsP());
  MatrixXd rec(n, n);
  int pos[8], seen[8] = {0};
  for (int i = 0; i < n; i++) pos[i] = P.indices()(i);  // row i moves to pos[i]
  for (int i = 0; i < n; i++) {
    sx_assert(pos[i] >= 0 && pos[i] < n && !seen[pos[i]], "pivoting order is a permutation");
    seen[pos[i]] = 1;
  }
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      double s = 0;
      for (int k = 0; k < n; k++) s += L(pos[i], k) * D(k) * L(pos[j], k);
      rec(i, j) = s;
    }
  for (int i = 0; i < n; i++) {
    sx_assert_le(1e-9, std::fabs(D(i)), "every pivot is at least the regularisation threshold");
    for (int j = 0; j <= i; j++) {
      if (!reg)
        sx_assert_eq(rec(i, j), S(i, j), "factors reproduce the matrix when no regularisation is reported");
      else if (i != j)
        sx_assert_eq(rec(i, j), S(i, j), "regularisation changes diagonal entries only");
      else
        sx_assert_near(rec(i, j), S(i, j), 2e-9, "regularisation moves a diagonal entry by at most 2e-9");
    }
  }
  if (n == 1) sx_assert(reg == (std::fabs(S(0, 0)) < 1e-9), "a tiny 1x1 pivot is reported as regularised");
  if (!reg && n > 0) {
    VectorXd b = SymMatIn("b", n, 1, -8, 8), x = f.solve(b);
    for (int i = 0; i < n; i++) {
      double s = 0;
      for (int j = 0; j < n; j++) s += S(i, j) * x(j);
      sx_assert_eq(s, b(i), "solution satisfies the linear system");
    }
    sx_witness("regular");
  } else if (n > 0)
    sx_witness("regularised");
  sx_witness("end");
}
