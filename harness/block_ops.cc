// P05: block triangular kernels on every small block-sparse structure.
#include <algorithm>
#include "common.h"
#include "conex/block_triangular_operations.h"
#include "conex/supernodal_solver.h"
using namespace conex;
using std::vector;
#ifndef NV
#define NV 3
#endif
#ifndef NVMIN
#define NVMIN 1
#endif
#ifndef KMAX
#define KMAX 2
#endif
#ifndef KMIN
#define KMIN 1
#endif
// 0: triangular solves and dense form, 1: Cholesky of L L', 2: LDL' solve
#ifndef TASK  // 3: pivot orders
#define TASK 0
#endif
static vector<int> PickClique(int nv) {
  vector<int> c;
  for (int v = 0; v < nv; v++)
    if (sx_int("member", 0, 1)) c.push_back(v);
  sx_assume(c.size() > 0);
  return c;
}
#ifndef DLOW
#define DLOW 0.25
#endif
#ifndef FIXOFF
#if TASK == 0  // signs chosen so that no intermediate value of a substitution vanishes
#define OFF(n) sx_real_in(n, -4, -0.25)
#else
#define OFF(n) sx_real_in(n, -4, 4)
#endif
#else  // fixed off-diagonal entries, symbolic diagonal
static int off_count = 0;
static double OFF(const char*) {
  off_count++;
  return off_count % 3 == 0 ? -1 : off_count % 3 == 1 ? 2 : 0.5;
}
#endif
#if TASK == 3  // pivot orders: chains of blocks, every pivot permutation of a block of three
extern "C" void sx_main() {
  int S = sx_choose("S", 1, 3), big = sx_choose("big", 0, S - 1), perm = sx_choose("perm", 0, 5), sep = sx_choose("sep", 1, 2);
  vector<vector<int>> paths;
  vector<int> sizes;
  int at = 0;
  for (int e = 0; e < S; e++) {
    int m = e == big ? 3 : 2;
    vector<int> p;
    for (int i = 0; i < m + (e + 1 < S ? sep : 0); i++) p.push_back(at + i);
    if (e + 1 < S && sep == 1) p.back() = at + m + (e + 1 == big ? 2 : 1);  // last variable of the next block
    paths.push_back(p);
    sizes.push_back(m);
    at += m;
  }
  const double d[6][3] = {{9, 7, 5}, {9, 5, 7}, {7, 9, 5}, {7, 5, 9}, {5, 9, 7}, {5, 7, 9}};
  TriangularMatrixWorkspace w(paths, sizes);
  VectorXd mem = VectorXd::Zero(SizeOf(w) + 8);
  Initialize(&w, mem.data());
  MatrixXd A = MatrixXd::Zero(at, at);
  int cnt = 0;
  for (int e = 0; e < S; e++) {
    for (int j = 0; j < sizes[e]; j++) {
      int c = w.snodes[e][j];
      for (int i = j; i < sizes[e]; i++) w.diagonal[e](i, j) = A(w.snodes[e][i], c) = i != j ? (cnt++ % 3 - 1) * .5 : e == big ? d[perm][i] : 6 - 2 * i;
      for (size_t k = 0; k < w.separators[e].size(); k++) w.off_diagonal[e](j, k) = A(w.separators[e][k], c) = (cnt++ % 4 - 1) * .5;
    }
  }
  for (int i = 0; i < at; i++)
    for (int j = 0; j < i; j++) A(j, i) = A(i, j);
  VectorXd b(at);
  double t = sx_real_in("t", -4, 4);  // a line of right-hand sides: Eigen branches on every intermediate zero
  for (int i = 0; i < at; i++) b(i) = (i * 3 % 5 - 1.5) + (i * 2 % 5 - 2.5) * t;
  VectorXd q = b;
  vector<Eigen::RLDLT<Eigen::Ref<MatrixXd>>> f;
  sx_assert(BlockTriangularOperations::BlockLDLTInPlace(&w, &f), "no regularisation is needed for a well-conditioned matrix");
  BlockTriangularOperations::SolveInPlaceLDLT(w, f, &q);
  for (int i = 0; i < at; i++) {
    double s = 0;
    for (int j = 0; j < at; j++) s += A(i, j) * q(j);
    sx_assert_eq(s, b(i), "LDL' solve satisfies the system whatever the pivot order");
  }
  sx_witness("end");
}
#else
extern "C" void sx_main() {
  int nv = sx_choose("nv", NVMIN, NV), K = sx_choose("K", KMIN, KMAX);
  vector<vector<int>> cl;
  vector<int> cover(nv);
  for (int k = 0; k < K; k++) {
    cl.push_back(PickClique(nv));
    for (int v : cl[k]) cover[v] = 1;
  }
  for (int v = 0; v < nv; v++) sx_assume(cover[v]);
  SparseTriangularMatrix mat(GetData(cl, sx_choose("root", 0, K - 1)));
  auto& w = mat.workspace_;
  int S = w.snodes.size(), N = mat.N;
  sx_assert(N == nv, "one row per variable");
  MatrixXd L = MatrixXd::Zero(N, N);
  bool empty = false;
  auto fill = [&](bool write) {  // write=false: L := blocks; true: blocks := L
    for (int e = 0; e < S; e++) {
      int m = w.snodes[e].size();
      if (!m) empty = true;
      for (int j = 0; j < m; j++) {
        for (int i = 0; i < m; i++) {
          double& x = w.diagonal[e](i, j);
          double& l = L(w.snodes[e][i], w.snodes[e][j]);
          if (i < j)
            x = 17;  // the strict upper triangle carries no information
          else if (write)
            x = l;
          else
            l = x;
        }
        for (size_t k = 0; k < w.separators[e].size(); k++) {
          double& x = w.off_diagonal[e](j, k);
          double& l = L(w.separators[e][k], w.snodes[e][j]);
          if (write)
            x = l;
          else
            l = x;
        }
      }
    }
  };
  for (int e = 0; e < S; e++) {
    int m = w.snodes[e].size();
    for (int j = 0; j < m; j++) {
      for (int i = j; i < m; i++) w.diagonal[e](i, j) = i == j ? sx_real_in("d", DLOW, 4) : OFF("l");
      for (size_t k = 0; k < w.separators[e].size(); k++) w.off_diagonal[e](j, k) = OFF("l");
    }
  }
  fill(false);
  VectorXd b = SymMatIn("b", N, 1, TASK ? -4 : 0.25, 4);
#if TASK == 0
  VectorXd y = b, z = b;
  BlockTriangularOperations::ApplyBlockInverseInPlace(w, &y);
  BlockTriangularOperations::ApplyBlockInverseOfTransposeInPlace(w, &z);
  for (int i = 0; i < N; i++) {
    double s = 0, t = 0;
    for (int j = 0; j < N; j++) {
      s += L(i, j) * y(j);
      t += L(j, i) * z(j);
    }
    sx_assert_eq(s, b(i), "forward substitution inverts the factor");
    sx_assert_eq(t, b(i), "backward substitution inverts the transposed factor");
    sx_observe("y", y(i));
    sx_observe("z", z(i));
  }
  VectorXd q = b, yz = y;
  BlockTriangularOperations::SolveInPlaceCholesky(w, &q);
  BlockTriangularOperations::ApplyBlockInverseOfTransposeInPlace(w, &yz);
  for (int i = 0; i < N; i++) sx_assert_eq(q(i), yz(i), "solve is forward then backward substitution");
  MatrixXd D = TriangularMatrixOperations::ToDense(mat);
  for (int i = 0; i < N; i++)
    for (int j = 0; j <= i; j++) sx_assert_eq(D(i, j), L(i, j), "dense form agrees with the stored blocks");
#endif
  // A = L L' (task 1) or L D L' + any symmetric values on the pattern (task 2)
  MatrixXd A = MatrixXd::Zero(N, N);
#if TASK == 1
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++)
      for (int k = 0; k < N; k++) A(i, j) += L(i, k) * L(j, k);
  MatrixXd want = L;
  L = A;
  fill(true);
  sx_assert(BlockTriangularOperations::BlockCholeskyInPlace(&w), "positive definite matrices are factored");
  fill(false);
  for (int e = 0; e < S; e++)
    for (size_t j = 0; j < w.snodes[e].size(); j++) {
      for (size_t i = j; i < w.snodes[e].size(); i++) sx_assert_eq(w.diagonal[e](i, j), want(w.snodes[e][i], w.snodes[e][j]), "block Cholesky recovers the factor");
      for (size_t i = 0; i < w.separators[e].size(); i++) sx_assert_eq(w.off_diagonal[e](j, i), want(w.separators[e][i], w.snodes[e][j]), "block Cholesky recovers the factor");
    }
#endif
#if TASK == 2
  for (int i = 0; i < N; i++)
    for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = L(i, j);
  fill(true);
  vector<Eigen::RLDLT<Eigen::Ref<MatrixXd>>> f;
  bool ok = BlockTriangularOperations::BlockLDLTInPlace(&w, &f);
  if (!ok) {
    sx_witness("regularised");
    return;
  }
  VectorXd q = b;
  BlockTriangularOperations::SolveInPlaceLDLT(w, f, &q);
  for (int i = 0; i < N; i++) {
    double s = 0;
    for (int j = 0; j < N; j++) s += A(i, j) * q(j);
    sx_assert_eq(s, b(i), "LDL' solve satisfies the system when no regularisation is reported");
  }
#endif
  sx_witness("end");
}
#endif
