// P02/P03: assembly of the KKT matrix from constraint blocks; factor; solve.
#include <algorithm>
#include "common.h"
#include "conex/kkt_solver.h"
using namespace conex;
using std::vector;
#ifndef NV
#define NV 3
#endif
#ifndef NVMIN
#define NVMIN 1
#endif
#ifndef KMAX
#define KMAX 2
#endif
#ifndef KMIN
#define KMIN 1
#endif
#ifndef MAXSZ
#define MAXSZ 9
#endif
#ifndef MINSZ
#define MINSZ 1
#endif
#ifndef DUALS
#define DUALS 0
#endif
#ifndef SOLVE
#define SOLVE 0
#endif
#ifndef MODE
#define MODE 0
#endif
// VAL 0: arbitrary symmetric blocks; 1: diagonally dominant blocks with symbolic
// entries of known sign (every quantity the factorization divides by or takes the
// root of is positive); 2: fixed well-conditioned numbers, symbolic right hand side.
#ifndef VAL
#define VAL 0
#endif
#ifndef REFINE
#define REFINE 0
#endif
// Zero pivots are replaced by 1e-9 (documented regularisation), so systems with
// equality multipliers are solved up to that perturbation.
#if VAL == 2
#define CLOSE(a, b, l, t) sx_assert_near(a, b, t, l)
#else
#define CLOSE(a, b, l, t) sx_assert_eq(a, b, l)
#endif
static vector<int> PickClique(int nv, bool rev) {
  vector<int> c;
  for (int v = 0; v < nv; v++) {
    int u = rev ? nv - 1 - v : v;
    if (sx_int("member", 0, 1)) c.push_back(u);
  }
  sx_assume((int)c.size() >= MINSZ && (int)c.size() <= MAXSZ);
  return c;
}
struct Block : public SupernodalAssemblerStatic {
  MatrixXd A;
  VectorXd aw, aqc;
  double wc;
  // Writes the block's data the way every constraint does.
  void SetDenseData() override {
    int m = NumberOfVariables();
    for (int j = 0; j < m; j++) {
      for (int i = j; i < m; i++) submatrix_data_.G(i, j) = A(i, j);
      submatrix_data_.AW(j) = aw(j);
      submatrix_data_.AQc(j) = aqc(j);
    }
    submatrix_data_.inner_product_of_w_and_c = wc;
  }
};
extern "C" void sx_main() {
  int nv = sx_choose("nv", NVMIN, NV);
  int K = sx_choose("K", KMIN, KMAX);
  vector<vector<int>> cl, dual(K);
  vector<int> cover(nv);
  int N = nv;
  for (int k = 0; k < K; k++) {
    cl.push_back(PickClique(nv, k % 2));
    for (int v : cl[k]) cover[v] = 1;
    int nd = sx_choose("duals", 0, DUALS);
    for (int i = 0; i < nd; i++) {
      cl[k].push_back(N);
      dual[k].push_back(N++);
    }
  }
  for (int v = 0; v < nv; v++) sx_assume(cover[v]);
  bool has_dual = N > nv;
  SupernodalKKTSolver solver(cl, dual);
  vector<std::unique_ptr<Block>> blocks;
  vector<std::unique_ptr<VectorXd>> mems;
  vector<Block*> ptr;
  for (int k = 0; k < K; k++) {
    blocks.emplace_back(new Block);
    auto* b = blocks.back().get();
    b->SetNumberOfVariables(cl[k].size());
    mems.emplace_back(new VectorXd(SizeOf(*b->GetWorkspace())));
    Initialize(b->GetWorkspace(), mems.back()->data());
    ptr.push_back(b);
  }
  solver.Bind(ptr);
  solver.SetSolverMode(MODE);
  solver.SetIterativeRefinementIterations(REFINE);
  for (int round = 0; round < (SOLVE ? 1 : 2); round++) {
    MatrixXd want = MatrixXd::Zero(N, N);
    VectorXd aw = VectorXd::Zero(N), aqc = VectorXd::Zero(N);
    double wc = 0;
    for (int k = 0; k < K; k++) {
      int m = cl[k].size(), md = dual[k].size();
      auto* b = ptr[k];
#if VAL == 0
      b->A = SymSymmetric("G", m);
#elif VAL == 1
      b->A.setZero(m, m);
      for (int i = 0; i < m - md; i++) {
        b->A(i, i) += sx_real_in("d", 0.125, 64);
        for (int j = i + 1; j < m - md; j++) {
          double a = sx_real_in("a", 0.125, 64);
          b->A(i, i) += a;
          b->A(j, j) += a;
          b->A(i, j) = b->A(j, i) = -a;
        }
      }
      for (int i = m - md; i < m; i++)
        for (int j = 0; j < m - md; j++) b->A(i, j) = b->A(j, i) = sx_real_in("e", 0.125, 64);
#else
      b->A.setZero(m, m);
      for (int i = 0; i < m - md; i++) {
        b->A(i, i) = 6 + i + 2 * k;
        for (int j = i + 1; j < m - md; j++) b->A(i, j) = b->A(j, i) = (i + 2 * j + k) % 3 == 0 ? -1 : 0.5;
      }
      for (int i = m - md; i < m; i++)
        for (int j = 0; j < m - md; j++) b->A(i, j) = b->A(j, i) = (cl[k][j] == k % nv) ? 3 : 0.5;
#endif
      for (int i = m - md; i < m; i++)
        for (int j = m - md; j < m; j++) b->A(i, j) = 0;  // multipliers do not couple
      b->aw = SymMat("aw", m, 1);
      b->aqc = SymMat("aqc", m, 1);
      b->wc = sx_real("wc");
      wc += b->wc;
      for (int i = 0; i < m; i++) {
        aw(cl[k][i]) += b->aw(i);
        aqc(cl[k][i]) += b->aqc(i);
        for (int j = 0; j < m; j++) want(cl[k][i], cl[k][j]) += b->A(i, j);
      }
    }
    VectorXd AW(N), AQc(N);
    double ip;
    if (round == 0)
      solver.Assemble(&AW, &AQc, &ip);
    else
      solver.Assemble();
    MatrixXd got = solver.KKTMatrix();
    sx_assert(got.rows() == N && got.cols() == N, "system has one row per variable");
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++) {
        sx_assert_eq(got(i, j), want(i, j), "assembled matrix is the sum of the blocks");
        sx_observe("kkt", got(i, j));
      }
    if (round == 0) {
      for (int i = 0; i < N; i++) {
        sx_assert_eq(AW(i), aw(i), "assembled AW is the sum of the blocks");
        sx_assert_eq(AQc(i), aqc(i), "assembled AQc is the sum of the blocks");
      }
      sx_assert_eq(ip, wc, "assembled <w,c> is the sum of the blocks");
    }
#if SOLVE
    VectorXd b = VAL ? SymMatIn("b", N, 1, 0.125, VAL == 2 ? 2 : 64) : SymMat("b", N, 1);
#if VAL == 2
    if (has_dual) {  // singular systems (dependent equations) have no solution to speak of
      MatrixXd M = want;
      double det = 1;
      for (int k = 0; k < N; k++) {
        int p = k;
        for (int i = k; i < N; i++)
          if (std::fabs(M(i, k)) > std::fabs(M(p, k))) p = i;
        det *= M(p, k);
        if (std::fabs(M(p, k)) < 1e-6) sx_stop("singular system");
        M.row(k).swap(M.row(p));
        for (int i = k + 1; i < N; i++) {
          double f = M(i, k) / M(k, k);
          for (int j = k; j < N; j++) M(i, j) -= f * M(k, j);
        }
      }
    }
#endif
    bool ok = solver.Factor();
    if (!has_dual && MODE != 2 && VAL == 0) {
      // reports failure exactly when the matrix is not positive definite
      bool pd = true;
      double det;
      if (N == 1) pd = want(0, 0) > 0;
      if (N == 2) pd = want(0, 0) > 0 && want(0, 0) * want(1, 1) - want(0, 1) * want(1, 0) > 0;
      if (N == 3) {
        det = want(0, 0) * (want(1, 1) * want(2, 2) - want(1, 2) * want(2, 1)) - want(0, 1) * (want(1, 0) * want(2, 2) - want(1, 2) * want(2, 0)) +
              want(0, 2) * (want(1, 0) * want(2, 1) - want(1, 1) * want(2, 0));
        pd = want(0, 0) > 0 && want(0, 0) * want(1, 1) - want(0, 1) * want(1, 0) > 0 && det > 0;
      }
      if (N <= 3) sx_assert(pd == ok, "factorization succeeds exactly on positive definite systems");
    }
    if (VAL) sx_assert(ok, "factorization succeeds on diagonally dominant systems");
    if (!ok) {
      sx_witness("failed");
      return;
    }
    VectorXd x = solver.Solve(b);
    VectorXd z = b;
    Eigen::Map<MatrixXd, Eigen::Aligned> zm(z.data(), N, 1);
    solver.SolveInPlace(&zm);
    for (int i = 0; i < N; i++) {
      double r = 0;
      for (int j = 0; j < N; j++) r += want(i, j) * x(j);
      CLOSE(r, b(i), "solution satisfies the linear system", 1e-5);
      r = 0;
      for (int j = 0; j < N; j++) r += want(i, j) * z(j);
      CLOSE(r, b(i), "in-place solution satisfies the linear system", REFINE ? 1e-10 : 1e-5);
    }
#endif
  }
  sx_witness("end");
}
