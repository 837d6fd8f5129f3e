// P22: graph and tree utilities behind the elimination orderings.
#include <algorithm>
#include "common.h"
#include "conex/clique_ordering.h"
#include "conex/elimination_ordering.h"
#include "conex/supernodal_solver.h"
#include "conex/tree_utils.h"
using namespace conex;
#ifndef TASK
#define TASK 1
#endif
#ifndef NMIN
#define NMIN 1
#endif
#ifndef NMAX
#define NMAX 4
#endif
static bool HasPerfectOrder(MatrixXd A) {  // eliminate vertices whose neighbours are pairwise adjacent
  int n = A.rows();
  std::vector<int> alive(n, 1);
  for (int r = 0; r < n; r++) {
    int pick = -1;
    for (int v = 0; v < n && pick < 0; v++) {
      if (!alive[v]) continue;
      bool simplicial = true;
      for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++)
          if (alive[i] && alive[j] && i != v && j != v && A(v, i) != 0 && A(v, j) != 0 && A(i, j) == 0) simplicial = false;
      if (simplicial) pick = v;
    }
    if (pick < 0) return false;
    alive[pick] = 0;
  }
  return true;
}
static bool PerfectInOrder(const MatrixXd& A) {
  int n = A.rows();
  for (int v = 0; v < n; v++)
    for (int i = v + 1; i < n; i++)
      for (int j = v + 1; j < i; j++)
        if (A(v, i) != 0 && A(v, j) != 0 && A(i, j) == 0) return false;
  return true;
}
extern "C" void sx_main() {
  int n = sx_choose("n", NMIN, NMAX);
#if TASK == 1
  MatrixXd A = MatrixXd::Zero(n, n);
  int diag = sx_choose("diag", 0, 1);
  for (int i = 0; i < n; i++) {
    A(i, i) = diag;
    for (int j = 0; j < i; j++) A(i, j) = A(j, i) = sx_int("edge", 0, 1) ? 1 : 0;
  }
  bool chordal = HasPerfectOrder(A);
  sx_assert(IsChordal(A) == chordal, "chordal graphs are recognised");
  sx_assert(IsPerfectlyOrdered(A) == PerfectInOrder(A), "perfect elimination orders are recognised");
  auto P = EliminationOrdering(A);
  sx_assert(P.rows() == n, "one position per vertex");
  std::vector<int> seen(n);
  for (int i = 0; i < n; i++) {
    int v = P.indices()(i);
    sx_assert(v >= 0 && v < n && !seen[v]++, "the ordering is a permutation");
  }
  if (chordal) {
    MatrixXd B(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) B(i, j) = A(P.indices()(i), P.indices()(j));
    sx_assert(PerfectInOrder(B), "the ordering of a chordal graph eliminates it without fill-in");
    sx_witness("chordal");
  } else
    sx_witness("not chordal");
  VectorXd d = MaximumDegreeVertices(A);
  int best = -1, cnt = 0;
  for (int i = 0; i < n; i++) {
    int deg = 0;
    for (int j = 0; j < n; j++) deg += A(i, j) != 0;
    if (deg > best) best = deg, cnt = 0;
    cnt += deg == best;
  }
  sx_assert(d.rows() == cnt, "every vertex of maximum degree is listed");
  for (int k = 0; k < d.rows(); k++) {
    int deg = 0;
    for (int j = 0; j < n; j++) deg += A(int(d(k)), j) != 0;
    sx_assert(deg == best && (!k || d(k) > d(k - 1)), "only vertices of maximum degree are listed");
  }
#endif
#if TASK == 4 || TASK == 5  // arbitrary weights: any nonzero entry is an edge
  MatrixXd W = MatrixXd::Zero(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++) W(i, j) = W(j, i) = sx_real_in("weight", -2, 2);
#endif
#if TASK == 4
  sx_assert(IsPerfectlyOrdered(W) == PerfectInOrder(W), "perfect elimination orders are recognised whatever the weights");
#endif
#if TASK == 5
  auto Pw = EliminationOrdering(W);
  sx_assert(Pw.rows() == n, "one position per vertex");
  std::vector<int> seen(n);
  for (int i = 0; i < n; i++) {
    int v = Pw.indices()(i);
    sx_assert(v >= 0 && v < n && !seen[v]++, "the ordering is a permutation whatever the weights");
  }
  if (HasPerfectOrder(W)) {
    MatrixXd B(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) B(i, j) = W(Pw.indices()(i), Pw.indices()(j));
    sx_assert(PerfectInOrder(B), "the ordering of a chordal graph eliminates it without fill-in whatever the weights");
  }
#endif
#if TASK == 2  // paths in rooted forests numbered so that parents come first
  std::vector<int> parent(n), height(n), label(n);
  parent[0] = 0;
  for (int i = 1; i < n; i++) {
    parent[i] = Pick("parent", 0, i - 1);
    height[i] = height[parent[i]] + 1;
  }
  int rot = sx_choose("labels", 0, 1);  // also with the numbering reversed
  if (rot) {
    std::vector<int> p(n), h(n);
    for (int i = 0; i < n; i++) {
      p[n - 1 - i] = n - 1 - parent[i];
      h[n - 1 - i] = height[i];
    }
    parent = p;
    height = h;
  }
  int x = Pick("x", 0, n - 1), y = Pick("y", 0, n - 1);
  std::vector<int> path = PathInTree(x, y, parent, height);
  // reference: ancestors of exactly one end, plus the deepest common ancestor
  std::vector<int> ax(n), ay(n);
  for (int v = x;; v = parent[v]) {
    ax[v] = 1;
    if (parent[v] == v) break;
  }
  for (int v = y;; v = parent[v]) {
    ay[v] = 1;
    if (parent[v] == v) break;
  }
  int top = -1;
  for (int v = 0; v < n; v++)
    if (ax[v] && ay[v] && (top < 0 || height[v] > height[top])) top = v;
  sx_assert(!path.empty() && path.back() == top, "the path ends at the meeting point nearest the root");
  for (int v = 0; v < n; v++) {
    int times = std::count(path.begin(), path.end(), v);
    sx_assert(times == (ax[v] != ay[v] || v == top), "the path lists each vertex between the ends exactly once");
  }
#endif
#if TASK == 3  // set operations on sorted lists
  std::vector<int> a, b, both, either;
  for (int v = 0; v < n; v++) {
    bool ia = sx_int("a", 0, 1), ib = sx_int("b", 0, 1);
    if (ia) a.push_back(3 * v);
    if (ib) b.push_back(3 * v);
    if (ia && ib) both.push_back(3 * v);
    if (ia || ib) either.push_back(3 * v);
  }
  std::vector<int> out(2, 7);
  IntersectionOfSorted(a, b, &out);
  sx_assert(out == both, "intersection");
  sx_assert(UnionOfSorted(a, b) == either, "union");
#endif
  sx_witness("end");
}
