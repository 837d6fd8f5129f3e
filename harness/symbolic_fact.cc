// P01: symbolic factorization (elimination order, supernodes, separators).
#include <algorithm>
#include "common.h"
#include "conex/clique_ordering.h"
#include "conex/supernodal_solver.h"
#include "conex/tree_utils.h"
using namespace conex;
using std::vector;
#ifndef NV
#define NV 4
#endif
#ifndef NVMIN
#define NVMIN 1
#endif
#ifndef KMAX
#define KMAX 3
#endif
#ifndef KMIN
#define KMIN 1
#endif
#ifndef MAXSZ
#define MAXSZ 9
#endif
#ifndef MINSZ
#define MINSZ 1
#endif
#ifndef ROOTMAX
#define ROOTMAX 9
#endif
#ifndef LEAFS
#define LEAFS 1
#endif
static vector<int> PickClique(int nv, bool rev) {
  vector<int> c;
  for (int v = 0; v < nv; v++) {
    int u = rev ? nv - 1 - v : v;
    if (sx_int("member", 0, 1)) c.push_back(u);
  }
  sx_assume((int)c.size() >= MINSZ && (int)c.size() <= MAXSZ);
  return c;
}
static bool Has(const vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
extern "C" void sx_main() {
  int nv = sx_choose("nv", NVMIN, NV);
  int K = sx_choose("K", KMIN, KMAX);
  vector<vector<int>> cl;
  vector<int> cover(nv);
  for (int k = 0; k < K; k++) {
    cl.push_back(PickClique(nv, k % 2));
    for (int v : cl[k]) cover[v] = 1;
  }
  for (int v = 0; v < nv; v++) sx_assume(cover[v]);
  int root = sx_choose("root", -1, std::min(K - 1, ROOTMAX));
  MatrixData d;
  int leafs = sx_choose("leafs", 0, LEAFS);
  try {
    if (leafs) {
      vector<int> valid;
      for (int k = 0; k < K; k++) valid.push_back(sx_int("valid", 0, 1) ? 1 : 0);
      d = GetData(cl, valid, root);
    } else {
      d = GetData(cl, root);
    }
  } catch (...) {
    sx_assert(false, "analysis of a valid sparsity pattern does not fail");
    return;
  }
  sx_assert(d.N == nv, "every variable is eliminated exactly once (count)");
  sx_assert((int)d.clique_order.size() == K, "one elimination step per constraint (count)");
  vector<int> seen(K);
  for (int e : d.clique_order) {
    sx_assert(e >= 0 && e < K, "elimination step names a constraint");
    seen[e]++;
  }
  for (int k = 0; k < K; k++) sx_assert(seen[k] == 1, "constraint order is a permutation");
  sx_assert((int)d.permutation.size() == nv && (int)d.permutation_inverse.size() == nv, "permutation size");
  for (int v = 0; v < nv; v++) {
    int p = d.permutation[v];
    sx_assert(p >= 0 && p < nv, "permutation in range");
    sx_assert(d.permutation_inverse[p] == v, "variable permutation is a bijection");
  }
  // supernodes partition the variables, in elimination order
  vector<int> owner(nv, -1), pos(nv, -1);
  int cnt = 0;
  sx_assert((int)d.supernodes_original_labels.size() == K && (int)d.separators_original_labels.size() == K, "sizes");
  for (int e = 0; e < K; e++) {
    for (int v : d.supernodes_original_labels[e]) {
      sx_assert(v >= 0 && v < nv, "supernode entry in range");
      sx_assert(owner[v] == -1, "each variable is eliminated once");
      owner[v] = e;
      sx_assert(d.permutation[v] == cnt, "supernodes are contiguous in the permuted order");
      pos[v] = cnt++;
    }
    sx_assert(d.supernode_size[e] == (int)d.supernodes_original_labels[e].size(), "supernode size");
  }
  sx_assert(cnt == nv, "supernodes partition the variables");
  for (int e = 0; e < K; e++) {
    auto& sn = d.supernodes_original_labels[e];
    auto& sep = d.separators_original_labels[e];
    for (int v : cl[d.clique_order[e]]) sx_assert(Has(sn, v) || Has(sep, v), "constraint's variables are covered by its supernode and separator");
    sx_assert(d.cliques[e].size() == sn.size() + sep.size(), "clique size");
    for (size_t i = 0; i < sn.size(); i++) sx_assert(d.cliques[e][i] == d.permutation[sn[i]], "clique starts with its supernode");
    int last = -1;
    for (size_t i = 0; i < sep.size(); i++) {
      int v = sep[i];
      sx_assert(v >= 0 && v < nv && d.cliques[e][sn.size() + i] == d.permutation[v], "clique ends with its separator");
      sx_assert(owner[v] > e, "separator variables are eliminated later");
      sx_assert(d.permutation[v] > last, "separator listed in elimination order without repeats");
      last = d.permutation[v];
    }
  }
  // closure under elimination: every pair of separator variables has storage
  for (int e = 0; e < K; e++) {
    auto& sep = d.separators_original_labels[e];
    for (int a : sep)
      for (int b : sep) {
        if (pos[a] >= pos[b]) continue;
        int o = owner[a];
        sx_assert(owner[b] == o || Has(d.separators_original_labels[o], b), "fill-in of every elimination step has storage");
      }
  }
  // the numeric storage accepts the structure
  try {
    TriangularMatrixWorkspace ws(d.cliques, d.supernode_size);
    VectorXd mem(SizeOf(ws));
    Initialize(&ws, mem.data());
    for (int e = 0; e < K; e++) {
      sx_assert(ws.diagonal.at(e).rows() == d.supernode_size[e] && ws.diagonal.at(e).cols() == d.supernode_size[e], "diagonal block shape");
      sx_assert(ws.off_diagonal.at(e).rows() == d.supernode_size[e] &&
                    ws.off_diagonal.at(e).cols() == (int)d.separators_original_labels[e].size(), "off-diagonal block shape");
      auto& s = ws.seperator_diagonal.at(e);
      size_t n = d.separators_original_labels[e].size();
      sx_assert(s.size() == n * (n + 1) / 2, "separator block shape");
      for (double* p : s) sx_assert(p >= mem.data() && p < mem.data() + mem.size(), "separator addresses lie in the workspace");
    }
  } catch (...) {
    sx_assert(false, "storage exists for every entry the factorization touches");
  }
  sx_observe("first", d.permutation_inverse[0]);
  sx_witness("end");
}
