// P18: memory layout of the constraint workspaces.
#include "common.h"
#include "conex/cone_program.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_workspace.h"
#include "conex/workspace.h"
#include "conex/workspace_soc.h"
using namespace conex;
#ifndef TASK
#define TASK 1
#endif
#ifndef LIM
#define LIM 1000
#endif
// Regions [start, start+len) in doubles, relative to the buffer.
static long start[8], len[8];
static int cnt = 0;
static void Region(const double* base, const double* p, long l) {
  start[cnt] = p - base;
  len[cnt++] = l;
}
static void Check(long total) {
  for (int i = 0; i < cnt; i++) {
    sx_assert(start[i] >= 0 && start[i] + len[i] <= total, "every array lies inside the memory that was asked for");
    for (int j = 0; j < i; j++) sx_assert(start[i] + len[i] <= start[j] || start[j] + len[j] <= start[i], "arrays of one workspace do not overlap");
  }
}

// Maps are declared aligned: with a 16-byte aligned buffer they start at even offsets.
template <typename M>
static void Matrix(const double* base, const M& a, int r, int c) {
  sx_assert(a.rows() == r && a.cols() == c, "array has the size of the quantity it stores");
  Region(base, a.data(), (long)r * c);
  sx_assert((start[cnt - 1] & 1) == 0, "declared alignment is kept");
}
static void Arrays(const double* base, const WorkspaceLinear& w, int n, int m) {
  Matrix(base, w.W, n, 1);
  Matrix(base, w.temp_1, n, 1);
  Matrix(base, w.temp_2, n, 1);
  Matrix(base, w.weighted_constraints, n, m);
}
static void Arrays(const double* base, const WorkspaceSOC& w, int n, int) {
  Matrix(base, w.W1, n, 1);
  Matrix(base, w.temp1_1, n, 1);
  Matrix(base, w.temp2_1, n, 1);
  Matrix(base, w.temp3_1, n, 1);
  Region(base, w.W0, 1);
}
template <typename W>
static void ArraysPsd(const double* base, const W& w, int n) {
  Matrix(base, w.W, n, n);
  Matrix(base, w.temp_1, n, n);
  Matrix(base, w.temp_2, n, n);
}
static void Arrays(const double* base, const WorkspaceSchurComplement& w, int m, int residual) {
  Matrix(base, w.AW, m, 1);
  Matrix(base, w.AQc, m, 1);
  if (!residual) Matrix(base, w.G, m, m);
}
extern "C" void sx_main() {
  double* base = (double*)0x100000;
  int n = sx_int("n", 1, LIM), m = sx_int("m", 0, LIM);
#if TASK == 1
  WorkspaceLinear w(n, m);
  Initialize(&w, base);
  Arrays(base, w, n, m);
  Check(SizeOf(w));
#endif
#if TASK == 2
  WorkspaceSOC w(0);
  w.n_ = n;
  Initialize(&w, base);
  Arrays(base, w, n, 0);
  Check(SizeOf(w));
#endif
#if TASK == 3
  WorkspaceDensePSD w(n);
  Initialize(&w, base);
  ArraysPsd(base, w, n);
  Check(SizeOf(w));
  cnt = 0;
  WorkspaceDensePSD v(n, base);
  ArraysPsd(base, v, n);
  Check(SizeOf(v));
#endif
#if TASK == 4
  WorkspaceDenseHermitian w(n);
  Initialize(&w, base);
  ArraysPsd(base, w, n);
  Check(SizeOf(w));
  cnt = 0;
  WorkspaceDenseHermitian v(n, base);
  ArraysPsd(base, v, n);
  Check(SizeOf(v));
#endif
#if TASK == 5
  WorkspaceSchurComplement w(n);
  int residual = sx_choose("residual", 0, 1);
  w.residual_only_ = residual;
  Initialize(&w, base);
  sx_assert(w.initialized, "initialised");
  Arrays(base, w, n, residual);
  Check(SizeOf(w));
#endif
#if TASK == 6  // solve statistics
  WorkspaceStats w(n);
  sx_assert(!w.IsInitialized(), "not initialised before memory is bound");
  Initialize(&w, base);
  sx_assert(w.IsInitialized(), "initialised");
  Region(base, w.sqrt_inv_mu, n);
  Region(base, w.norm_inf_d, n);
  Region(base, w.c_scaling_, 1);
  Region(base, w.b_scaling_, 1);
  Check(SizeOf(w));
#endif
#if TASK == 7  // a whole program's list: consecutive workspaces of different kinds
  WorkspaceLinear a(n, m);
  WorkspaceSchurComplement b(m), s(sx_int("m2", 0, LIM));
  s.residual_only_ = true;
  WorkspaceDensePSD c(sx_int("k", 1, LIM));
  int kind = sx_choose("rotate", 0, 2);
  std::vector<Workspace> all;
  for (int i = 0; i < 3; i++) {
    int q = (i + kind) % 3;
    if (q == 0)
      all.emplace_back(&a);
    else if (q == 1)
      all.emplace_back(&b);
    else
      all.emplace_back(&c);
  }
  WorkspaceStats st(sx_int("iterations", 1, LIM));
  all.emplace_back(&st);
  all.emplace_back(&s);
  Initialize(&all, base);
  long total = SizeOf(all), lo[5], hi[5];
  auto span = [&](int i) {  // extent of the arrays collected since the last call
    lo[i] = start[0];
    hi[i] = start[0];
    for (int k = 0; k < cnt; k++) {
      if (start[k] < lo[i]) lo[i] = start[k];
      if (start[k] + len[k] > hi[i]) hi[i] = start[k] + len[k];
    }
    cnt = 0;
  };
  Arrays(base, a, n, m);
  span(0);
  Arrays(base, b, m, 0);
  span(1);
  ArraysPsd(base, c, c.n_);
  span(2);
  Region(base, st.sqrt_inv_mu, st.max_iter_);
  Region(base, st.norm_inf_d, st.max_iter_);
  Region(base, st.c_scaling_, 1);
  Region(base, st.b_scaling_, 1);
  span(3);
  Arrays(base, s, s.m_, 1);
  span(4);
  for (int i = 0; i < 5; i++) {
    sx_assert(lo[i] >= 0 && hi[i] <= total, "every workspace lies inside the memory that was asked for");
    for (int j = 0; j < i; j++) sx_assert(hi[i] <= lo[j] || hi[j] <= lo[i], "workspaces do not overlap");
  }
#endif
  sx_witness("end");
}
