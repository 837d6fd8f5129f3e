// Shared assertions about one cone's contribution to the Newton system.
#pragma once
#include "common.h"
#include "conex/constraint.h"
#include "conex/newton_step.h"
namespace conex {
// Reference values, computed by the harness from the mathematical definitions.
struct Expected {
  MatrixXd G;
  VectorXd AW, AQc;
  double wc, cqc;
};
template <typename C>
void BindWorkspace(C* con, VectorXd* mem) {
  mem->resize(SizeOf(*con->workspace()));
  Initialize(con->workspace(), mem->data());
}
inline void CompareSystem(const SchurComplementSystem& sys, const Expected& e, double k, const char* suffix) {
  int m = e.AW.rows();
  static char buf[5][128];
  const char* base[5] = {"G = A' Q(w) A", "AW = A' w", "AQc = A' Q(w) c", "<w,c>", "<c,Q(w)c>"};
  for (int q = 0; q < 5; q++) {
    int p = 0;
    for (const char* t = base[q]; *t; t++) buf[q][p++] = *t;
    for (const char* t = suffix; *t; t++) buf[q][p++] = *t;
    buf[q][p] = 0;
  }
  for (int i = 0; i < m; i++) {
    for (int j = 0; j <= i; j++) {
      sx_assert_eq(sys.G(i, j), k * e.G(i, j), buf[0]);
      sx_observe("G", sys.G(i, j));
    }
    sx_assert_eq(sys.AW(i, 0), k * e.AW(i), buf[1]);
    sx_assert_eq(sys.AQc(i, 0), k * e.AQc(i), buf[2]);
    sx_observe("AW", sys.AW(i, 0));
    sx_observe("AQc", sys.AQc(i, 0));
  }
  sx_assert_eq(sys.inner_product_of_w_and_c, k * e.wc, buf[3]);
  sx_assert_eq(sys.inner_product_of_c_and_Qc, k * e.cqc, buf[4]);
  sx_observe("wc", sys.inner_product_of_w_and_c);
  sx_observe("cqc", sys.inner_product_of_c_and_Qc);
}
// Overwrites whatever the system held (initialize), then adds on top of it.
template <typename C>
void CheckSchur(C* con, const Expected& e, int accumulate = 1) {
  SchurComplementSystem sys(e.AW.rows());
  VectorXd mem(SizeOf(sys));
  Initialize(&sys, mem.data());
  ConstructSchurComplementSystem(con, true, &sys);
  CompareSystem(sys, e, 1, "");
  if (!accumulate) return;
  ConstructSchurComplementSystem(con, false, &sys);
  CompareSystem(sys, e, 2, " (accumulated on top of an existing system)");
  ConstructSchurComplementSystem(con, true, &sys);
  CompareSystem(sys, e, 1, " (overwriting an existing system)");
}
}  // namespace conex
