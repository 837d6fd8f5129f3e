#pragma once
#include <Eigen/Dense>
#include <memory>
#include <string>
#include <vector>
#include "sx.h"
using Eigen::MatrixXd;
using Eigen::VectorXd;
inline MatrixXd SymMat(const char* nm, int r, int c) {
  MatrixXd A(r, c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++) A(i, j) = sx_real(nm);
  return A;
}
inline MatrixXd SymMatIn(const char* nm, int r, int c, double lo, double hi) {
  MatrixXd A(r, c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++) A(i, j) = sx_real_in(nm, lo, hi);
  return A;
}
inline MatrixXd SymSymmetric(const char* nm, int n) {
  MatrixXd A(n, n);
  for (int j = 0; j < n; j++)
    for (int i = j; i < n; i++) A(j, i) = A(i, j) = sx_real(nm);
  return A;
}
// A symbolic integer split by the solver into its feasible values.
inline int Pick(const char* nm, int lo, int hi) { return sx_split(sx_int(nm, lo, hi)); }
