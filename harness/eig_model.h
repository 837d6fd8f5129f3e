// Model of Eigen's iterative tridiagonal eigenvalue solver for symbolic
// execution: the exact eigenvalues, in ascending order, for sizes 1 and 2.
// Native builds (replay, conformance) use Eigen itself.
#pragma once
#ifndef EIGEN_RUNTIME_NO_MALLOC
#define EIGEN_RUNTIME_NO_MALLOC
#endif
#include <Eigen/Dense>
#include "sx.h"
namespace Eigen {
template <>
inline SelfAdjointEigenSolver<MatrixXd>& SelfAdjointEigenSolver<MatrixXd>::computeFromTridiagonal(const RealVectorType& diag,
                                                                                                const SubDiagonalType& sub, int) {
  int n = diag.size();
  m_eivalues.resize(n);
  if (n == 1) m_eivalues(0) = diag(0);
  if (n == 2) {
    double h = (diag(0) - diag(1)) / 2, m = (diag(0) + diag(1)) / 2;
    double r = std::sqrt(h * h + sub(0) * sub(0));
    m_eivalues(0) = m - r;
    m_eivalues(1) = m + r;
  }
  if (n > 2) sx_stop("eigenvalues of a tridiagonal matrix larger than 2x2");
  m_info = Success;
  m_isInitialized = true;
  m_eigenvectorsOk = false;
  return *this;
}
}  // namespace Eigen
