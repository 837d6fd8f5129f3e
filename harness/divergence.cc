// P14: divergence bound and its inverse (choice of the barrier parameter).
#include "common.h"
#include "conex/divergence.h"
using namespace conex;
#ifndef TASK
#define TASK 1
#endif
// MODE 0: rank-one slack; 1: two eigenvalues; 2: any consistent statistics
#ifndef SPEC
#define SPEC 1
#endif
static double Bound(double k, const WeightedSlackEigenvalues& p) {
  double a = std::fabs(k * p.lambda_max - 1), b = std::fabs(k * p.lambda_min - 1), m = a < b ? b : a;
  return (k * k * p.frobenius_norm_squared - 2 * k * p.trace + p.rank) / (1 - m);
}
extern "C" void sx_main() {
  WeightedSlackEigenvalues p;
#if TASK == 1
  p.lambda_min = sx_real_in("lmin", -8, 8);
  p.lambda_max = sx_real_in("lmax", -8, 8);
  sx_assume(p.lambda_min <= p.lambda_max);
  p.frobenius_norm_squared = sx_real_in("f", 0, 64);
  p.trace = sx_real_in("tr", -64, 64);
  p.rank = sx_int("rank", 1, 1) * 3;
  double k = sx_real_in("k", 0.01, 8);
  double a = k * p.lambda_max - 1, b = k * p.lambda_min - 1;
  sx_assume(a * a != 1 && b * b != 1);
  double n = k * k * p.frobenius_norm_squared - 2 * k * p.trace + p.rank;
  double got = DivergenceUpperBound(k, p);
  double m = a * a > b * b ? (a > 0 ? a : -a) : (b > 0 ? b : -b);
  sx_assert_eq(got * (1 - m), n, "bound is (k^2 F - 2 k tr + rank) / (1 - max |k lambda - 1|)");
#endif
#if TASK == 2
  double l1 = sx_real_in("l1", 0.25, 4), l2;
#if SPEC == 0
  l2 = l1;
  p.rank = 1;
  p.frobenius_norm_squared = l1 * l1;
  p.trace = l1;
#else
  l2 = l1 + sx_real_in("gap", 0, 4);
  p.rank = 2;
  p.frobenius_norm_squared = l1 * l1 + l2 * l2;
  p.trace = l1 + l2;
#endif
  p.lambda_min = l1;
  p.lambda_max = l2;
  double c = sx_real_in("bound", 0.125, 4);
  double k = DivergenceUpperBoundInverse(c, p);
  sx_observe("k", k);
  double t = sx_real_in("t", 0.01, 8);
  sx_assume(t * l2 < 2);
  double den = t * l1 < 2 - t * l2 ? t * l1 : 2 - t * l2;
  double num = t * t * p.frobenius_norm_squared - 2 * t * p.trace + p.rank;
  if (k == -1) {
    sx_assert(num - c * den > -1e-9, "no solution is reported only when the bound stays above the target");
    sx_witness("none");
  } else {
    sx_assert_lt(0, k, "solution is positive");
    sx_assert_lt(k * l2, 2, "bound is finite at the solution");
    double dk = k * l1 < 2 - k * l2 ? k * l1 : 2 - k * l2;
    sx_assert_eq(k * k * p.frobenius_norm_squared - 2 * k * p.trace + p.rank, c * dk, "solution attains the target");
    if (t > k + 1e-6) sx_assert(num >= c * den, "solution is the largest one");
    sx_witness("some");
  }
#endif
  sx_witness("end");
}
