// P11: laws of the matrix algebras over R, C, H, O. P13 (TASK 10..): exponentials.
#include "common.h"
#include "conex/exponential_map.h"
#include "conex/exponential_map_pade.h"
using namespace conex;
using H = HyperComplexMatrix;
#ifndef TASK
#define TASK 1
#endif
#ifndef NMAX
#define NMAX 1
#endif
#ifndef DIM
#define DIM 4
#endif
constexpr int D = DIM;
using T = MatrixAlgebra<D>;
static H Any(const char* nm, int r, int c, double bound = 4) {
  H z(D);
  for (int k = 0; k < D; k++) z.at(k) = SymMatIn(nm, r, c, -bound, bound);
  return z;
}
static H Herm(const char* nm, int n, double bound = 4) {
  H z(D);
  for (int k = 0; k < D; k++) {
    z.at(k) = MatrixXd::Zero(n, n);
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++) {
        if (k && i == j) continue;
        double v = sx_real_in(nm, -bound, bound);
        z.at(k)(i, j) = v;
        if (i != j) z.at(k)(j, i) = k ? -v : v;
      }
  }
  return z;
}
static void Same(const H& a, const H& b, const char* l) {
  sx_assert(a.size() == D && b.size() == D, "number of components");
  for (int k = 0; k < D; k++) {
    sx_assert(a.at(k).rows() == b.at(k).rows() && a.at(k).cols() == b.at(k).cols(), "shape of a result");
    for (int i = 0; i < a.at(k).rows(); i++)
      for (int j = 0; j < a.at(k).cols(); j++) sx_assert_eq(a.at(k)(i, j), b.at(k)(i, j), l);
  }
}
static double TraceDot(const H& x, const H& y) {
  double s = 0;
  for (int k = 0; k < D; k++)
    for (int i = 0; i < x.at(k).rows(); i++)
      for (int j = 0; j < x.at(k).cols(); j++) s += x.at(k)(i, j) * y.at(k)(i, j);
  return s;
}
static H Lin(const H& a, double s, const H& b, double t) {
  H z(D);
  for (int k = 0; k < D; k++) z.at(k) = s * a.at(k) + t * b.at(k);
  return z;
}
extern "C" void sx_main() {
#if TASK == 1  // scalars: composition algebra with unit
  H x = Any("x", 1, 1), y = Any("y", 1, 1), e = T::Identity(1);
  H xy = T::Multiply(x, y);
  Same(T::Multiply(e, x), x, "identity is a left unit");
  Same(T::Multiply(x, e), x, "identity is a right unit");
  sx_assert_eq(TraceDot(xy, xy), TraceDot(x, x) * TraceDot(y, y), "norm is multiplicative");
  Same(T::ConjugateTranspose(xy), T::Multiply(T::ConjugateTranspose(y), T::ConjugateTranspose(x)), "conjugation reverses products");
  H n = T::Multiply(T::ConjugateTranspose(x), x);
  sx_assert_eq(n.at(0)(0, 0), TraceDot(x, x), "conj(x) x is the squared norm");
  for (int k = 1; k < D; k++) sx_assert_eq(n.at(k)(0, 0), 0, "conj(x) x is real");
  Same(T::Multiply(x, xy), T::Multiply(T::Multiply(x, x), y), "left alternative law");
  Same(T::Multiply(xy, y), T::Multiply(x, T::Multiply(y, y)), "right alternative law");
#if DIM <= 2
  Same(xy, T::Multiply(y, x), "real and complex scalars commute");
#endif
#if DIM <= 4
  H z = Any("z", 1, 1);
  Same(T::Multiply(xy, z), T::Multiply(x, T::Multiply(y, z)), "products associate");
#endif
#if DIM > 1  // each algebra extends the previous one
  using S = MatrixAlgebra<D / 2>;
  H xs(D / 2), ys(D / 2);
  for (int k = 0; k < D / 2; k++) {
    xs.at(k) = x.at(k);
    ys.at(k) = y.at(k);
  }
  for (int k = D / 2; k < D; k++) x.at(k).setZero(), y.at(k).setZero();
  H p = T::Multiply(x, y), q = S::Multiply(xs, ys);
  for (int k = 0; k < D; k++) sx_assert_eq(p.at(k)(0, 0), k < D / 2 ? q.at(k)(0, 0) : 0, "smaller algebra is a subalgebra");
#endif
#endif
#if TASK == 2  // matrices: products are the entrywise algebra's matrix product
  int r = sx_choose("r", 1, NMAX), m = sx_choose("m", 1, NMAX), c = sx_choose("c", 1, NMAX);
  H x = Any("x", r, m), y = Any("y", m, c);
  H p = T::Multiply(x, y), w(D);
  for (int k = 0; k < D; k++) w.at(k) = MatrixXd::Zero(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      for (int l = 0; l < m; l++) {
        H a(D), b(D);
        for (int k = 0; k < D; k++) {
          a.at(k) = MatrixXd::Constant(1, 1, x.at(k)(i, l));
          b.at(k) = MatrixXd::Constant(1, 1, y.at(k)(l, j));
        }
        H ab = T::Multiply(a, b);
        for (int k = 0; k < D; k++) w.at(k)(i, j) += ab.at(k)(0, 0);
      }
  Same(p, w, "matrix product is built from scalar products");
  H q = Any("x2", r, m);
  double s = sx_real_in("s", -4, 4), t = sx_real_in("t", -4, 4);
  Same(T::Add(x, q), Lin(x, 1, q, 1), "sum");
  Same(T::ScalarMultiply(x, s), Lin(x, s, x, 0), "scalar multiple");
  sx_assert_eq(T::TraceInnerProduct(x, q), TraceDot(x, q), "trace inner product");
  Same(T::Multiply(Lin(x, s, q, t), y), Lin(p, s, T::Multiply(q, y), t), "product is bilinear");
  H h = T::ConjugateTranspose(x);
  for (int k = 0; k < D; k++)
    for (int i = 0; i < r; i++)
      for (int j = 0; j < m; j++) sx_assert_eq(h.at(k)(j, i), k ? -x.at(k)(i, j) : x.at(k)(i, j), "conjugate transpose");
  Same(T::ConjugateTranspose(p), T::Multiply(T::ConjugateTranspose(y), h), "conjugate transpose reverses products");
  H z = T::Zero(r, m);
  for (int k = 0; k < D; k++)
    for (int i = 0; i < r; i++)
      for (int j = 0; j < m; j++) sx_assert_eq(z.at(k)(i, j), 0, "zero");
  H e = T::Identity(r);
  Same(T::Multiply(e, x), x, "identity");
#endif
#if TASK == 3  // Jordan algebra of Hermitian matrices
  int n = sx_choose("n", 1, NMAX);
  H x = Herm("x", n), y = Herm("y", n), e = T::Identity(n);
  H xy = T::JordanMultiply(x, y);
  Same(xy, T::ConjugateTranspose(xy), "Jordan product of Hermitian matrices is Hermitian");
  Same(xy, T::JordanMultiply(y, x), "Jordan product commutes");
  Same(xy, Lin(T::Multiply(x, y), .5, T::Multiply(y, x), .5), "Jordan product is the symmetrised product");
  Same(T::JordanMultiply(e, x), x, "identity is the Jordan unit");
  H x2 = T::JordanMultiply(x, x);
  Same(T::JordanMultiply(x, T::JordanMultiply(x2, y)), T::JordanMultiply(x2, xy), "Jordan identity");
  H qe = T::QuadraticRepresentation(x, e);
  Same(qe, x2, "quadratic representation maps the unit to the square");
  H q = T::QuadraticRepresentation(x, y);
  Same(q, Lin(T::JordanMultiply(x, xy), 2, T::JordanMultiply(x2, y), -1), "quadratic representation is 2 x(xy) - x^2 y");
#if DIM <= 4
  Same(q, T::Multiply(x, T::Multiply(y, x)), "quadratic representation is x y x");
#endif
  H z = Herm("z", n);
  sx_assert_eq(TraceDot(q, z), TraceDot(y, T::QuadraticRepresentation(x, z)), "quadratic representation is self-adjoint");
  sx_assert_eq(TraceDot(xy, z), TraceDot(x, T::JordanMultiply(y, z)), "trace form is associative");
  H m = T::MakeHermitian(Any("m", n, n));
  Same(m, T::ConjugateTranspose(m), "Hermitian part is Hermitian");
  Same(T::MakeHermitian(x), x, "Hermitian part of a Hermitian matrix is itself");
#endif
#if TASK == 4  // predicates
  int n = sx_choose("n", 1, NMAX);
  int kk = D > 2 ? sx_choose("component", 0, D - 1) : -1;  // one component at a time in the larger algebras
  auto some = [&](const char* nm) {
    H z = T::Zero(n, n);
    for (int k = 0; k < D; k++)
      if (kk < 0 || k == kk) z.at(k) = SymMatIn(nm, n, n, -1, 1);
    return z;
  };
  H x = some("x");
  double off = 0;
  for (int k = 0; k < D; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        double d = x.at(k)(i, j) - (k ? -x.at(k)(j, i) : x.at(k)(j, i));
        off += d * d;
      }
  bool herm = T::IsHermitian(x);
  if (off == 0) sx_assert(herm, "Hermitian matrices are recognised");
  if (off > 1e-6) sx_assert(!herm, "non-Hermitian matrices are rejected");
  H y = some("y");
  bool eq = T::IsEqual(x, y);
  double df = 0;
  for (int k = 0; k < D; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) df += (x.at(k)(i, j) - y.at(k)(i, j)) * (x.at(k)(i, j) - y.at(k)(i, j));
  if (df == 0) sx_assert(eq, "equal matrices compare equal");
  if (df > 1e-6) sx_assert(!eq, "different matrices compare different");
  sx_assert(T::IsEqual(x, x), "a matrix equals itself");
#endif
#if TASK == 10  // polynomial exponential: (I + x/4 + x^2/32)^4
  int n = sx_choose("n", 1, NMAX);
  double t = sx_real_in("t", -1, 1);
  H x(D), y = T::Zero(n, n);
  int cnt = 3;
  for (int k = 0; k < D; k++) {
    x.at(k) = MatrixXd(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        cnt = (cnt * 5 + 7) % 16;
        x.at(k)(i, j) = n == 1 && D <= 2 ? sx_real_in("x", -1, 1) : ((cnt - 7.5) / 8) * (cnt % 2 ? t : 1);
      }
  }
  ExponentialMap(x, &y);
  H p = Lin(Lin(T::Identity(n), 1, x, 0.25), 1, T::Multiply(x, x), 1.0 / 32);
  H p2 = T::Multiply(p, p);
  Same(y, T::Multiply(p2, p2), "exponential is (1 + x/4 + x^2/32)^4");
  // commuting with inverses is lost by truncation, but zero and scalars are exact in the limit
  H z = T::Zero(n, n), ez = T::Zero(n, n);
  ExponentialMap(z, &ez);
  Same(ez, T::Identity(n), "exponential of zero is the identity");
#endif
#if TASK == 11  // rational exponential
  int n = sx_choose("n", 1, NMAX);
  MatrixXd x(n, n);
  double t = n > 1 ? sx_real_in("t", -1, 1) : 0;
  int cnt = 3;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      cnt = (cnt * 5 + 7) % 16;
      x(i, j) = n == 1 ? sx_real_in("x", -2, 2) : ((cnt - 7.5) / 16) * (cnt % 2 ? t : 1);
    }
  VectorXd data(n * n + 4);
  conex::Ref y(data.data(), n, n);
  MatrixXd xc = x;
  ExponentialMapPadeApproximation(x, &y);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) sx_assert_eq(x(i, j), xc(i, j), "argument is not modified");
  MatrixXd I = MatrixXd::Identity(n, n), x2 = x * x, x3 = x2 * x;
  MatrixXd N = 120 * I + 60 * x + 12 * x2 + x3, De = 120 * I - 60 * x + 12 * x2 - x3, L = De * y;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) sx_assert_eq(L(i, j), N(i, j), "exponential is the [3/3] Pade approximant");
#endif
#if TASK == 12  // geodesic updates
  int n = sx_choose("n", 1, NMAX);
  double t = sx_real_in("t", -1, 1);
  int cnt = 3;
  H w = T::Zero(n, n), s = T::Zero(n, n);
  for (int k = 0; k < D; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j <= i; j++) {
        if (k && i == j) continue;
        cnt = (cnt * 5 + 7) % 16;
        double v = (cnt - 7.5) / 32 * (cnt % 2 ? t : 1) + (i == j), u = (7.5 - cnt) / 16 * (cnt % 2 ? 1 : t);
        w.at(k)(i, j) = v;
        s.at(k)(i, j) = u;
        if (i != j) w.at(k)(j, i) = k ? -v : v, s.at(k)(j, i) = k ? -u : u;
      }
  auto Q = [&](const H& a, const H& b) { return T::QuadraticRepresentation(a, b); };
  H g = GeodesicUpdateScaled(w, s);
  Same(g, T::ConjugateTranspose(g), "update is Hermitian");
  Same(g, Lin(Lin(w, 2.25, Q(w, s), 1.5), 1, Q(w, Q(s, w)), .25), "second-order geodesic update");
  // w + Q(w)s + sum_i (Q(w)Q(s))^i (w / (2i)! + Q(w)s / (2i+1)!)
  H got = GeodesicUpdate(w, s);
  H a = w, b = Q(w, s), sum = Lin(a, 1, b, 1);
  double f = 1;
  for (int i = 1; i < 6; i++) {
    a = Q(w, Q(s, a));
    b = Q(w, Q(s, b));
    f /= (2 * i - 1) * (2 * i) * 1.0;
    sum = Lin(Lin(sum, 1, a, f), 1, b, f / (2 * i + 1));
    f = f;
  }
  for (int k = 0; k < D; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) sx_assert_near(got.at(k)(i, j), sum.at(k)(i, j), 1e-9, "geodesic update is the exponential series to degree 11");
#endif
  sx_witness("end");
}
