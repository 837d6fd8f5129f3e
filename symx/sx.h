// Harness API. The same harness source is (1) executed symbolically by symx on
// LLVM IR and (2) compiled natively (native.cc) to replay counterexamples and
// to validate the executor against the real machine code.
#pragma once
#include <cmath>
extern "C" {
// A fresh symbolic real number. Native: value read from the input file.
double sx_real(const char* name);
// A fresh symbolic real constrained to lo <= x <= hi.
double sx_real_in(const char* name, double lo, double hi);
// A fresh symbolic 32-bit integer in [lo, hi] (bit-vector; not enumerated up front).
int sx_int(const char* name, int lo, int hi);
// A symbolic choice in [lo, hi]; every value is explored on its own path.
int sx_choose(const char* name, int lo, int hi);
// v, split by the solver into one path per feasible value
int sx_split(int v);
void sx_assume(bool c);
void sx_assert(bool c, const char* label);
// |a-b| == 0 over the reals (native: relative tolerance 1e-6)
void sx_assert_eq(double a, double b, const char* label);
// |a-b| <= tol over the reals (native: tol + 1e-6 relative)
void sx_assert_near(double a, double b, double tol, const char* label);
// a <= b over the reals
void sx_assert_le(double a, double b, const char* label);
// a < b over the reals (native: a < b + tolerance)
void sx_assert_lt(double a, double b, const char* label);
// reachability witness: must be reached on at least one feasible path
void sx_witness(const char* label);
// value compared between executor and native run on sampled paths
void sx_observe(const char* name, double v);
// stop this path silently (cut; recorded)
void sx_stop(const char* why);
// 1 when running under the symbolic executor
int sx_symbolic(void);
// 1: rand() returns one fixed sequence instead of arbitrary values
void sx_rand_fixed(int on);
// declares that the byte range is uninitialised (symbolic havoc on read)
void sx_havoc_bytes(void* p, long n);
// abstract a value: replace by a fresh atom known only to equal the expression's sign facts
}
