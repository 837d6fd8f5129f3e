// Native runtime for harnesses: replays recorded inputs against real machine code.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <exception>
#include <stdexcept>
#include <unistd.h>
#include "sx.h"
static std::map<std::string, double> in;
static std::map<std::string, int> cnt;
static double tolr = 1e-6;
static int failed = 0;
static std::string key(const char* n) {
  int k = cnt[n]++;
  return std::string(n) + "#" + std::to_string(k);
}
static double get(const char* n) {
  std::string k = key(n);
  auto it = in.find(k);
  if (it == in.end()) return 0.0;
  return it->second;
}
static void fail(const char* label, double a, double b) {
  printf("FAIL %s %.17g %.17g\n", label, a, b);
  fflush(stdout);
  failed = 1;
}
extern "C" {
double sx_real(const char* n) { return get(n); }
static void bad(const char* why) {
  printf("BADINPUT %s\n", why);
  fflush(stdout);
  _exit(failed ? 1 : 3);
}
double sx_real_in(const char* n, double lo, double hi) {
  double v = get(n);
  if (!(v >= lo - 1e-9 && v <= hi + 1e-9)) bad(n);
  return v;
}
int sx_int(const char* n, int lo, int hi) {
  double v = get(n);
  int i = (int)v;
  if (i < lo || i > hi) { i = lo > 0 || hi < 0 ? lo : 0; }
  return i;
}
int sx_choose(const char* n, int lo, int hi) { return sx_int(n, lo, hi); }
void sx_assume(bool c) {
  if (!c) bad("assume");
}
void sx_assert(bool c, const char* l) {
  if (!c) fail(l, 0, 1);
}
static double slack(double a, double b) { return tolr * (1 + std::fabs(a) + std::fabs(b)); }
void sx_assert_eq(double a, double b, const char* l) {
  if (a == b) return;
  if (!(std::fabs(a - b) <= slack(a, b))) fail(l, a, b);
}
void sx_assert_near(double a, double b, double tol, const char* l) {
  if (a == b) return;
  if (!(std::fabs(a - b) <= tol + slack(a, b))) fail(l, a, b);
}
void sx_assert_le(double a, double b, const char* l) {
  if (!(a <= b + slack(a, b))) fail(l, a, b);
}
void sx_assert_lt(double a, double b, const char* l) {
  if (!(a < b + slack(a, b))) fail(l, a, b);
}
void sx_witness(const char*) {}
void sx_observe(const char* n, double v) { printf("OBS %s %.17g\n", key((std::string("obs:") + n).c_str()).c_str(), v); }
void sx_stop(const char*) {
  fflush(stdout);
  _exit(failed ? 1 : 0);
}
int sx_split(int v) { return v; }
int sx_symbolic(void) { return 0; }
void sx_havoc_bytes(void* p, long n) { memset(p, 0x7f, n); }
void sx_rand_fixed(int) {}
// rand() is an input too
int rand(void) __THROW {
  std::string k = std::string("rand#") + std::to_string(cnt["rand"]);
  if (in.count(k)) {
    cnt["rand"]++;
    double v = in[k];
    return v < 0 ? 0 : v > 2147483647.0 ? 2147483647 : (int)v;
  }
  static unsigned long long st = 88172645463325252ull;
  st ^= st << 13; st ^= st >> 7; st ^= st << 17;
  return (int)(st & 0x7fffffff);
}
void sx_main(void);
}
int main(int argc, char** argv) {
  if (argc > 1) {
    FILE* f = fopen(argv[1], "r");
    if (!f) return 4;
    char name[512];
    char val[256];
    while (fscanf(f, "%511s %255s", name, val) == 2) in[name] = strtod(val, nullptr);
    fclose(f);
  }
  if (getenv("SX_TOL")) tolr = atof(getenv("SX_TOL"));
  alarm(60);
  try {
    sx_main();
  } catch (std::exception& e) {
    printf("FAIL uncaught-exception 0 0 %s\n", e.what());
    return 1;
  } catch (...) {
    printf("FAIL uncaught-exception 0 0\n");
    return 1;
  }
  fflush(stdout);
  return failed ? 1 : 0;
}
