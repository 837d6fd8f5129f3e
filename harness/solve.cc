// P19 and others: the outer iteration of Solve, run on constraints that answer
// with arbitrary values (Probe), with the real assembler and linear solver.
#include <any>
#include <list>
#include "common.h"
#include "conex/cone_program.h"
#include "conex/divergence.h"
using namespace conex;
using std::vector;
#ifndef TASK
#define TASK 1
#endif
#ifndef ITERS
#define ITERS 2
#endif
#ifndef PROBES
#define PROBES 1
#endif
#ifndef LINESEARCH
#define LINESEARCH 1
#endif
#ifndef THR
#define THR 1e5
#endif
#ifndef FINAL
#define FINAL 1
#endif
#ifndef ITERMIN
#define ITERMIN 1
#endif
#ifndef DUAL
#define DUAL 0
#endif
#ifndef WARM
#define WARM 0
#endif
#ifndef FREE
#define FREE 0
#endif
#ifndef NOFAIL
#define NOFAIL 0
#endif
#ifndef RESCALE
#define RESCALE 0
#endif
enum { MAXR = 16 };
struct Record {
  int asms = 0, steps = 0, takes = 0, ids = 0, affine_steps = 0, searches = 0, metrics = 0;
  double W[MAXR], Wend;
  double G[MAXR], AW[MAXR], AQc[MAXR], wc[MAXR], cQc[MAXR];
  int asm_at_step[MAXR];
  double y[MAXR], cw[MAXR], ew[MAXR], k[MAXR], ninf[MAXR], nsq[MAXR];
  double ay, acw, aew;
  int aasm;
  double taken[MAXR];
  int step_at_take[MAXR];
  double y0[MAXR], y1[MAXR], c0[MAXR], c1[MAXR], dub[MAXR], ub[MAXR], lb[MAXR], fail[MAXR];
  int asm_at_search[MAXR];
  double ym[MAXR], cm[MAXR], lmax[MAXR], lmin[MAXR], fro[MAXR], tr[MAXR];
  int asm_at_metric[MAXR];
};
static Record rec[2];
static double gmin = 0.5, gmax = 4;
static int badat = -1;
static bool fixed = false;  // answers of the first of two solves
static double In(const char* nm, double lo, double hi, bool fix = false) { return fixed || fix ? lo * 0.375 + hi * 0.625 : sx_real_in(nm, lo, hi); }
struct ProbeWorkspace {
  friend int SizeOf(const ProbeWorkspace&) { return 4; }
  friend void Initialize(ProbeWorkspace* o, double* p) { new (&o->W) Eigen::Map<MatrixXd, Eigen::Aligned>(p, 1, 1); }
  friend void print(const ProbeWorkspace&) {}
  Eigen::Map<MatrixXd, Eigen::Aligned> W{NULL, 0, 0};
};
struct Probe {
  Probe(int id) : id(id) {}
  int id;
  ProbeWorkspace w;
  ProbeWorkspace* workspace() { return &w; }
  int number_of_variables() { return 1; }
  friend int Rank(const Probe& o) { return 1 + o.id; }
  friend void SetIdentity(Probe* o) {
    rec[o->id].ids++;
    o->w.W(0, 0) = 1;
  }
  friend void ConstructSchurComplementSystem(Probe* o, bool init, SchurComplementSystem* s) {
    Record& r = rec[o->id];
    int i = r.asms++;
    r.W[i] = o->w.W(0, 0);
    if (i == badat) {
      s->setZero();
      s->G(0, 0) = -1;
      return;
    }
    r.G[i] = FREE ? 2 - 0.5 * i : In("G", gmin, gmax);
    r.AW[i] = FREE == 1 ? sx_real_in("AW", -4, 4) : 0.75 - i - o->id;
    r.AQc[i] = RESCALE && i == 0 ? (o->id ? 0 : 0.75) : FREE == 1 ? sx_real_in("AQc", -4, 4) : -0.5 + i + o->id;
    r.wc[i] = FREE == 2 ? sx_real_in("wc", -4, 4) : 1 - 2 * i;
    r.cQc[i] = FREE == 2 ? sx_real_in("cQc", 0, 4) : 1 + i;
    if (init) s->setZero();
    s->G(0, 0) += r.G[i];
    s->AW(0) += r.AW[i];
    s->AQc(0) += r.AQc[i];
    s->inner_product_of_w_and_c += r.wc[i];
    s->inner_product_of_c_and_Qc += r.cQc[i];
  }
  friend void PrepareStep(Probe* o, const StepOptions& opt, const Ref& y, StepInfo* info) {
    Record& r = rec[o->id];
    if (opt.affine) {
      r.affine_steps++;
      r.ay = y(0);
      r.acw = opt.c_weight;
      r.aew = opt.e_weight;
      r.aasm = r.asms - 1;
      o->w.W(0, 0) = 1 + o->id;
      return;
    }
    int i = r.steps++;
    r.asm_at_step[i] = r.asms - 1;
    r.y[i] = y(0);
    r.cw[i] = opt.c_weight;
    r.ew[i] = opt.e_weight;
    r.k[i] = opt.inv_sqrt_mu;
    info->norminfd = r.ninf[i] = o->id ? 1.75 * i + 0.25 : In("ninf", 0.001, 4);
    info->normsqrd = r.nsq[i] = 0.25;
  }
  friend bool TakeStep(Probe* o, const StepOptions& opt) {
    Record& r = rec[o->id];
    r.taken[r.takes] = opt.step_size;
    r.step_at_take[r.takes++] = r.steps - 1;
    o->w.W(0, 0) *= 1.5;
    return true;
  }
  friend void GetWeightedSlackEigenvalues(Probe* o, const Ref& y, double c_weight, WeightedSlackEigenvalues* p) {
    Record& r = rec[o->id];
    int i = r.metrics++;
    r.ym[i] = y(0);
    r.cm[i] = c_weight;
    r.asm_at_metric[i] = r.asms - 1;
    // spectra: usable, far from usable, indefinite, negative
    static const double hi[] = {1.5, 8, 2, -1, 0.25}, lo[] = {1, 0.001, -2, -3, 0.25};
    int c = sx_choose("spectrum", 0, 4);
    r.lmax[i] = p->lambda_max = hi[c];
    r.lmin[i] = p->lambda_min = lo[c];
    r.fro[i] = p->frobenius_norm_squared = hi[c] * hi[c] + o->id * lo[c] * lo[c];
    r.tr[i] = p->trace = hi[c] + o->id * lo[c];
  }
  friend bool PerformLineSearch(Probe* o, const LineSearchParameters& par, const Ref& y0, const Ref& y1, LineSearchOutput* out) {
    Record& r = rec[o->id];
    int i = r.searches++;
    r.y0[i] = y0(0);
    r.y1[i] = y1(0);
    r.c0[i] = par.c0_weight;
    r.c1[i] = par.c1_weight;
    r.dub[i] = par.dinf_upper_bound;
    r.asm_at_search[i] = r.asms - 1;
    r.fail[i] = fixed || NOFAIL ? 0 : sx_choose("searchfails", 0, 1);
    if (r.fail[i]) return true;
    r.ub[i] = out->upper_bound = In("upper", -2, 64, WARM && i);
    r.lb[i] = out->lower_bound = In("lower", -64, 2, WARM && (i || RESCALE));
    return false;
  }
};
static double Max(double a, double b) { return a < b ? b : a; }
static double Min(double a, double b) { return a < b ? a : b; }



// One call of Solve on `probes` probes; warm: scalings are those of the previous call.
struct Run {
  int probes = 1;
  bool warm = false, mode = false;  // scalings are kept; warm start asked for
  double bs = 1, cs = 1, Wbefore[2] = {1, 1};
};
static bool Check(Program& prog, const SolverConfiguration& cf, double b, const Run& run) {
  const int P = run.probes;
  for (int p = 0; p < P; p++) rec[p] = Record();
  VectorXd bv(1);
  bv(0) = b;
  double out[3] = {77, 78, 79};
  bool ret = Solve(bv, prog, cf, out + 1);
  auto& st = prog.stats;
  int n = rec[0].steps;
  double bs = st->b_scaling(), cs = st->c_scaling();
  sx_assert(ret == (prog.Status().solved != 0), "result and status agree");
  sx_assert(out[0] == 77 && out[2] == 79, "only the solution is written");
  sx_assert(n <= cf.max_iterations, "iteration limit is respected");
  double kmax = cf.inv_sqrt_mu_max;
  const bool rescaled = cf.enable_rescaling && !run.mode && cf.max_iterations > 0;
  if (!run.warm && rescaled) {
    sx_assert_eq(bs * (1 + (b < 0 ? -b : b)), 1, "cost scaling");
    double q = 0;
    for (int p = 0; p < P; p++) q += rec[p].AQc[0];
    sx_assert_eq(cs * (1 + (q < 0 ? -q : q)), 1, "constraint scaling");
  } else {
    sx_assert_eq(bs, run.warm ? run.bs : 1, "a cold start without rescaling has no scaling, a warm start keeps it");
    sx_assert_eq(cs, run.warm ? run.cs : 1, "a cold start without rescaling has no scaling, a warm start keeps it");
  }
  // for the scalings used here the product is a square of a rational
  bool stretch = cf.enable_rescaling && RESCALE && (run.warm || rescaled);
  if (stretch) kmax *= 1.75;
  int first = 0, resets = run.warm ? 0 : 1;
  bool fail0 = run.warm && badat == 0;
  if (fail0) first = 1, resets++;
  int last = n - 1;
  double dinf[MAXR], K[MAXR], B[MAXR], C[MAXR], Y[MAXR];
  int skipped = 0;  // first step not taken
  for (int i = 0; i < n; i++) {
    int it = i + first;  // iteration number
    double G = 0, AW = 0, AQc = 0, wc = 0, cQc = 0;
    int rank = 0;
    dinf[i] = 0;
    for (int p = 0; p < P; p++) {
      Record& r = rec[p];
      int a = r.asm_at_step[i];
      sx_assert(a == it, "the system is assembled once before each step");
      G += r.G[a], AW += r.AW[a], AQc += r.AQc[a], wc += r.wc[a], cQc += r.cQc[a];
      dinf[i] = Max(dinf[i], r.ninf[i]);
      rank += 1 + p;
    }
    if (i == 0 && run.mode && !fail0 && dinf[0] >= cf.warmstart_abort_threshold) skipped = 1, resets++;
    double k = K[i] = rec[0].k[i];
    sx_assert_eq(st->sqrt_inv_mu[it], k, "statistics record the parameter of each iteration");
    sx_assert_le(0.499999, k, "parameter stays within its limits");
    sx_assert_le(k, kmax, "parameter stays within its limits");
    Y[i] = rec[0].y[i];
    B[i] = b * Y[i] / cs;
    C[i] = (2 * wc + AQc * Y[i] - k * cQc * cs) / bs;
    for (int p = 0; p < P; p++) {
      Record& r = rec[p];
      sx_assert_eq(r.k[i], k, "constraints are stepped with the same parameter");
      sx_assert_eq(r.cw[i], k * cs, "step is towards slack k c - A y");
      sx_assert_eq(r.ew[i], 1, "step is towards slack k c - A y");
      sx_assert_eq(r.y[i] * G, k * (b * bs + AQc * cs) - 2 * AW, "step solves the Newton system of the current parameter");
      double d2 = dinf[i] * dinf[i];
      if (i < skipped) continue;
      sx_assert(r.step_at_take[i - skipped] == i, "each step is taken once");
      double s = r.taken[i - skipped];
      sx_assert(((d2 <= 2.000001) & (s == 1)) | ((d2 >= 1.999999) & (s * d2 > 1.999999) & (s * d2 < 2.000001)), "step is damped by 2 over its squared norm and never extended");
    }
    // barrier parameter
    bool final = (i > 0 && K[i - 1] >= kmax) || it >= cf.max_iterations - cf.final_centering_steps;
    bool centring = it > 0 && final && !(i == 1 && skipped) && !(fail0 && i == 0);
    double prev = i ? K[i - 1] : 0, want;
    if (centring) {
      sx_assert_eq(k, prev, "parameter is kept while centring");
      continue;
    }
#if LINESEARCH
    bool ok = true;
    double ub = 1e30, lb = -1e30;
    for (int p = 0; p < P && ok; p++) {
      Record& r = rec[p];
      int j = 0;
      while (j < r.searches && r.asm_at_search[j] != it) j++;
      sx_assert(j < r.searches, "the parameter is searched for on every constraint");
      if (j >= r.searches) return ret;
      sx_assert_eq(r.y0[j] * G, -2 * AW, "search runs between the Newton solutions at parameters 0 and 1");
      sx_assert_eq(r.y1[j] * G, b * bs + AQc * cs - 2 * AW, "search runs between the Newton solutions at parameters 0 and 1");
      sx_assert_eq(r.c0[j], 0, "search runs between the Newton solutions at parameters 0 and 1");
      sx_assert_eq(r.c1[j], cs, "search runs between the Newton solutions at parameters 0 and 1");
      sx_assert_eq(r.dub[j], cf.dinf_upper_bound, "search uses the configured norm bound");
      if (r.fail[j])
        ok = false;
      else
        ub = Min(ub, r.ub[j]), lb = Max(lb, r.lb[j]);
    }
    ok = ok && lb <= ub && ub >= 0;
    want = !ok ? prev : ub > 0 ? ub : prev / 2;
#else
    WeightedSlackEigenvalues e;
    e.rank = rank;
    e.lambda_max = -1e30, e.lambda_min = 1e30, e.frobenius_norm_squared = e.trace = 0;
    for (int p = 0; p < P; p++) {
      Record& r = rec[p];
      int j = 0;
      while (j < r.metrics && r.asm_at_metric[j] != it) j++;
      sx_assert(j < r.metrics, "the parameter comes from the slack of every constraint");
      if (j >= r.metrics) return ret;
      sx_assert_eq(r.ym[j] * G, AQc * cs - b * bs, "slack is weighted at the point that combines primal and dual error");
      sx_assert_eq(r.cm[j], cs, "slack is weighted at the point that combines primal and dual error");
      e.lambda_max = Max(e.lambda_max, r.lmax[j]), e.lambda_min = Min(e.lambda_min, r.lmin[j]);
      e.frobenius_norm_squared += r.fro[j], e.trace += r.tr[j];
    }
    want = DivergenceUpperBoundInverse(cf.divergence_upper_bound * rank, e);
    if (want == -1 && e.lambda_min > 0) want = 2 / (e.lambda_min + e.lambda_max);
    if (want < 0 && e.trace > 1e-12) {
      double ks = e.trace / e.frobenius_norm_squared;
      auto f = [&](double x) { return x * x * e.frobenius_norm_squared - 2 * x * e.trace + rank; };
      double target = Min(1.5 * f(ks), 0.7 * rank);
      if (k < kmax && k > 0.51) {
        sx_assert(k >= ks - 1e-9, "fallback parameter attains the norm bound beyond the minimiser");
        sx_assert_near(f(k) < target ? f(k) : f(k), f(ks) > target ? f(ks) : target, 1e-6, "fallback parameter attains the norm bound beyond the minimiser");
      }
      continue;
    }
    if (want <= 0) want = prev / 2;
#endif
    if (want > kmax) want = kmax;
    if (want < 0.5) {
      sx_assert_near(k, 0.5, 1e-6, "parameter is the one chosen, within limits");
    } else
      sx_assert_near(k, want, 1e-6, "parameter is the one chosen, within limits");
  }
  for (int p = 0; p < P; p++) {
    Record& r = rec[p];
    sx_assert(r.takes == n - skipped && r.steps == n, "each step is taken once");
    sx_assert(r.ids == resets, "scalings are reset by cold starts and aborted warm starts only");
    if (r.asms) sx_assert_eq(r.W[0], run.warm ? run.Wbefore[p] : 1, "a warm start continues from the previous scalings");
  }
  if (n) sx_assert(st->num_iter == n + first, "number of iterations is recorded");
  sx_assert(prog.Status().num_iterations == (n ? n + first : 0) || (badat >= 0 && !ret), "number of iterations is reported");
  double k = n ? K[last] : 0;
  if (ret) {
    sx_assert(n > 0, "success needs a step");
    bool centred = dinf[last] <= cf.final_centering_tolerance;
    int fc = 0;
    for (int i = 1; i < n; i++) fc += K[i - 1] >= kmax || i + first >= cf.max_iterations - cf.final_centering_steps;
    sx_assert(centred || (fc >= cf.final_centering_steps && n + first < cf.max_iterations), "success only after convergence or all final centring steps within the iteration limit");
    sx_assert(1 <= k * k * cf.infeasibility_threshold * 1.0000001, "no success while the barrier parameter is above the infeasibility threshold");
    sx_assert_eq(out[1] * k * cs, Y[last], "solution is the last Newton solution divided by parameter and scaling");
    sx_assert(!prog.Status().primal_infeasible && !prog.Status().dual_infeasible, "success excludes infeasibility");
    sx_witness("solved");
  } else if (n) {
    bool failed = rec[0].asms > n + first + rec[0].affine_steps;
    int primal = prog.Status().primal_infeasible != 0, dual = prog.Status().dual_infeasible != 0;
    double kkt = k * k * cf.infeasibility_threshold;
    if (failed) {
      sx_assert(!(primal | dual), "infeasibility is reported only above its threshold");
    } else {
      sx_assert((k < kmax) | (kkt < 1.000001) | (dinf[last] > cf.final_centering_tolerance), "convergence at the target parameter is success");
      sx_assert((kkt < 1.000001) | !(primal | dual), "infeasibility is reported only above its threshold");
      sx_assert((kkt > 0.999999) | ((C[last] < -0.499999) & primal) | ((C[last] > -0.500001) & !primal), "primal infeasibility is reported exactly when the dual ray improves");
      sx_assert((kkt > 0.999999) | ((B[last] > 0.499999) & dual) | ((B[last] < 0.500001) & !dual), "dual infeasibility is reported exactly when the primal ray improves");
    }
    sx_witness("unsolved");
  }
  if (cf.prepare_dual_variables && !(badat > 0)) {
    double G = 0, AW = 0;
    for (int p = 0; p < P; p++) {
      Record& r = rec[p];
      sx_assert(r.affine_steps == 1, "dual variables are prepared once");
      if (r.affine_steps != 1) return ret;
      sx_assert(r.aasm == n + first, "dual variables come from the final scalings");
      G += r.G[r.aasm], AW += r.AW[r.aasm];
    }
    for (int p = 0; p < P; p++) {
      Record& r = rec[p];
      sx_assert_eq(r.ay * G, k * b * bs - AW, "dual variables satisfy their equations");
      sx_assert_eq(r.acw, 0, "dual variables satisfy their equations");
      sx_assert_eq(r.aew, 0, "dual variables satisfy their equations");
      double x[3] = {55, 56, 57};
      Eigen::Map<MatrixXd> xm(x + 1, 1, 1);
      sx_assert(prog.GetDualVariableSize(p) == 1, "size of the dual variable");
      prog.GetDualVariable(p, &xm);
      sx_assert(x[0] == 55 && x[2] == 57, "only the dual variable is written");
      double W = 1 + p;  // set by the affine step
      if (prog.Status().primal_infeasible || n == 0)
        sx_assert_eq(x[1], W, "dual ray is returned unscaled");
      else
        sx_assert_eq(x[1] * k * bs, W, "dual variable is unscaled by parameter and cost scaling");
    }
  } else
    for (int p = 0; p < P; p++) sx_assert(rec[p].affine_steps == 0, "dual variables are prepared on request only");
  return ret;
}

extern "C" void sx_main() {
  Program prog(1);
  for (int p = 0; p < PROBES; p++) sx_assert(prog.AddConstraint(Probe(p)) == CONEX_SUCCESS, "constraint is accepted");
#ifdef QUAD  // as with quadratic costs: no duality gap to watch
  prog.contains_quadratic_costs_ = true;
#endif
  SolverConfiguration cf;
  cf.max_iterations = sx_choose("iterations", ITERMIN, ITERS);
  cf.final_centering_steps = FINAL;
  cf.final_centering_tolerance = 0.25;
  cf.enable_rescaling = RESCALE;
  cf.enable_line_search = LINESEARCH;
  cf.inv_sqrt_mu_max = 16;
  cf.maximum_mu = 4;
  cf.infeasibility_threshold = THR;
  cf.prepare_dual_variables = DUAL;
  Run run;
  run.probes = PROBES;
#ifdef BADFACTOR
  badat = sx_choose("badat", 0, ITERS);
#endif
  double b = RESCALE || WARM ? 0.75 : sx_real_in("b", -4, 4);
  fixed = WARM;
  bool ret = Check(prog, cf, b, run);
  fixed = false;
  if (badat == 0) sx_assert(!ret && rec[0].steps == 0, "no success when factorization fails");
#if WARM
  // a second solve that continues from the first
  run.warm = run.mode = true;
  run.bs = prog.stats->b_scaling();
  run.cs = prog.stats->c_scaling();
  int kind = sx_choose("second", 0, 3);  // same, constraint added, another program on the same memory, on empty memory
  if (kind == 1) {
    sx_assert(prog.AddConstraint(Probe(PROBES)) == CONEX_SUCCESS, "constraint is accepted");
    run.probes++;
    run.warm = false;
    run.bs = run.cs = 1;
  }
  VectorXd empty;
  if (kind == 3) {
    run.warm = false;
    run.bs = run.cs = 1;
  }
  for (int p = 0; p < PROBES; p++) run.Wbefore[p] = std::any_cast<Probe>(&(p ? prog.kkt_system_manager_.eqs.back() : prog.kkt_system_manager_.eqs.front()).obj)->w.W(0, 0);
  cf.initialization_mode = CONEX_INITIALIZATION_MODE_WARMSTART;
  cf.max_iterations = sx_choose("iterations2", 1, ITERS + 1);
  cf.warmstart_abort_threshold = 2;
  badat = sx_choose("badat", -1, 0);
  sx_assume(run.warm || badat < 0);
  if (kind >= 2) {
    Program other(1, kind == 2 ? &prog.memory_ : &empty);
    for (int p = 0; p < PROBES; p++) sx_assert(other.AddConstraint(Probe(p)) == CONEX_SUCCESS, "constraint is accepted");
#ifdef QUAD
    other.contains_quadratic_costs_ = true;
#endif
    Check(other, cf, 0.5, run);
  } else
    Check(prog, cf, 0.5, run);
#endif
  sx_witness("end");
}
