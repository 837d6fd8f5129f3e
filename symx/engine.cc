// symx: a symbolic executor for LLVM IR (C++ via clang) with exact-real
// semantics for double, bit-vector semantics for integers, concrete host
// memory with a symbolic shadow, process-fork path exploration and z3 as the
// deciding solver.
#include "engine.h"

#include <dlfcn.h>
#include <sstream>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <stdexcept>
#include <cxxabi.h>

using namespace llvm;
using std::string;
using std::vector;

static Shm* shm;
static string outdir;
static double t0;
static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
struct Config {
  double deadline = 300;
  long maxInstr = 60000000;
  long maxPaths = 200000;
  int jobs = 8;
  unsigned rlimit = 4000000;
  double qtimeout = 20;      // external / forked query seconds
  double aqtimeout = 40;     // assertion queries
  int enumCap = 80;
  int sampleEvery = 0;       // conformance samples wanted
  bool verbose = false;
  unsigned seed = 1;
  string dumpQueries;
} opt_;

struct PathEnd {
  int kind;
};
struct Unsup {
  string msg;
};

static ShmLabel* label(ShmLabel* tab, int n, const string& s) {
  size_t h = std::hash<string>()(s) % n;
  for (int i = 0; i < n; i++) {
    ShmLabel& L = tab[(h + i) % n];
    int u = L.used.load();
    if (u == 0) {
      int e = 0;
      if (L.used.compare_exchange_strong(e, 1)) {
        strncpy(L.name, s.c_str(), sizeof(L.name) - 1);
        L.used.store(2);
        return &L;
      }
      u = L.used.load();
    }
    while (L.used.load() == 1) usleep(10);
    if (strncmp(L.name, s.c_str(), sizeof(L.name) - 1) == 0) return &L;
  }
  return &tab[0];
}
static void logmsg(const string& s) { label(shm->msgs, 128, s)->reached++; }

// ---------------------------------------------------------------- terms
static z3::context* Z;
static rf::World W;
static vector<z3::expr>* IT;  // int/bool terms
static vector<rf::RF>* RT;    // real terms
static vector<z3::expr>* atomZ;
struct IntVar {
  string name;
  int w;
  z3::expr e;
  bool input;
};
static vector<IntVar>* intVars;
static std::unordered_map<string, int> nameCount;
struct InputRec {
  string key;
  bool real;
  int ix;  // atom or intvar, -1: constant
  double c;
};
static vector<InputRec> inputs;
struct ObsRec {
  string key;
  Val v;
};
static vector<ObsRec> observed;

struct RCond {
  int poly;
  int mask;
};
static std::unordered_map<unsigned, RCond>* rcondOf;  // ast id -> sign condition
struct PCItem {
  z3::expr e;
  vector<int> vars;
};
static vector<PCItem>* PC;
static const int IV = 1000000;  // int var offset in var ids

static std::mt19937_64 rng(12345);
static vector<vector<double>> pool;
static bool poolSupported = true;
static vector<double> lowB, highB;  // sampling bounds per atom
static bool pathMaybe = false;      // feasibility of the path not established

static std::unordered_map<unsigned, vector<int>>* varCache;
static int atomOfName(const string& n);
static std::unordered_map<string, int> atomByZ;

static void collectVars(const z3::expr& e, vector<int>& out, std::unordered_set<unsigned>& seen) {
  if (!seen.insert(e.id()).second) return;
  if (!e.is_app()) return;
  if (e.num_args() == 0) {
    if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED) {
      auto it = atomByZ.find(e.decl().name().str());
      if (it != atomByZ.end()) out.push_back(it->second);
    }
    return;
  }
  for (unsigned i = 0; i < e.num_args(); i++) collectVars(e.arg(i), out, seen);
}
static const vector<int>& varsOf(const z3::expr& e) {
  auto it = varCache->find(e.id());
  if (it != varCache->end()) return it->second;
  vector<int> v;
  std::unordered_set<unsigned> seen;
  collectVars(e, v, seen);
  // a root or function value depends on its argument
  std::set<int> all(v.begin(), v.end());
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i] >= IV) continue;
    auto& a = W.atoms[v[i]];
    auto dep = [&](const rf::Poly& p) {
      for (auto& t : p)
        for (auto& ve : W.mt.v[t.m])
          if (all.insert(ve.first).second) v.push_back(ve.first);
    };
    if (a.kind == 1) dep(W.polys[a.sq_poly]);
    if (a.kind == 2) {
      dep((*RT)[a.arg].n);
      for (auto& fe : (*RT)[a.arg].d) dep(W.polys[fe.first]);
    }
  }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  static vector<z3::expr>* keep = new vector<z3::expr>();
  keep->push_back(e);
  return (*varCache)[e.id()] = v;
}

static z3::expr zq(const mpq_class& q) { return Z->real_val(q.get_str().c_str()); }
static z3::expr polyZ(const rf::Poly& p) {
  if (p.empty()) return Z->real_val(0);
  z3::expr_vector ts(*Z);
  for (auto& t : p) {
    z3::expr_vector fs(*Z);
    const rf::MonoV& m = W.mt.v[t.m];
    if (t.c != 1 || m.empty()) fs.push_back(zq(t.c));
    for (auto& ve : m)
      for (uint32_t k = 0; k < ve.second; k++) fs.push_back((*atomZ)[ve.first]);
    if (fs.size() == 1)
      ts.push_back(fs[0]);
    else {
      vector<Z3_ast> a;
      for (unsigned i = 0; i < fs.size(); i++) a.push_back(fs[i]);
      ts.push_back(z3::expr(*Z, Z3_mk_mul(*Z, a.size(), a.data())));
    }
  }
  if (ts.size() == 1) return ts[0];
  vector<Z3_ast> a;
  for (unsigned i = 0; i < ts.size(); i++) a.push_back(ts[i]);
  return z3::expr(*Z, Z3_mk_add(*Z, a.size(), a.data()));
}
static vector<z3::expr>* polyZc;  // cache by poly id
static z3::expr polyIdZ(int id) {
  while ((int)polyZc->size() <= id) polyZc->push_back(z3::expr(*Z));
  if (!(bool)((*polyZc)[id])) (*polyZc)[id] = polyZ(W.polys[id]);
  return (*polyZc)[id];
}
static z3::expr rcondExpr(int poly, int mask) {
  if (mask == 0) return Z->bool_val(false);
  if (mask == 7) return Z->bool_val(true);
  z3::expr p = polyIdZ(poly), z = Z->real_val(0);
  z3::expr e(*Z);
  switch (mask) {
    case 1: e = p < z; break;
    case 2: e = p == z; break;
    case 3: e = p <= z; break;
    case 4: e = p > z; break;
    case 5: e = p != z; break;
    default: e = p >= z; break;
  }
  static vector<z3::expr>* keep = new vector<z3::expr>();
  if (rcondOf->emplace(e.id(), RCond{poly, mask}).second) keep->push_back(e);
  return e;
}

// ---------------------------------------------------------------- sampling
static double randVal(double lo, double hi) {
  double r;
  bool fl = std::isfinite(lo), fh = std::isfinite(hi);
  if (fl && fh) {
    int m = rng() % 8;
    if (m == 0) return lo;
    if (m == 1) return hi;
    r = lo + (hi - lo) * ((rng() % 1001) / 1000.0);
    if (m < 5 && hi - lo >= 2) r = std::min(hi, std::max(lo, std::round(r)));
    return r;
  }
  int m = rng() % 10;
  if (m < 6)
    r = (double)((long)(rng() % 7) - 3);
  else if (m < 9)
    r = ((long)(rng() % 81) - 40) / 8.0;
  else
    r = ((long)(rng() % 20001) - 10000) / 100.0;
  if (fl) r = lo + std::fabs(r);
  if (fh) r = hi - std::fabs(r);
  return r;
}
static double evalFun(int f, double x) {
  switch (f) {
    case 1: return std::exp(x);
    case 2: return std::log(x);
    case 3: return std::cos(x);
    case 4: return std::sin(x);
  }
  return NAN;
}
static bool fillDerived(vector<double>& s, size_t from) {
  for (size_t i = from; i < W.atoms.size(); i++) {
    auto& a = W.atoms[i];
    if (a.kind == 1) {
      double sc;
      double v = W.evalPoly(W.polys[a.sq_poly], s, &sc);
      if (v < 0) {
        if (v < -1e-9 * (1 + sc)) return false;
        v = 0;
      }
      s[i] = std::sqrt(v);
    } else if (a.kind == 2) {
      if (!a.fun) return false;
      s[i] = evalFun(a.fun, W.eval((*RT)[a.arg], s));
      if (!std::isfinite(s[i])) return false;
    }
  }
  return true;
}
static void poolExtend() {  // called after an atom was created
  size_t i = W.atoms.size() - 1;
  while (lowB.size() < W.atoms.size()) {
    lowB.push_back(-INFINITY);
    highB.push_back(INFINITY);
  }
  vector<vector<double>> np;
  for (auto& s : pool) {
    s.resize(i + 1);
    if (W.atoms[i].kind == 0)
      s[i] = randVal(lowB[i], highB[i]);
    else if (!fillDerived(s, i))
      continue;
    np.push_back(s);
  }
  pool.swap(np);
}
static int evalSign(int poly, const vector<double>& s) {
  double sc;
  double v = W.evalPoly(W.polys[poly], s, &sc);
  if (!std::isfinite(v) || !std::isfinite(sc)) return 0;
  if (std::fabs(v) <= 1e-9 * sc) return sc == 0 ? 2 : (std::fabs(v) <= 1e-13 * sc ? 2 : 0);
  return v > 0 ? 4 : 1;
}
// 1 true, 0 false, -1 unknown
static int evalBool(const z3::expr& e, const vector<double>& s) {
  if (e.is_true()) return 1;
  if (e.is_false()) return 0;
  auto it = rcondOf->find(e.id());
  if (it != rcondOf->end()) {
    int g = evalSign(it->second.poly, s);
    if (g == 0) return -1;
    return (g & it->second.mask) ? 1 : 0;
  }
  if (!e.is_app()) return -1;
  auto k = e.decl().decl_kind();
  if (k == Z3_OP_NOT) {
    int a = evalBool(e.arg(0), s);
    return a < 0 ? -1 : 1 - a;
  }
  if (k == Z3_OP_AND) {
    int r = 1;
    for (unsigned i = 0; i < e.num_args(); i++) {
      int a = evalBool(e.arg(i), s);
      if (a == 0) return 0;
      if (a < 0) r = -1;
    }
    return r;
  }
  if (k == Z3_OP_OR) {
    int r = 0;
    for (unsigned i = 0; i < e.num_args(); i++) {
      int a = evalBool(e.arg(i), s);
      if (a == 1) return 1;
      if (a < 0) r = -1;
    }
    return r;
  }
  return -1;
}
static bool isRealCond(const z3::expr& e) {
  const auto& v = varsOf(e);
  for (int x : v)
    if (x >= IV) return false;
  return true;
}

// ---------------------------------------------------------------- solver
enum R3 { SAT, UNSAT, UNK };
struct Model {
  bool ok = false;
  std::map<int, double> v;  // var id -> value
};
static std::unordered_map<uint64_t, R3> qcache;
static std::map<unsigned, int>* randAtom = new std::map<unsigned, int>();
static z3::solver* bvS;
static size_t bvAsserted = 0;

static void addAxioms(std::set<int>& vars, vector<z3::expr>& out) {
  // closure over sqrt/function atoms
  std::vector<int> work(vars.begin(), vars.end());
  std::set<int> done;
  while (!work.empty()) {
    int v = work.back();
    work.pop_back();
    if (v >= IV || !done.insert(v).second) continue;
    auto& a = W.atoms[v];
    z3::expr x = (*atomZ)[v];
    if (a.kind == 1) {
      out.push_back(x >= Z->real_val(0));
      out.push_back(x * x == polyIdZ(a.sq_poly));
      for (auto& t : W.polys[a.sq_poly])
        for (auto& ve : W.mt.v[t.m])
          if (vars.insert(ve.first).second) work.push_back(ve.first);
    } else if (a.kind == 2) {
      if (a.sgn == 4) out.push_back(x > Z->real_val(0));
      // congruence: equal arguments give equal values
      for (size_t u = 0; u < W.atoms.size(); u++) {
        if ((int)u >= v || W.atoms[u].kind != 2 || W.atoms[u].fun != a.fun || !vars.count(u)) continue;
        try {
          rf::RF d = W.add((*RT)[W.atoms[u].arg], (*RT)[a.arg], -1);
          if (d.n.empty() || d.n.size() > 24) continue;
          for (auto& t : d.n)
            for (auto& ve : W.mt.v[t.m])
              if (vars.insert(ve.first).second) work.push_back(ve.first);
          out.push_back(polyZ(d.n) != Z->real_val(0) || x == (*atomZ)[u]);
        } catch (rf::TooBig&) {
        }
      }
    }
  }
}
static double numVal(const z3::expr& e) {
  string s;
  if (e.is_numeral()) {
    s = e.get_decimal_string(20);
  } else if (e.is_algebraic()) {
    s = e.get_decimal_string(20);
  } else
    return NAN;
  if (!s.empty() && s.back() == '?') s.pop_back();
  return strtod(s.c_str(), nullptr);
}
static R3 runSolver(const vector<z3::expr>& cs, bool real, Model* m, double timeout) {
  shm->queries++;
  if (real)
    shm->qreal++;
  else
    shm->qbv++;
  double ts = now();
  uint64_t key = 1469598103934665603ull;
  vector<unsigned> ids;
  for (auto& c : cs) ids.push_back(c.id());
  std::sort(ids.begin(), ids.end());
  for (auto i : ids) key = (key ^ i) * 1099511628211ull;
  if (!m) {
    auto it = qcache.find(key);
    if (it != qcache.end()) {
      shm->queries--;
      (real ? shm->qreal : shm->qbv)--;
      return it->second;
    }
  }
  static vector<z3::expr>* keep = new vector<z3::expr>();
  for (auto& c : cs) keep->push_back(c);
  auto fill = [&](z3::model mm) {
    if (!m) return;
    m->ok = true;
    std::set<int> vs;
    for (auto& c : cs)
      for (int v : varsOf(c)) vs.insert(v);
    for (int v : vs) {
      if (v >= IV) {
        z3::expr e = mm.eval((*intVars)[v - IV].e, true);
        uint64_t u = 0;
        if (e.is_numeral_u64(u)) m->v[v] = (double)(int64_t)u;
        else if (e.is_true()) m->v[v] = 1;
        else m->v[v] = 0;
      } else
        m->v[v] = numVal(mm.eval((*atomZ)[v], true));
    }
  };
  R3 res = UNK;
  try {
    z3::solver s = real ? z3::solver(*Z, "QF_NRA") : z3::solver(*Z, "QF_BV");
    z3::params p(*Z);
    p.set("rlimit", opt_.rlimit);
    s.set(p);
    for (auto& c : cs) s.add(c);
    auto r = s.check();
    if (r == z3::sat) {
      res = SAT;
      fill(s.get_model());
    } else if (r == z3::unsat)
      res = UNSAT;
  } catch (z3::exception& e) {
    res = UNK;
  }
  if (res == UNK && timeout > 0) {
    // portfolio in forked children with wall-clock limits
    shm->qext++;
    const int NB = 3;
    int pfd[NB];
    pid_t pid[NB];
    for (int b = 0; b < NB; b++) {
      int pp[2];
      if (pipe(pp)) abort();
      pid[b] = fork();
      if (pid[b] == 0) {
        close(pp[0]);
        alarm((unsigned)timeout + 2);
        string o = "unknown\n";
        try {
          if (b < 2) {
            z3::solver s = b == 0 ? (real ? z3::tactic(*Z, "qfnra-nlsat").mk_solver() : z3::solver(*Z, "QF_BV"))
                                  : z3::solver(*Z);
            for (auto& c : cs) s.add(c);
            auto r = s.check();
            if (r == z3::unsat) o = "unsat\n";
            if (r == z3::sat) {
              o = "sat\n";
              z3::model mm = s.get_model();
              Model tmp;
              Model* sv = m;
              m = &tmp;
              fill(mm);
              m = sv;
              char buf[100];
              for (auto& kv : tmp.v) {
                snprintf(buf, sizeof buf, "%d %.17g\n", kv.first, kv.second);
                o += buf;
              }
            }
          } else {
            // cvc5
            z3::solver s(*Z);
            for (auto& c : cs) s.add(c);
            string f = outdir + "/q" + std::to_string(getpid()) + ".smt2";
            {
              std::ofstream os(f);
              os << "(set-logic ALL)\n" << s.to_smt2();
            }
            string cmd = "timeout " + std::to_string((int)timeout) + " cvc5 --nl-cov -q " + f + " 2>/dev/null";
            FILE* pf = popen(cmd.c_str(), "r");
            char line[64] = {0};
            if (pf && fgets(line, sizeof line, pf))
              if (!strncmp(line, "unsat", 5)) o = "unsat\n";
            if (pf) pclose(pf);
            unlink(f.c_str());
          }
        } catch (z3::exception& e) {
        }
        if (write(pp[1], o.c_str(), o.size()) < 0) {
        }
        _exit(0);
      }
      close(pp[1]);
      pfd[b] = pp[0];
    }
    double end = now() + timeout;
    vector<string> got(NB);
    vector<bool> closed(NB, false);
    while (now() < end && res == UNK) {
      vector<pollfd> fds;
      vector<int> ix;
      for (int b = 0; b < NB; b++)
        if (!closed[b]) {
          fds.push_back({pfd[b], POLLIN, 0});
          ix.push_back(b);
        }
      if (fds.empty()) break;
      int pr = poll(fds.data(), fds.size(), 200);
      if (pr <= 0) continue;
      for (size_t i = 0; i < fds.size(); i++)
        if (fds[i].revents) {
          char buf[4096];
          ssize_t n = read(fds[i].fd, buf, sizeof buf);
          if (n > 0)
            got[ix[i]].append(buf, n);
          else {
            closed[ix[i]] = true;
            string& g = got[ix[i]];
            if (g.rfind("unsat", 0) == 0) res = UNSAT;
            if (g.rfind("sat", 0) == 0) {
              res = SAT;
              if (m) {
                m->ok = true;
                const char* q = g.c_str() + 4;
                int v, used;
                double d;
                while (sscanf(q, "%d %lf\n%n", &v, &d, &used) == 2) {
                  m->v[v] = d;
                  q += used;
                }
              }
            }
          }
        }
    }
    for (int b = 0; b < NB; b++) {
      kill(pid[b], SIGKILL);
      close(pfd[b]);
      waitpid(pid[b], nullptr, 0);
    }
  }
  shm->solver_us += (long)((now() - ts) * 1e6);
  if (res == SAT) shm->qsat++;
  if (res == UNSAT) shm->qunsat++;
  if (res == UNK) {
    shm->qunk++;
    if (!opt_.dumpQueries.empty()) {
      z3::solver s(*Z);
      for (auto& c : cs) s.add(c);
      std::ofstream os(opt_.dumpQueries + "/unk" + std::to_string(getpid()) + "_" + std::to_string(shm->queries) + ".smt2");
      os << s.to_smt2();
    }
  }
  if (!m) qcache[key] = res;
  return res;
}
// satisfiability of PC /\ extra (sliced).
static R3 checkSat(const vector<z3::expr>& extra, Model* m = nullptr, double timeout = -1, bool whole = false) {
  if (timeout < 0) timeout = opt_.qtimeout;
  std::set<int> vars;
  bool f = false;
  for (auto& e : extra) {
    if (e.is_false()) f = true;
    for (int v : varsOf(e)) vars.insert(v);
  }
  if (f) return UNSAT;
  vector<z3::expr> cs;
  vector<bool> used(PC->size(), false);
  vector<z3::expr> ax;
  if (whole)
    for (auto& p : *PC)
      for (int v : p.vars) vars.insert(v);
  size_t before;
  do {
    before = vars.size();
    ax.clear();
    addAxioms(vars, ax);
    for (size_t i = 0; i < PC->size(); i++) {
      if (used[i]) continue;
      auto& p = (*PC)[i];
      bool hit = false;
      for (int v : p.vars)
        if (vars.count(v)) {
          hit = true;
          break;
        }
      if (!hit) continue;
      used[i] = true;
      for (int v : p.vars) vars.insert(v);
    }
  } while (vars.size() != before);
  ax.clear();
  addAxioms(vars, ax);
  for (size_t i = 0; i < PC->size(); i++)
    if (used[i]) cs.push_back((*PC)[i].e);
  for (auto& a : ax) cs.push_back(a);
  for (auto& e : extra) cs.push_back(e);
  bool real = false, bv = false;
  for (int v : vars) (v >= IV ? bv : real) = true;
  if (real && bv) {
    // the relation between int and real parts is only boolean: try the split when no item mixes them
    vector<z3::expr> r, b;
    bool mixed = false;
    for (auto& c : cs) {
      bool cr = false, cb = false;
      for (int v : varsOf(c)) (v >= IV ? cb : cr) = true;
      if (cr && cb)
        mixed = true;
      else
        (cr ? r : b).push_back(c);
    }
    if (!mixed) {
      R3 x = runSolver(b, false, m, timeout);
      if (x == UNSAT) return UNSAT;
      Model m2;
      R3 y = runSolver(r, true, m ? &m2 : nullptr, timeout);
      if (m)
        for (auto& kv : m2.v) m->v[kv.first] = kv.second;
      if (m) m->ok = m->ok && m2.ok;
      if (y == UNSAT) return UNSAT;
      return (x == SAT && y == SAT) ? SAT : UNK;
    }
  }
  if (cs.empty()) {
    if (m) m->ok = true;
    return SAT;
  }
  return runSolver(cs, real, m, timeout);
}

static bool sampleOK(const vector<double>& s) {
  for (auto& p : *PC) {
    bool real = true;
    for (int v : p.vars)
      if (v >= IV) real = false;
    if (!real) continue;
    if (evalBool(p.e, s) != 1) return false;
  }
  return true;
}
static void addModelSample(const Model& m) {
  if (!m.ok) return;
  vector<double> s;
  if (!pool.empty())
    s = pool[0];
  else
    s.assign(W.atoms.size(), 0.0);
  s.resize(W.atoms.size());
  for (auto& kv : m.v)
    if (kv.first < IV && std::isfinite(kv.second)) s[kv.first] = kv.second;
  if (!fillDerived(s, 0) || !sampleOK(s)) return;
  pool.push_back(s);
}
static void rejuvenate() {
  if (pool.size() >= 4 || W.atoms.empty()) return;
  static long budget = 4000;
  int got = 0;
  for (int t = 0; t < 60 && budget > 0 && got < 8; t++, budget--) {
    vector<double> s(W.atoms.size());
    bool base = !pool.empty() && (t % 3);
    if (base) s = pool[rng() % pool.size()];
    for (size_t i = 0; i < s.size(); i++)
      if (W.atoms[i].kind == 0 && (!base || rng() % 3 == 0)) {
        if (base && rng() % 2)
          s[i] = std::min(highB[i], std::max(lowB[i], s[i] * (1 + ((int)(rng() % 21) - 10) / 40.0) + ((int)(rng() % 11) - 5) / 50.0));
        else
          s[i] = randVal(lowB[i], highB[i]);
      }
    if (!fillDerived(s, 0)) continue;
    if (sampleOK(s)) {
      pool.push_back(s);
      got++;
    }
  }
}

static void endPath(int kind) { throw PathEnd{kind}; }

static void addPC(const z3::expr& c0, bool truth);
static void learn(const z3::expr& c, bool truth) {
  auto it = rcondOf->find(c.id());
  if (it != rcondOf->end()) {
    int mask = truth ? it->second.mask : (7 & ~it->second.mask);
    W.polySign[it->second.poly] &= mask;
    // single-atom facts
    auto& p = W.polys[it->second.poly];
    if (p.size() == 1 && W.mt.v[p[0].m].size() == 1 && W.mt.v[p[0].m][0].second == 1) {
      int a = W.mt.v[p[0].m][0].first;
      W.atoms[a].sgn &= mask;  // primitive: leading coeff positive
    }
    return;
  }
  if (!c.is_app()) return;
  auto k = c.decl().decl_kind();
  if (k == Z3_OP_NOT)
    learn(c.arg(0), !truth);
  else if (k == Z3_OP_AND && truth)
    for (unsigned i = 0; i < c.num_args(); i++) learn(c.arg(i), true);
  else if (k == Z3_OP_OR && !truth)
    for (unsigned i = 0; i < c.num_args(); i++) learn(c.arg(i), false);
}
static void addPC(const z3::expr& c0, bool truth) {
  z3::expr c = c0;
  if (!truth) {
    auto it = rcondOf->find(c.id());
    if (it != rcondOf->end())
      c = rcondExpr(it->second.poly, 7 & ~it->second.mask);
    else
      c = !c0;
  }
  if (c.is_true()) return;
  learn(c, true);
  PC->push_back({c, varsOf(c)});
  if (isRealCond(c)) {
    vector<vector<double>> np;
    for (auto& s : pool)
      if (evalBool(c, s) == 1) np.push_back(s);
    pool.swap(np);
    rejuvenate();
  }
}

// ---------------------------------------------------------------- forking
static vector<pid_t> parallelKids;
static bool holdToken = true;
static int forkDepth = 0;
static uint64_t pathSeed = 88172645463325252ull;
static void flushCoverage();
static bool forkPath() {  // true in the child
  if (now() - t0 > opt_.deadline || shm->stop.load()) {
    shm->deadline++;
    return false;  // parent side continues, the other side is lost (recorded)
  }
  if (shm->paths.load() > opt_.maxPaths) {
    shm->truncated++;
    return false;
  }
  shm->paths++;
  int t = shm->tokens.load();
  bool par = false;
  while (t > 0)
    if (shm->tokens.compare_exchange_weak(t, t - 1)) {
      par = true;
      break;
    }
  uint64_t childSeed = rng();
  pid_t p = fork();
  if (p < 0) {
    if (par) shm->tokens++;
    shm->truncated++;
    return false;
  }
  if (p == 0) {
    parallelKids.clear();
    holdToken = par;
    forkDepth++;
    rng.seed(childSeed);
    return true;
  }
  if (par) {
    parallelKids.push_back(p);
  } else {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
      ;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      shm->unsupported++;
      logmsg("path process died");
    }
  }
  return false;
}
// Decide a symbolic condition, forking when both outcomes are possible.
static bool decide(const z3::expr& c) {
  if (c.is_true()) return true;
  if (c.is_false()) return false;
  auto it = rcondOf->find(c.id());
  if (it != rcondOf->end()) {
    int m = W.polySign[it->second.poly] & W.signSyntactic(W.polys[it->second.poly]);
    if ((m & ~it->second.mask & 7) == 0) {
      shm->facts_decided++;
      return true;
    }
    if ((m & it->second.mask) == 0) {
      shm->facts_decided++;
      return false;
    }
  }
  for (auto& p : *PC) {
    if (p.e.id() == c.id()) return true;
    if (p.e.is_app() && p.e.decl().decl_kind() == Z3_OP_NOT && p.e.arg(0).id() == c.id()) return false;
  }
  bool wt = false, wf = false;
  if (isRealCond(c))
    for (auto& s : pool) {
      int r = evalBool(c, s);
      if (r == 1) wt = true;
      if (r == 0) wf = true;
    }
  z3::expr nc = !c;
  if (it != rcondOf->end()) nc = rcondExpr(it->second.poly, 7 & ~it->second.mask);
  R3 rt = SAT, rfl = SAT;
  Model mt, mf;
  if (wt && wf) shm->sample_decided++;
  if (!wt) rt = checkSat({c}, &mt);
  if (rt == UNSAT) {
    return false;
  }
  if (!wf) rfl = checkSat({nc}, &mf);
  if (rfl == UNSAT) return true;
  bool child = forkPath();
  if (child) {
    if (rt == UNK) pathMaybe = true;
    addPC(c, true);
    if (pool.empty()) addModelSample(mt);
    return true;
  }
  // note: when forkPath refused (deadline) we still continue on the false side
  if (rfl == UNK) pathMaybe = true;
  addPC(c, false);
  if (pool.empty()) addModelSample(mf);
  return false;
}

// ---------------------------------------------------------------- value helpers
static Val mkSI(const z3::expr& e, int w) {
  if (w == 1) {
    if (e.is_true()) return mkI(1, 1);
    if (e.is_false()) return mkI(0, 1);
  } else {
    uint64_t u;
    if (e.is_numeral() && e.is_numeral_u64(u)) return mkI(u, w);
  }
  IT->push_back(e);
  Val v;
  v.k = K_SI;
  v.w = w;
  v.t = IT->size() - 1;
  return v;
}
static z3::expr ie(const Val& v, int w) {
  if (v.k == K_SI) return (*IT)[v.t];
  if (v.k == K_UNDEF) return w == 1 ? Z->bool_val(false) : Z->bv_val((uint64_t)0, w);
  if (v.k != K_I) throw Unsup{"int expected"};
  if (w == 1) return Z->bool_val(v.u & 1);
  return Z->bv_val((uint64_t)v.u, w);
}
static z3::expr bvOf(const Val& v, int w) {  // as bit-vector even for i1
  if (w == 1) return z3::ite(ie(v, 1), Z->bv_val(1, 1), Z->bv_val(0, 1));
  return ie(v, w);
}
static Val mkReal(const rf::RF& r) {
  if (r.isConst()) {
    mpq_class q = r.constVal();
    double d = q.get_d();
    if (std::isfinite(d)) {
      if (mpq_class(d) == q) return mkF(d);
      if (mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2) > 220) return mkF(d);
    }
  }
  RT->push_back(r);
  Val v;
  v.k = K_SR;
  v.w = 64;
  v.t = RT->size() - 1;
  return v;
}
static int newRealAtom(const string& name, int kind) {
  int a = W.newAtom(name, kind);
  string zn = "r" + std::to_string(a) + "_" + name;
  atomZ->push_back(Z->real_const(zn.c_str()));
  atomByZ[zn] = a;
  lowB.push_back(-INFINITY);
  highB.push_back(INFINITY);
  return a;
}
static Val havocReal(const string& why) {
  int k = nameCount["havoc:" + why]++;
  int a = newRealAtom("havoc_" + why + std::to_string(k), 0);
  poolExtend();
  return mkReal(W.fromAtom(a));
}
static int newIntVar(const string& name, int w, bool input) {
  string zn = "i" + std::to_string(intVars->size()) + "_" + name;
  z3::expr e = w == 1 ? Z->bool_const(zn.c_str()) : Z->bv_const(zn.c_str(), w);
  intVars->push_back({name, w, e, input});
  atomByZ[zn] = IV + intVars->size() - 1;
  return intVars->size() - 1;
}
static Val havocInt(int w, const string& why) {
  int k = nameCount["havoci:" + why]++;
  int i = newIntVar("havoc_" + why + std::to_string(k), w, false);
  return mkSI((*intVars)[i].e, w);
}
static bool isReal(const Val& v) { return v.k == K_F || v.k == K_SR; }
static rf::RF re(const Val& v) {
  if (v.k == K_SR) return (*RT)[v.t];
  if (v.k == K_F) {
    if (!std::isfinite(v.d)) throw Unsup{"non-finite in rational arithmetic"};
    return W.fromQ(rf::idealise(v.d));
  }
  if (v.k == K_UNDEF) return W.fromQ(0);
  throw Unsup{"real expected"};
}
// symbolic reals are taken to be smaller than 1e300 in magnitude
static bool nonfin(const Val& v) { return v.k == K_F && !std::isfinite(v.d); }
static bool huge(const Val& v) { return v.k == K_F && !(std::fabs(v.d) < 1e300); }
// sign condition of a rational function: expression for sign(r) in mask
static bool decideSign(const rf::RF& r, int mask);
static bool noFacts = false;  // assertions: leave the decision to the solver
static z3::expr signCond(const rf::RF& r, int mask) {
  if (r.n.empty()) return Z->bool_val((mask & 2) != 0);
  if (r.isConst()) return Z->bool_val((mask & (r.n[0].c > 0 ? 4 : 1)) != 0);
  rf::Poly p = r.n;
  mpq_class c = W.primitive(p);
  bool flip = c < 0;
  if (mask != 2 && mask != 5)
    for (auto& fe : r.d)
      if (fe.second & 1) {
        int s = W.polySign[fe.first] & W.signSyntactic(W.polys[fe.first]) & 5;
        bool pos;
        if (s == 4)
          pos = true;
        else if (s == 1)
          pos = false;
        else
          pos = decide(rcondExpr(fe.first, 4));
        if (!pos) flip = !flip;
      }
  if (flip) mask = W.negSign(mask & 7);
  int id = W.internPoly(p);
  int s = W.polySign[id] & W.signSyntactic(p);
  if (!noFacts && (s & ~mask & 7) == 0) return Z->bool_val(true);
  if (!noFacts && (s & mask) == 0) return Z->bool_val(false);
  // reduce odd/even structure: a product of known-sign factors times one factor
  if (p.size() > 1 || W.mt.v[p[0].m].size() > 1) {
    vector<std::pair<int, int>> fs;
    bool touched = false;
    // monomial content only (cheap)
    rf::MonoV g = W.mt.v[p[0].m];
    for (auto& t : p) {
      rf::MonoV h;
      auto& w = W.mt.v[t.m];
      size_t i = 0, j = 0;
      while (i < g.size() && j < w.size()) {
        if (g[i].first > w[j].first)
          i++;
        else if (g[i].first < w[j].first)
          j++;
        else {
          h.push_back({g[i].first, std::min(g[i].second, w[j].second)});
          i++;
          j++;
        }
      }
      g = h;
      if (g.empty()) break;
    }
    rf::MonoV strip;
    int fl = 4;
    for (auto& ve : g) {
      int a = W.atoms[ve.first].sgn;
      if (W.atoms[ve.first].kind == 1) a &= 6;
      int pid = W.internPoly(W.pvar(ve.first));
      a &= W.polySign[pid];
      if (a == 4 || a == 1) {
        strip.push_back(ve);
        if (a == 1 && (ve.second & 1)) fl = W.negSign(fl);
        touched = true;
      }
    }
    if (touched) {
      rf::MonoId gm = W.mt.intern(strip);
      for (auto& t : p) {
        rf::MonoId q;
        W.mt.divides(gm, t.m, &q);
        t.m = q;
      }
      std::sort(p.begin(), p.end(), [&](const rf::Term& x, const rf::Term& y) { return W.mt.cmp(x.m, y.m) > 0; });
      mpq_class c2 = W.primitive(p);
      if (c2 < 0) fl = W.negSign(fl);
      if (fl == 1) mask = W.negSign(mask & 7);
      if (p.size() == 1 && p[0].m == 0) return Z->bool_val((mask & 4) != 0);
      id = W.internPoly(p);
      int s2 = W.polySign[id] & W.signSyntactic(p);
      if (!noFacts && (s2 & ~mask & 7) == 0) return Z->bool_val(true);
      if (!noFacts && (s2 & mask) == 0) return Z->bool_val(false);
    }
  }
  return rcondExpr(id, mask);
}
static bool decideSign(const rf::RF& r, int mask) { return decide(signCond(r, mask)); }

static Val realBin(char op, const Val& a0, const Val& b0) {
  Val a = a0, b = b0;
  if (a.k == K_SI || a.k == K_UNDEF) a = havocReal("undef");
  if (b.k == K_SI || b.k == K_UNDEF) b = havocReal("undef");
  if (a.k == K_F && b.k == K_F) {
    double x = a.d, y = b.d, r = 0;
    bool exact = false;
    switch (op) {
      case '+':
      case '-': {
        if (op == '-') y = -y;
        r = x + y;
        double bb = r - x;
        double err = (x - (r - bb)) + (y - bb);
        exact = err == 0;
        break;
      }
      case '*':
        r = x * y;
        exact = std::fma(x, y, -r) == 0;
        break;
      case '/':
        r = x / y;
        exact = std::fma(r, y, -x) == 0;
        break;
    }
    if (exact || !std::isfinite(r) || !std::isfinite(a.d) || !std::isfinite(b.d)) return mkF(r);
    if (op == '/' && b.d == 0) return mkF(r);
  }
  if (nonfin(a) || nonfin(b)) {
    // one side symbolic finite
    auto sg = [&](const Val& v) -> int {
      if (v.k == K_F) return v.d > 0 ? 1 : v.d < 0 ? -1 : 0;
      rf::RF r = re(v);
      if (decideSign(r, 4)) return 1;
      if (decideSign(r, 1)) return -1;
      return 0;
    };
    double x = a.k == K_F ? a.d : 0, y = b.k == K_F ? b.d : 0;
    if (std::isnan(x) || std::isnan(y)) return mkF(NAN);
    switch (op) {
      case '+': return mkF(x + y);
      case '-': return mkF(x - y);
      case '*': {
        int s = sg(a) * sg(b);
        return mkF(s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY);
      }
      case '/': {
        if (nonfin(b)) return nonfin(a) ? mkF(NAN) : mkF(0.0);
        int sa = sg(a), sb = sg(b);
        return mkF((sb >= 0 ? 1 : -1) * sa > 0 ? INFINITY : -INFINITY);
      }
    }
  }
  rf::RF x = re(a), y = re(b);
  try {
    switch (op) {
      case '+': return mkReal(W.add(x, y, 1));
      case '-': return mkReal(W.add(x, y, -1));
      case '*': return mkReal(W.mul(x, y));
      case '/': {
        if (decideSign(y, 2)) {
          if (decideSign(x, 2)) return mkF(NAN);
          return mkF(decideSign(x, 4) ? INFINITY : -INFINITY);
        }
        return mkReal(W.div(x, y));
      }
    }
  } catch (rf::TooBig&) {
    throw Unsup{"polynomial too large"};
  }
  throw Unsup{"real op"};
}
static Val realNeg(const Val& a) {
  if (a.k == K_F) return mkF(-a.d);
  return realBin('-', mkF(0), a);
}
static Val realAbs(const Val& a) {
  if (a.k == K_F) return mkF(std::fabs(a.d));
  if (a.k == K_SI || a.k == K_UNDEF) return realAbs(havocReal("undef"));
  if (decideSign(re(a), 6)) return a;
  return realNeg(a);
}
static Val realSqrt(const Val& a0) {
  Val a = a0;
  if (a.k == K_SI || a.k == K_UNDEF) a = havocReal("undef");
  if (a.k == K_F) {
    double r = std::sqrt(a.d);
    if (!std::isfinite(r) || std::fma(r, r, -a.d) == 0) return mkF(r);
    if (a.d < 0) return mkF(NAN);
  }
  rf::RF x = re(a);
  if (a.k == K_SR && decideSign(x, 1)) return mkF(NAN);
  if (a.k == K_SR && x.n.empty()) return mkF(0);
  // x = c * N / prod f^e ;  sqrt = sqrt(N * prod_{odd} f) / prod |f|^ceil(e/2)
  try {
    vector<std::pair<int, int>> den;
    rf::Poly n = x.n;
    for (auto& fe : x.d) {
      int e = fe.second;
      if (e & 1) {
        n = W.pmul(n, W.polys[fe.first]);
        e++;
      }
      W.addFactor(den, fe.first, e / 2);
    }
    // pull square factors of n out where they are known factors
    mpq_class c = W.primitive(n);
    if (c < 0) {
      n = W.pscale(n, -1);
      c = -c;
    }
    // c = cn/cd -> sqrt(c) = sqrt(cn*cd)/cd ; strip the square part of cn*cd
    mpz_class m = c.get_num() * c.get_den(), sq = 1, rest = 1;
    {
      mpz_class t = m;
      for (unsigned long p = 2; p < 2000 && t > 1; p++)
        while (mpz_divisible_ui_p(t.get_mpz_t(), p)) {
          t /= p;
          if (mpz_divisible_ui_p(t.get_mpz_t(), p)) {
            t /= p;
            sq *= p;
          } else {
            rest *= p;
            break;
          }
        }
      if (t > 1) {
        mpz_class rt;
        if (mpz_perfect_square_p(t.get_mpz_t())) {
          mpz_sqrt(rt.get_mpz_t(), t.get_mpz_t());
          sq *= rt;
        } else
          rest *= t;
      }
    }
    mpq_class outc(sq, c.get_den());
    outc.canonicalize();
    rf::RF res;
    rf::Poly q;
    rf::Poly body = W.pscale(n, mpq_class(rest));
    bool perfect = W.psqrt(body, &q);
    if (!perfect && a.k == K_F && (mpz_sizeinbase(rest.get_mpz_t(), 2) > 60)) return mkF(std::sqrt(a.d));
    if (perfect) {
      rf::RF qq;
      qq.n = q;
      if (!decideSign(qq, 6)) qq.n = W.pscale(qq.n, -1);
      res = qq;
    } else {
      // known square factors f^2 | body
      vector<std::pair<int, int>> outF;
      for (size_t f = 0; f < W.polys.size() && body.size() > 1; f++) {
        if (!W.polyIsFactor[f]) continue;
        rf::Poly q1, q2;
        while (W.pdiv(body, W.polys[f], &q1) && W.pdiv(q1, W.polys[f], &q2)) {
          body = q2;
          outF.push_back({(int)f, 1});
        }
      }
      int pid = W.internPoly(body);
      int atom = -1;
      for (size_t i = 0; i < W.atoms.size(); i++)
        if (W.atoms[i].kind == 1 && W.atoms[i].sq_poly == pid) atom = i;
      if (atom < 0) {
        atom = newRealAtom("sqrt", 1);
        W.atoms[atom].sq_poly = pid;
        W.anySqrt = true;
        // sign of the root: zero iff body zero
        rf::RF b;
        b.n = body;
        rf::Poly bp = body;
        W.primitive(bp);
        int s = W.polySign[W.internPoly(bp)] & W.signSyntactic(bp);
        W.atoms[atom].sgn = (s & 2) ? 6 : 4;
        poolExtend();
      }
      res = W.fromAtom(atom);
      for (auto& fe : outF) {
        rf::RF ff;
        ff.n = W.polys[fe.first];
        if (!decideSign(ff, 6)) ff.n = W.pscale(ff.n, -1);
        res = W.mul(res, ff);
      }
    }
    res.n = W.pscale(res.n, outc);
    for (auto& fe : den) {
      // |f|
      int s = W.polySign[fe.first] & W.signSyntactic(W.polys[fe.first]) & 5;
      bool pos = s == 4 ? true : s == 1 ? false : (fe.second % 2 == 0 ? true : decide(rcondExpr(fe.first, 4)));
      if (!pos && (fe.second & 1)) res.n = W.pscale(res.n, -1);
    }
    rf::RF d1;
    d1.n = W.pconst(1);
    d1.d = den;
    return mkReal(W.mul(res, d1));
  } catch (rf::TooBig&) {
    throw Unsup{"polynomial too large"};
  }
}
static bool sameRF(const rf::RF& a, const rf::RF& b) { return W.add(a, b, -1).n.empty(); }
// r = 0 on every input of this path?
static bool impliedZero(const rf::RF& r) {
  rf::Poly p = r.n;
  W.primitive(p);
  int id = W.internPoly(p);
  int m = W.polySign[id] & W.signSyntactic(p);
  if (m == 2) return true;
  if (!(m & 2)) return false;
  for (auto& s : pool) {
    int v = evalSign(id, s);
    if (v & 5 && !(v & 2)) return false;
  }
  return checkSat({rcondExpr(id, 5)}, nullptr, 3) == UNSAT;
}
static Val realFun(int fun, const Val& a) {
  if (a.k == K_F) {
    double r = evalFun(fun, a.d);
    return mkF(r);
  }
  rf::RF x = re(a);
  if (x.isConst()) return mkF(evalFun(fun, x.constVal().get_d()));
  for (size_t i = 0; i < W.atoms.size(); i++)
    if (W.atoms[i].kind == 2 && W.atoms[i].fun == fun) {
      if (sameRF((*RT)[W.atoms[i].arg], x) || impliedZero(W.add((*RT)[W.atoms[i].arg], x, -1))) return mkReal(W.fromAtom(i));
      if (fun == 1 && W.add((*RT)[W.atoms[i].arg], x, 1).n.empty())
        return mkReal(W.div(W.fromQ(1), W.fromAtom(i)));
    }
  if (fun == 2 && !decideSign(x, 4)) return mkF(NAN);
  int at = newRealAtom(fun == 1 ? "exp" : fun == 2 ? "log" : "fun", 2);
  W.atoms[at].fun = fun;
  RT->push_back(x);
  W.atoms[at].arg = RT->size() - 1;
  if (fun == 1) {
    W.atoms[at].sgn = 4;
    int pid = W.internPoly(W.pvar(at));
    W.polySign[pid] = 4;
  }
  poolExtend();
  return mkReal(W.fromAtom(at));
}
// fcmp on values: mask of accepted signs of (a-b), plus result when unordered
static Val realCmp(const Val& a0, const Val& b0, int mask, bool unord) {
  Val a = a0, b = b0;
  if (a.k == K_SI || a.k == K_UNDEF) a = havocReal("undef");
  if (b.k == K_SI || b.k == K_UNDEF) b = havocReal("undef");
  if (a.k == K_F && b.k == K_F) {
    if (std::isnan(a.d) || std::isnan(b.d)) return mkI(unord, 1);
    int s = a.d > b.d ? 4 : a.d < b.d ? 1 : 2;
    return mkI((s & mask) != 0, 1);
  }
  if (huge(a) || huge(b)) {
    double x = a.k == K_F ? a.d : 0, y = b.k == K_F ? b.d : 0;
    if (std::isnan(x) || std::isnan(y)) return mkI(unord, 1);
    int s = x > y ? 4 : x < y ? 1 : 2;
    return mkI((s & mask) != 0, 1);
  }
  rf::RF d;
  try {
    d = W.add(re(a), re(b), -1);
  } catch (rf::TooBig&) {
    throw Unsup{"polynomial too large"};
  }
  return mkSI(signCond(d, mask), 1);
}

#include "memory.inc"
#include "interp.inc"
#include "main.inc"
