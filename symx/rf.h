// Exact rational-function arithmetic over named real atoms, used as the term
// language of the symbolic executor for `double` values.
//   RF = N / prod(f_i^e_i)   N, f_i multivariate polynomials over Q.
// Square-root atoms s (s >= 0, s^2 = P) are reduced to degree <= 1.
#pragma once
#include <gmpxx.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace rf {

typedef uint32_t MonoId;
typedef std::vector<std::pair<uint32_t, uint32_t>> MonoV;  // (var,exp), var descending

struct Atom {
  std::string name;
  int kind = 0;        // 0 input, 1 sqrt, 2 function/opaque
  int sq_poly = -1;    // index into sqrt polys (polynomial P with s^2 = P)
  int sgn = 7;         // possible-sign mask: 1 neg, 2 zero, 4 pos
  // kind 2: function application used for numeric evaluation
  int fun = 0;         // 1 exp, 2 log ...
  int arg = -1;        // real-term index
};

struct Term {
  MonoId m;
  mpq_class c;
};
typedef std::vector<Term> Poly;  // sorted by mono order descending

struct MonoTable {
  std::vector<MonoV> v;
  std::map<MonoV, MonoId> ix;
  std::unordered_map<uint64_t, MonoId> mulc;
  MonoTable() {
    v.push_back(MonoV());
    ix[MonoV()] = 0;
  }
  MonoId intern(const MonoV& m) {
    auto it = ix.find(m);
    if (it != ix.end()) return it->second;
    MonoId id = v.size();
    v.push_back(m);
    ix[m] = id;
    return id;
  }
  MonoId mul(MonoId a, MonoId b) {
    if (a == 0) return b;
    if (b == 0) return a;
    if (a > b) std::swap(a, b);
    uint64_t k = ((uint64_t)a << 32) | b;
    auto it = mulc.find(k);
    if (it != mulc.end()) return it->second;
    const MonoV &x = v[a], &y = v[b];
    MonoV r;
    r.reserve(x.size() + y.size());
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j == y.size() || (i < x.size() && x[i].first > y[j].first))
        r.push_back(x[i++]);
      else if (i == x.size() || y[j].first > x[i].first)
        r.push_back(y[j++]);
      else {
        r.push_back({x[i].first, x[i].second + y[j].second});
        i++;
        j++;
      }
    }
    MonoId id = intern(r);
    mulc[k] = id;
    return id;
  }
  // lex order: compare by highest variable first
  int cmp(MonoId a, MonoId b) const {
    if (a == b) return 0;
    const MonoV &x = v[a], &y = v[b];
    size_t n = std::min(x.size(), y.size());
    for (size_t i = 0; i < n; i++) {
      if (x[i].first != y[i].first) return x[i].first > y[i].first ? 1 : -1;
      if (x[i].second != y[i].second) return x[i].second > y[i].second ? 1 : -1;
    }
    return x.size() > y.size() ? 1 : -1;
  }
  bool divides(MonoId d, MonoId a, MonoId* q) {  // q = a/d
    if (d == 0) {
      *q = a;
      return true;
    }
    const MonoV &x = v[a], &y = v[d];
    MonoV r;
    size_t i = 0, j = 0;
    while (i < x.size()) {
      if (j < y.size() && y[j].first > x[i].first) return false;
      if (j < y.size() && y[j].first == x[i].first) {
        if (y[j].second > x[i].second) return false;
        if (x[i].second > y[j].second) r.push_back({x[i].first, x[i].second - y[j].second});
        i++;
        j++;
      } else
        r.push_back(x[i++]);
    }
    if (j < y.size()) return false;
    *q = intern(r);
    return true;
  }
};

struct RF {
  Poly n;
  std::vector<std::pair<int, int>> d;  // (factor id, exp) sorted by id
  bool isConst() const { return d.empty() && (n.empty() || (n.size() == 1 && n[0].m == 0)); }
  mpq_class constVal() const { return n.empty() ? mpq_class(0) : n[0].c; }
};

struct TooBig {};

struct World {
  MonoTable mt;
  std::vector<Atom> atoms;
  std::vector<Poly> polys;  // interned primitive polys (factors, facts)
  std::map<std::vector<std::pair<MonoId, mpq_class>>, int> polyIx;
  std::vector<uint8_t> polyIsFactor;
  std::vector<uint8_t> polySign;  // facts: possible sign mask (path dependent; lives in the process)
  bool anySqrt = false;
  size_t cap = 60000;

  int newAtom(const std::string& name, int kind) {
    Atom a;
    a.name = name;
    a.kind = kind;
    atoms.push_back(a);
    return (int)atoms.size() - 1;
  }
  Poly pconst(const mpq_class& c) {
    Poly p;
    if (c != 0) p.push_back({0, c});
    return p;
  }
  Poly pvar(int a) {
    Poly p;
    p.push_back({mt.intern(MonoV{{(uint32_t)a, 1}}), mpq_class(1)});
    return p;
  }
  Poly padd(const Poly& a, const Poly& b, const mpq_class& s) {  // a + s*b
    Poly r;
    r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
      int c = i == a.size() ? -1 : j == b.size() ? 1 : mt.cmp(a[i].m, b[j].m);
      if (c > 0)
        r.push_back(a[i++]);
      else if (c < 0) {
        r.push_back({b[j].m, b[j].c * s});
        j++;
      } else {
        mpq_class q = a[i].c + s * b[j].c;
        if (q != 0) r.push_back({a[i].m, q});
        i++;
        j++;
      }
    }
    return r;
  }
  Poly pscale(const Poly& a, const mpq_class& s) {
    if (s == 0) return Poly();
    if (s == 1) return a;
    Poly r = a;
    for (auto& t : r) t.c *= s;
    return r;
  }
  Poly sortTerms(std::unordered_map<MonoId, mpq_class>& acc) {
    Poly r;
    r.reserve(acc.size());
    for (auto& kv : acc)
      if (kv.second != 0) r.push_back({kv.first, kv.second});
    std::sort(r.begin(), r.end(), [&](const Term& x, const Term& y) { return mt.cmp(x.m, y.m) > 0; });
    return r;
  }
  Poly pmulRaw(const Poly& a, const Poly& b) {
    if (a.empty() || b.empty()) return Poly();
    if (a.size() == 1 && a[0].m == 0) return pscale(b, a[0].c);
    if (b.size() == 1 && b[0].m == 0) return pscale(a, b[0].c);
    if (a.size() * b.size() > 4000000) throw TooBig();
    std::unordered_map<MonoId, mpq_class> acc;
    for (auto& x : a)
      for (auto& y : b) {
        MonoId m = mt.mul(x.m, y.m);
        acc[m] += x.c * y.c;
      }
    if (acc.size() > cap) throw TooBig();
    return sortTerms(acc);
  }
  bool needsReduce(MonoId m) const {
    for (auto& p : mt.v[m])
      if (p.second >= 2 && atoms[p.first].kind == 1) return true;
    return false;
  }
  Poly reduce(Poly p) {
    if (!anySqrt) return p;
    for (;;) {
      bool any = false;
      for (auto& t : p)
        if (needsReduce(t.m)) {
          any = true;
          break;
        }
      if (!any) return p;
      Poly keep, add;
      for (auto& t : p) {
        if (!needsReduce(t.m)) {
          keep.push_back(t);
          continue;
        }
        MonoV rest;
        Poly f = pconst(t.c);
        for (auto& ve : mt.v[t.m]) {
          if (ve.second >= 2 && atoms[ve.first].kind == 1) {
            for (uint32_t k = 0; k < ve.second / 2; k++) f = pmulRaw(f, polys[atoms[ve.first].sq_poly]);
            if (ve.second & 1) rest.push_back({ve.first, 1});
          } else
            rest.push_back(ve);
        }
        Poly m1;
        m1.push_back({mt.intern(rest), mpq_class(1)});
        add = padd(add, pmulRaw(f, m1), 1);
      }
      p = padd(keep, add, 1);
    }
  }
  Poly pmul(const Poly& a, const Poly& b) { return reduce(pmulRaw(a, b)); }
  // exact division a / b in Q[x]; true if divisible
  bool pdiv(const Poly& a, const Poly& b, Poly* q) {
    if (b.empty()) return false;
    if (a.empty()) {
      *q = Poly();
      return true;
    }
    // quick checks
    MonoId t;
    if (!mt.divides(b[0].m, a[0].m, &t)) return false;
    if (!mt.divides(b.back().m, a.back().m, &t)) return false;
    if (b.size() == 1) {
      Poly r;
      for (auto& x : a) {
        if (!mt.divides(b[0].m, x.m, &t)) return false;
        r.push_back({t, x.c / b[0].c});
      }
      *q = r;
      return true;
    }
    // variable degree check: numeric filter by evaluating at a point would be
    // possible; plain long division with an ordered map is good enough here.
    auto less = [&](MonoId x, MonoId y) { return mt.cmp(x, y) > 0; };
    std::map<MonoId, mpq_class, decltype(less)> rem(less);
    for (auto& x : a) rem[x.m] = x.c;
    Poly res;
    size_t steps = 0;
    while (!rem.empty()) {
      auto it = rem.begin();
      if (it->second == 0) {
        rem.erase(it);
        continue;
      }
      if (!mt.divides(b[0].m, it->first, &t)) return false;
      mpq_class c = it->second / b[0].c;
      rem.erase(it);
      res.push_back({t, c});
      for (size_t j = 1; j < b.size(); j++) {
        MonoId m = mt.mul(t, b[j].m);
        auto r = rem.emplace(m, 0).first;
        r->second -= c * b[j].c;
        if (r->second == 0) rem.erase(r);
      }
      if (++steps > 20000) return false;
    }
    *q = res;
    return true;
  }
  // content: p = c * primitive(p), primitive has coprime integer coeffs and positive leading coeff
  mpq_class primitive(Poly& p) {
    if (p.empty()) return 0;
    mpz_class g = 0, l = 1;
    for (auto& t : p) {
      mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.c.get_num_mpz_t());
      mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.c.get_den_mpz_t());
    }
    mpq_class c(g, l);
    c.canonicalize();
    if (p[0].c < 0) c = -c;
    if (c != 1)
      for (auto& t : p) t.c /= c;
    return c;
  }
  int internPoly(const Poly& p) {
    std::vector<std::pair<MonoId, mpq_class>> k;
    k.reserve(p.size());
    for (auto& t : p) k.push_back({t.m, t.c});
    auto it = polyIx.find(k);
    if (it != polyIx.end()) return it->second;
    int id = polys.size();
    polys.push_back(p);
    polyIx[k] = id;
    polyIsFactor.push_back(0);
    polySign.push_back(7);
    return id;
  }
  // ---- rational functions
  RF fromQ(const mpq_class& q) {
    RF r;
    r.n = pconst(q);
    return r;
  }
  RF fromAtom(int a) {
    RF r;
    r.n = pvar(a);
    return r;
  }
  static void addFactor(std::vector<std::pair<int, int>>& d, int f, int e) {
    auto it = std::lower_bound(d.begin(), d.end(), std::make_pair(f, -1000000));
    if (it != d.end() && it->first == f) {
      it->second += e;
      if (it->second == 0) d.erase(it);
    } else
      d.insert(it, {f, e});
  }
  Poly expandDen(const std::vector<std::pair<int, int>>& d) {
    Poly r = pconst(1);
    for (auto& fe : d)
      for (int k = 0; k < fe.second; k++) r = pmul(r, polys[fe.first]);
    return r;
  }
  void cancel(RF& r, int onlyFactor = -1) {
    if (r.n.empty()) {
      r.d.clear();
      return;
    }
    for (size_t i = 0; i < r.d.size();) {
      if (onlyFactor >= 0 && r.d[i].first != onlyFactor) {
        i++;
        continue;
      }
      Poly q;
      while (r.d[i].second > 0 && pdiv(r.n, polys[r.d[i].first], &q)) {
        r.n = q;
        r.d[i].second--;
      }
      if (r.d[i].second == 0)
        r.d.erase(r.d.begin() + i);
      else
        i++;
    }
  }
  RF add(const RF& a, const RF& b, int sgn) {  // a + sgn*b
    RF r;
    if (a.n.empty()) {
      r = b;
      if (sgn < 0) r.n = pscale(r.n, -1);
      return r;
    }
    if (b.n.empty()) return a;
    if (a.d == b.d) {
      r.n = padd(a.n, b.n, sgn);
      r.d = a.d;
      cancel(r);
      return r;
    }
    std::vector<std::pair<int, int>> ma, mb, L;
    std::vector<int> common;
    size_t i = 0, j = 0;
    while (i < a.d.size() || j < b.d.size()) {
      if (j == b.d.size() || (i < a.d.size() && a.d[i].first < b.d[j].first)) {
        L.push_back(a.d[i]);
        mb.push_back(a.d[i]);
        i++;
      } else if (i == a.d.size() || b.d[j].first < a.d[i].first) {
        L.push_back(b.d[j]);
        ma.push_back(b.d[j]);
        j++;
      } else {
        int ea = a.d[i].second, eb = b.d[j].second;
        L.push_back({a.d[i].first, std::max(ea, eb)});
        if (ea < eb) ma.push_back({a.d[i].first, eb - ea});
        if (eb < ea) mb.push_back({a.d[i].first, ea - eb});
        if (ea == eb || anySqrt) common.push_back(a.d[i].first);
        i++;
        j++;
      }
    }
    Poly na = ma.empty() ? a.n : pmul(a.n, expandDen(ma));
    Poly nb = mb.empty() ? b.n : pmul(b.n, expandDen(mb));
    r.n = padd(na, nb, sgn);
    r.d = L;
    if (r.n.empty())
      r.d.clear();
    else
      cancel(r);
    return r;
  }
  RF mul(const RF& a, const RF& b) {
    RF r;
    if (a.n.empty() || b.n.empty()) return r;
    if (a.isConst()) {
      r = b;
      r.n = pscale(r.n, a.n[0].c);
      return r;
    }
    if (b.isConst()) {
      r = a;
      r.n = pscale(r.n, b.n[0].c);
      return r;
    }
    RF x, y;
    x.n = a.n;
    x.d = b.d;
    cancel(x);
    y.n = b.n;
    y.d = a.d;
    cancel(y);
    r.n = pmul(x.n, y.n);
    r.d = x.d;
    for (auto& fe : y.d) addFactor(r.d, fe.first, fe.second);
    if (anySqrt) cancel(r);
    return r;
  }
  // Splits p (nonzero) into content * monomial vars * known factors * rest.
  mpq_class factorize(Poly p, std::vector<std::pair<int, int>>& out) {
    mpq_class c = primitive(p);
    // monomial content
    MonoV g = mt.v[p[0].m];
    for (auto& t : p) {
      MonoV h;
      const MonoV& w = mt.v[t.m];
      size_t i = 0, j = 0;
      while (i < g.size() && j < w.size()) {
        if (g[i].first > w[j].first)
          i++;
        else if (g[i].first < w[j].first)
          j++;
        else {
          h.push_back({g[i].first, std::min(g[i].second, w[j].second)});
          i++;
          j++;
        }
      }
      g = h;
      if (g.empty()) break;
    }
    if (!g.empty()) {
      MonoId gm = mt.intern(g);
      for (auto& t : p) {
        MonoId q;
        mt.divides(gm, t.m, &q);
        t.m = q;
      }
      std::sort(p.begin(), p.end(), [&](const Term& x, const Term& y) { return mt.cmp(x.m, y.m) > 0; });
      for (auto& ve : g) addFactor(out, internPoly(pvar(ve.first)), ve.second);
    }
    if (p.size() == 1 && p[0].m == 0) return c * p[0].c;
    for (size_t f = 0; f < polys.size(); f++) {
      if (!polyIsFactor[f]) continue;
      if (polys[f].size() > p.size() * 8 || polys[f].size() < 2) continue;
      Poly q;
      while (pdiv(p, polys[f], &q)) {
        p = q;
        addFactor(out, f, 1);
        if (p.size() == 1) break;
      }
      if (p.size() == 1 && p[0].m == 0) break;
    }
    if (p.size() == 1) {
      mpq_class c2 = p[0].c;
      for (auto& ve : mt.v[p[0].m]) addFactor(out, internPoly(pvar(ve.first)), ve.second);
      return c * c2;
    }
    mpq_class c2 = primitive(p);
    int id = internPoly(p);
    polyIsFactor[id] = 1;
    addFactor(out, id, 1);
    return c * c2;
  }
  // a / b, b nonzero (as polynomial and, by path condition, as a value)
  RF div(const RF& a, const RF& b) {
    RF inv;
    std::vector<std::pair<int, int>> fs;
    mpq_class c = factorize(b.n, fs);
    inv.n = pscale(expandDen(b.d), 1 / c);
    // rationalise pure sqrt atoms in the new denominator: 1/s -> s/P
    bool redo = false;
    std::vector<std::pair<int, int>> fs2;
    for (auto& fe : fs) {
      const Poly& f = polys[fe.first];
      if (f.size() == 1 && mt.v[f[0].m].size() == 1) {
        int v = mt.v[f[0].m][0].first;
        if (atoms[v].kind == 1) {
          redo = true;
          for (int k = 0; k < fe.second; k++) {
            Poly P = polys[atoms[v].sq_poly];
            inv.n = pmul(inv.n, pvar(v));
            std::vector<std::pair<int, int>> g;
            mpq_class c3 = factorize(P, g);
            inv.n = pscale(inv.n, 1 / c3);
            for (auto& q : g) addFactor(fs2, q.first, q.second);
          }
          continue;
        }
      }
      addFactor(fs2, fe.first, fe.second);
    }
    (void)redo;
    inv.d = fs2;
    cancel(inv);
    return mul(a, inv);
  }
  // polynomial square root: p = c * q^2 with rational c>0 square? returns true and q with p == q^2
  bool psqrt(const Poly& p, Poly* q) {
    if (p.empty()) {
      *q = Poly();
      return true;
    }
    auto qsqrt = [&](const mpq_class& c, mpq_class* s) {
      if (c < 0) return false;
      if (!mpz_perfect_square_p(c.get_num_mpz_t()) || !mpz_perfect_square_p(c.get_den_mpz_t())) return false;
      mpz_class a, b;
      mpz_sqrt(a.get_mpz_t(), c.get_num_mpz_t());
      mpz_sqrt(b.get_mpz_t(), c.get_den_mpz_t());
      *s = mpq_class(a, b);
      return true;
    };
    auto msqrt = [&](MonoId m, MonoId* r) {
      MonoV v = mt.v[m];
      for (auto& x : v) {
        if (x.second & 1) return false;
        x.second /= 2;
      }
      *r = mt.intern(v);
      return true;
    };
    mpq_class lc;
    MonoId lm;
    if (!msqrt(p[0].m, &lm) || !qsqrt(p[0].c, &lc)) return false;
    MonoId tm;
    mpq_class tc;
    if (!msqrt(p.back().m, &tm) || !qsqrt(p.back().c, &tc)) return false;
    Poly res;
    res.push_back({lm, lc});
    Poly rem = p;
    rem.erase(rem.begin());
    size_t steps = 0;
    while (!rem.empty()) {
      MonoId t;
      if (!mt.divides(lm, rem[0].m, &t)) return false;
      if (mt.cmp(t, res.back().m) >= 0) return false;
      mpq_class c = rem[0].c / (2 * lc);
      Poly one;
      one.push_back({t, c});
      // (res + one)^2 - res^2 = 2 res one + one^2
      Poly d = pmulRaw(res, one);
      rem = padd(rem, d, -2);
      rem = padd(rem, pmulRaw(one, one), -1);
      res.push_back({t, c});
      if (++steps > 200) return false;
    }
    *q = res;
    return true;
  }
  // ---- sign reasoning
  int signOfMono(MonoId m) const {
    int s = 4;
    for (auto& ve : mt.v[m]) {
      int a = atoms[ve.first].sgn;
      if (atoms[ve.first].kind == 1) a &= 6;
      int x;
      if (ve.second % 2 == 0)
        x = (a & 2 ? 2 : 0) | (a & 5 ? 4 : 0);
      else
        x = a;
      s = mulSign(s, x);
    }
    return s;
  }
  static int mulSign(int a, int b) {
    int r = 0;
    if ((a & 2) || (b & 2)) r |= 2;
    if (((a & 4) && (b & 4)) || ((a & 1) && (b & 1))) r |= 4;
    if (((a & 4) && (b & 1)) || ((a & 1) && (b & 4))) r |= 1;
    return r;
  }
  static int addSign(int a, int b) {
    int r = 0;
    if ((a & 4) || (b & 4)) r |= 4;
    if ((a & 1) || (b & 1)) r |= 1;
    if ((a & 2) && (b & 2)) r |= 2;
    if (((a & 4) && (b & 1)) || ((a & 1) && (b & 4))) r |= 7;
    return r;
  }
  static int negSign(int a) { return (a & 2) | (a & 1 ? 4 : 0) | (a & 4 ? 1 : 0); }
  int signSyntactic(const Poly& p) const {
    if (p.empty()) return 2;
    int s = 0;
    bool first = true;
    for (auto& t : p) {
      int x = signOfMono(t.m);
      if (t.c < 0) x = negSign(x);
      s = first ? x : addSign(s, x);
      first = false;
      if (s == 7) return 7;
    }
    return s;
  }
  // numeric evaluation
  double evalPoly(const Poly& p, const std::vector<double>& x, double* scale = nullptr) const {
    double s = 0, sc = 0;
    for (auto& t : p) {
      double v = t.c.get_d();
      for (auto& ve : mt.v[t.m])
        for (uint32_t k = 0; k < ve.second; k++) v *= x[ve.first];
      s += v;
      sc += std::fabs(v);
    }
    if (scale) *scale = sc;
    return s;
  }
  double eval(const RF& r, const std::vector<double>& x) const {
    double v = evalPoly(r.n, x);
    for (auto& fe : r.d) {
      double f = evalPoly(polys[fe.first], x);
      for (int k = 0; k < fe.second; k++) v /= f;
    }
    return v;
  }
};

// simplest rational within half an ulp-ish of d (Stern-Brocot); exact for integers
inline mpq_class idealise(double d) {
  if (d == std::floor(d) && std::fabs(d) < 9e15) return mpq_class((long)d);
  if (std::fabs(d) > 1e300) return mpq_class(d);
  mpq_class x(d);
  bool neg = x < 0;
  if (neg) x = -x;
  double ad = std::fabs(d);
  mpq_class lo(std::nextafter(ad, 0.0)), hi(std::nextafter(ad, INFINITY));
  // simplest rational in [lo,hi] via continued fractions
  mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  mpq_class a = lo, b = hi;
  for (int it = 0; it < 200; it++) {
    mpz_class fa, fb;
    mpz_fdiv_q(fa.get_mpz_t(), a.get_num_mpz_t(), a.get_den_mpz_t());
    mpz_fdiv_q(fb.get_mpz_t(), b.get_num_mpz_t(), b.get_den_mpz_t());
    mpz_class k;
    bool stop = false;
    if (fa == fb && a != mpq_class(fa)) {
      k = fa;
    } else {
      // ceil(a)
      if (a == mpq_class(fa))
        k = fa;
      else
        k = fa + 1;
      stop = true;
    }
    mpz_class p2 = k * p1 + p0, q2 = k * q1 + q0;
    p0 = p1;
    q0 = q1;
    p1 = p2;
    q1 = q2;
    if (stop) break;
    mpq_class na = 1 / (b - mpq_class(k)), nb = 1 / (a - mpq_class(k));
    a = na;
    b = nb;
  }
  mpq_class r(p1, q1);
  r.canonicalize();
  if (r < lo || r > hi || mpz_sizeinbase(r.get_den_mpz_t(), 2) > 40) r = mpq_class(ad);
  return neg ? mpq_class(-r) : r;
}
}  // namespace rf
