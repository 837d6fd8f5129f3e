// ---------------------------------------------------------------- violations & models
static string jesc(const string& s) {
  string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if ((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}
static bool intModel(std::map<int, uint64_t>& iv, const vector<z3::expr>& extra) {
  z3::solver sv(*Z);
  for (auto& p : *PC) {
    bool real = false;
    for (int q : p.vars)
      if (q < IV) real = true;
    if (!real) sv.add(p.e);
  }
  for (auto& e : extra)
    if (!isRealCond(e)) sv.add(e);
  if (sv.check() != z3::sat) return false;
  z3::model m = sv.get_model();
  for (size_t i = 0; i < intVars->size(); i++) {
    z3::expr e = m.eval((*intVars)[i].e, true);
    uint64_t u = 0;
    if (e.is_true())
      u = 1;
    else
      e.is_numeral_u64(u);
    iv[i] = u;
  }
  return true;
}
// collects several real assignments satisfying PC (and the extra condition)
static void realModels(vector<vector<double>>& out, const vector<z3::expr>& extra, const rf::RF* diff, size_t want) {
  auto ok = [&](const vector<double>& s) {
    for (auto& e : extra)
      if (isRealCond(e) && evalBool(e, s) != 1) return false;
    if (diff && !(std::fabs(W.eval(*diff, s)) > 1e-4)) return false;
    return true;
  };
  bool anyReal = false;
  for (auto& a : W.atoms)
    if (a.kind == 0) anyReal = true;
  if (!anyReal) {
    out.push_back(vector<double>(W.atoms.size(), 0.0));
    return;
  }
  for (auto& s : pool)
    if (out.size() < want && ok(s)) out.push_back(s);
  for (int t = 0; t < 3000 && out.size() < want; t++) {
    vector<double> s(W.atoms.size());
    bool base = !pool.empty() && (t & 1);
    if (base) s = pool[rng() % pool.size()];
    for (size_t i = 0; i < s.size(); i++)
      if (W.atoms[i].kind == 0 && (!base || rng() % 3 == 0)) s[i] = randVal(lowB[i], highB[i]);
    if (!fillDerived(s, 0)) continue;
    if (sampleOK(s) && ok(s)) out.push_back(s);
  }
}
static int violCount = 0;
static bool writeViolation(const string& lab, const vector<vector<double>>& rm, const std::map<int, uint64_t>& iv) {
  string f = outdir + "/viol-" + std::to_string(getpid()) + "-" + std::to_string(violCount++) + ".json";
  std::ofstream os(f);
  os << "{\"label\":\"" << jesc(lab) << "\",\"where\":\"" << jesc(where()) << "\",\"maybe\":" << (pathMaybe ? "true" : "false")
     << ",\"models\":[";
  for (size_t k = 0; k < rm.size(); k++) {
    os << (k ? "," : "") << "{";
    bool first = true;
    for (auto& in : inputs) {
      os << (first ? "" : ",") << "\"" << jesc(in.key) << "\":\"";
      first = false;
      char buf[64];
      if (in.ix < 0)
        snprintf(buf, sizeof buf, "%.17g", in.c);
      else if (in.real)
        snprintf(buf, sizeof buf, "%.17g", rm[k][in.ix]);
      else {
        auto it = iv.find(in.ix);
        uint64_t u = it == iv.end() ? 0 : it->second;
        int w = (*intVars)[in.ix].w;
        int64_t s = w == 64 ? (int64_t)u : (int64_t)(u << (64 - w)) >> (64 - w);
        if (w == 1) s = u & 1;
        snprintf(buf, sizeof buf, "%ld", (long)s);
      }
      os << buf << "\"";
    }
    os << "}";
  }
  os << "]}\n";
  return true;
}
static void violate(const string& lab, const vector<z3::expr>& extra, const rf::RF* diff, bool* confirmed) {
  ShmLabel* L = label(shm->labels, 2048, lab);
  long n = L->violated++;
  shm->violations++;
  if (confirmed) *confirmed = true;
  if (n >= 8) return;
  if (getenv("SX_DBG")) {
    std::ostringstream os;
    os << "VIOL " << lab << " maybe=" << pathMaybe << "\n";
    for (auto& e : *PC) os << "   pc " << e.e << "\n";
    for (auto& e : extra) os << "   bad " << e << "\n";
    fputs(os.str().c_str(), stderr);
  }
  std::map<int, uint64_t> iv;
  if (!intModel(iv, extra)) {
    logmsg("violation without int model");
    return;
  }
  vector<vector<double>> rm;
  realModels(rm, extra, diff, 6);
  if (rm.size() < 3) {
    // ask the solver: first with box and margin, then plain
    vector<z3::expr> box;
    for (size_t i = 0; i < W.atoms.size(); i++)
      if (W.atoms[i].kind == 0) {
        box.push_back((*atomZ)[i] <= Z->real_val(16));
        box.push_back((*atomZ)[i] >= Z->real_val(-16));
      }
    for (int mode = 0; mode < 3 && rm.size() < 6; mode++) {
      vector<z3::expr> q;
      for (auto& e : extra)
        if (isRealCond(e)) q.push_back(e);
      if (mode < 2)
        for (auto& b : box) q.push_back(b);
      if (mode == 0 && diff) {
        // margin on the numerator's value (denominators bounded away from zero by the box in practice)
        z3::expr n = polyZ(diff->n);
        q.push_back(n * n >= zq(mpq_class(1, 100)));
      }
      Model m;
      if (checkSat(q, &m, 15, true) == SAT && m.ok) {
        vector<double> s(W.atoms.size(), 0.0);
        if (!pool.empty()) s = pool[0];
        for (auto& kv : m.v)
          if (kv.first < IV && std::isfinite(kv.second)) s[kv.first] = kv.second;
        rm.push_back(s);
      }
    }
  }
  if (rm.empty()) {
    logmsg("violation without real model: " + lab);
    vector<double> s(W.atoms.size(), 0.0);
    rm.push_back(s);
  }
  writeViolation(lab, rm, iv);
}
static void reportViolation(const string& lab, const std::function<bool(Model&)>&) {
  shm->asserts++;
  violate(lab, {}, nullptr, nullptr);
}

// ---------------------------------------------------------------- harness API
static string cstr(const Val& v) {
  if (v.k != K_I) throw Unsup{"symbolic string"};
  return string((const char*)v.u);
}
static string freshKey(const string& n) { return n + "#" + std::to_string(nameCount["in:" + n]++); }

static void assertCond(const string& lab, const z3::expr& bad, const rf::RF* diff) {
  shm->asserts++;
  ShmLabel* L = label(shm->labels, 2048, lab);
  L->reached++;
  if (bad.is_false()) {
    L->trivial++;
    return;
  }
  auto it = rcondOf->find(bad.id());
  bool witness = bad.is_true() && !pathMaybe;
  if (!witness && isRealCond(bad))
    for (auto& s : pool)
      if (evalBool(bad, s) == 1 && (!diff || std::fabs(W.eval(*diff, s)) > 1e-6)) {
        witness = true;
        break;
      }
  R3 r = SAT;
  if (!witness) r = checkSat({bad}, nullptr, opt_.aqtimeout);
  if (r == UNSAT) {
    L->discharged++;
    return;
  }
  if (r == UNK && it != rcondOf->end()) {
    // fall back on sign facts already established on this path
    int m = W.polySign[it->second.poly] & W.signSyntactic(W.polys[it->second.poly]);
    if ((m & it->second.mask) == 0) {
      L->trivial++;
      return;
    }
  }
  if (r == UNK) {
    L->undecided++;
    shm->undecided++;
    return;
  }
  violate(lab, {bad}, diff, nullptr);
  // continue on the part of the path where the assertion holds, if any
  if (!bad.is_true()) {
    z3::expr good = !bad;
    if (it != rcondOf->end()) good = rcondExpr(it->second.poly, 7 & ~it->second.mask);
    R3 g = checkSat({good});
    if (g == SAT) addPC(good, true);
  }
}
// independent confirmation of a normal-form identity by the solver on un-normalised terms
static void confirmIdentity(const rf::RF& a, const rf::RF& b, ShmLabel* L) {
  shm->norm_identity++;
  if (a.n.size() * (b.d.size() + 1) + b.n.size() * (a.d.size() + 1) > 6000) {
    L->trivial++;
    return;
  }
  z3::expr x = polyZ(a.n), y = polyZ(b.n);
  for (auto& fe : b.d)
    for (int k = 0; k < fe.second; k++) x = x * polyIdZ(fe.first);
  for (auto& fe : a.d)
    for (int k = 0; k < fe.second; k++) y = y * polyIdZ(fe.first);
  if (x.id() == y.id()) {
    z3::expr q = !(x == y);
    if (q.simplify().is_false()) {
      shm->norm_confirmed++;
      L->discharged++;
      shm->queries++;
      shm->qreal++;
      shm->qunsat++;
      return;
    }
  }
  z3::expr q = !(x == y);
  R3 r = checkSat({q}, nullptr, 0);
  if (r == UNSAT) {
    shm->norm_confirmed++;
    L->discharged++;
  } else
    L->trivial++;
}
static z3::expr signNF(const rf::RF& d, int mask) {
  noFacts = true;
  z3::expr e = Z->bool_val(false);
  try {
    e = signCond(d, mask);
  } catch (...) {
    noFacts = false;
    throw;
  }
  noFacts = false;
  return e;
}
static void assertDiff(const Val& a, const Val& b, int goodMask, const mpq_class& tol, const string& lab) {
  // goodMask over sign(a-b-tol...) ; for equality goodMask==2 with tolerance
  shm->asserts++;
  ShmLabel* L = label(shm->labels, 2048, lab);
  if (nonfin(a) || nonfin(b)) {
    L->reached++;
    double x = a.k == K_F ? a.d : 0, y = b.k == K_F ? b.d : 0;
    bool ok = goodMask == 2 ? (x == y) : goodMask == 3 ? x <= y : x < y;
    if (!ok)
      violate(lab, {}, nullptr, nullptr);
    else
      L->trivial++;
    return;
  }
  Val A = a, B = b;
  if (A.k == K_SI || A.k == K_UNDEF) A = havocReal("undef");
  if (B.k == K_SI || B.k == K_UNDEF) B = havocReal("undef");
  rf::RF x = re(A), y = re(B), d;
  try {
    d = W.add(x, y, -1);
  } catch (rf::TooBig&) {
    L->reached++;
    L->undecided++;
    shm->undecided++;
    return;
  }
  if (goodMask == 2) {
    if (d.n.empty()) {
      L->reached++;
      if (x.isConst() && y.isConst())
        L->trivial++;
      else
        confirmIdentity(x, y, L);
      return;
    }
    if (d.isConst()) {
      mpq_class v = abs(d.constVal());
      double sc = 1e-11 * (1 + std::fabs(A.k == K_F ? A.d : 0) + std::fabs(B.k == K_F ? B.d : 0));
      L->reached++;
      if (v <= tol || v.get_d() <= sc) {
        L->trivial++;
        return;
      }
      violate(lab, {}, &d, nullptr);
      return;
    }
    if (tol == 0) {
      shm->asserts--;
      assertCond(lab, signNF(d, 5), &d);
      return;
    }
    rf::RF u = W.add(d, W.fromQ(tol), -1), l = W.add(d, W.fromQ(tol), 1);
    z3::expr bad = signNF(u, 4) || signNF(l, 1);
    shm->asserts--;
    assertCond(lab, bad, &d);
    return;
  }
  if (tol != 0) d = W.add(d, W.fromQ(tol), -1);
  if (d.n.empty() && goodMask == 3 && !(x.isConst() && y.isConst())) {
    L->reached++;
    confirmIdentity(x, y, L);
    return;
  }
  shm->asserts--;
  assertCond(lab, signNF(d, 7 & ~goodMask), nullptr);
}

static void boundAtom(int a, double lo, double hi) {
  // lo <= x <= hi as path constraints
  rf::RF x = W.fromAtom(a);
  lowB[a] = lo;
  highB[a] = hi;
  if (lo > 0) W.atoms[a].sgn = 4;
  else if (lo == 0) W.atoms[a].sgn &= 6;
  if (hi < 0) W.atoms[a].sgn = 1;
  else if (hi == 0) W.atoms[a].sgn &= 3;
  poolExtend();
  auto add = [&](const z3::expr& e) { PC->push_back({e, varsOf(e)}); };
  if (std::isfinite(lo)) {
    rf::RF d = W.add(x, W.fromQ(rf::idealise(lo)), -1);
    rf::Poly p = d.n;
    W.primitive(p);
    z3::expr e = rcondExpr(W.internPoly(p), 6);
    learn(e, true);
    add(e);
  }
  if (std::isfinite(hi)) {
    rf::RF d = W.add(x, W.fromQ(rf::idealise(hi)), -1);
    rf::Poly p = d.n;
    W.primitive(p);
    z3::expr e = rcondExpr(W.internPoly(p), 3);
    learn(e, true);
    add(e);
  }
}

static bool randFixed = false;
static unsigned randState = 12345;
static void setupHandlers() {
  auto& H = handlers;
  H["sx_rand_fixed"] = [](vector<Val>& a, const CallBase*) { randFixed = a[0].u & 0xff; return Val(); };
  H["sx_split"] = [](vector<Val>& a, const CallBase*) { return a[0].k == K_I ? a[0] : mkI(concretize(ie(a[0], 32), 32, "split"), 32); };
  H["sx_symbolic"] = [](vector<Val>&, const CallBase*) { return mkI(1, 32); };
  H["sx_real"] = [](vector<Val>& a, const CallBase*) {
    string k = freshKey(cstr(a[0]));
    int at = newRealAtom(k, 0);
    poolExtend();
    inputs.push_back({k, true, at, 0});
    return mkReal(W.fromAtom(at));
  };
  H["sx_real_in"] = [](vector<Val>& a, const CallBase*) {
    string k = freshKey(cstr(a[0]));
    int at = newRealAtom(k, 0);
    inputs.push_back({k, true, at, 0});
    boundAtom(at, a[1].d, a[2].d);
    return mkReal(W.fromAtom(at));
  };
  H["sx_int"] = [](vector<Val>& a, const CallBase*) {
    string k = freshKey(cstr(a[0]));
    int lo = (int)a[1].u, hi = (int)a[2].u;
    int i = newIntVar(k, 32, true);
    z3::expr e = (*intVars)[i].e;
    if (lo != INT32_MIN) {
      z3::expr c = e >= Z->bv_val(lo, 32);
      PC->push_back({c, varsOf(c)});
    }
    if (hi != INT32_MAX) {
      z3::expr c = e <= Z->bv_val(hi, 32);
      PC->push_back({c, varsOf(c)});
    }
    inputs.push_back({k, false, i, 0});
    return mkSI(e, 32);
  };
  H["sx_choose"] = [](vector<Val>& a, const CallBase*) {
    string k = freshKey(cstr(a[0]));
    int lo = (int)a[1].u, hi = (int)a[2].u;
    int v = lo;
    for (; v < hi; v++)
      if (forkPath()) break;
    inputs.push_back({k, false, -1, (double)v});
    return mkI((uint64_t)(int64_t)v, 32);
  };
  H["sx_assume"] = [](vector<Val>& a, const CallBase*) {
    if (a[0].k == K_I) {
      if (!(a[0].u & 1)) {
        shm->infeasible++;
        endPath(3);
      }
      return Val();
    }
    z3::expr c = (*IT)[a[0].t];
    bool wit = false;
    if (isRealCond(c))
      for (auto& s : pool)
        if (evalBool(c, s) == 1) wit = true;
    Model m;
    R3 r = SAT;
    if (!wit) r = checkSat({c}, &m);
    if (r == UNSAT) {
      shm->infeasible++;
      endPath(3);
    }
    if (r == UNK) pathMaybe = true;
    addPC(c, true);
    if (pool.empty() && !wit) addModelSample(m);
    return Val();
  };
  H["sx_assert"] = [](vector<Val>& a, const CallBase*) {
    Val v = a[0];
    string lab = cstr(a[1]);
    if (v.k == K_UNDEF) v = mkI(0, 1);
    if (v.k == K_I) {
      shm->asserts++;
      ShmLabel* L = label(shm->labels, 2048, lab);
      L->reached++;
      if (v.u & 1)
        L->trivial++;
      else
        violate(lab, {}, nullptr, nullptr);
      return Val();
    }
    z3::expr c = (*IT)[v.t];
    z3::expr bad = intBin(Instruction::Xor, v, mkI(1, 1), 1).k == K_SI ? (*IT)[intBin(Instruction::Xor, v, mkI(1, 1), 1).t] : !c;
    assertCond(lab, bad, nullptr);
    return Val();
  };
  H["sx_assert_eq"] = [](vector<Val>& a, const CallBase*) {
    assertDiff(a[0], a[1], 2, 0, cstr(a[2]));
    return Val();
  };
  H["sx_assert_near"] = [](vector<Val>& a, const CallBase*) {
    assertDiff(a[0], a[1], 2, rf::idealise(a[2].d), cstr(a[3]));
    return Val();
  };
  H["sx_assert_le"] = [](vector<Val>& a, const CallBase*) {
    assertDiff(a[0], a[1], 3, 0, cstr(a[2]));
    return Val();
  };
  H["sx_assert_lt"] = [](vector<Val>& a, const CallBase*) {
    assertDiff(a[0], a[1], 1, 0, cstr(a[2]));
    return Val();
  };
  H["sx_witness"] = [](vector<Val>& a, const CallBase*) {
    label(shm->wit, 512, cstr(a[0]) + (pathMaybe ? " (maybe)" : ""))->reached++;
    return Val();
  };
  H["sx_observe"] = [](vector<Val>& a, const CallBase*) {
    string k = freshKey("obs:" + cstr(a[0]));
    observed.push_back({k, a[1]});
    return Val();
  };
  H["sx_stop"] = [](vector<Val>& a, const CallBase*) {
    logmsg("cut: " + cstr(a[0]));
    shm->cut++;
    endPath(2);
    return Val();
  };
  H["sx_havoc_bytes"] = [](vector<Val>& a, const CallBase*) {
    Obj* o = checkAccess(a[0].u, a[1].u, "havoc");
    clearRange(o, a[0].u - o->base, a[1].u, 1);
    return Val();
  };
  // --- allocation
  auto nw = [](vector<Val>& a, const CallBase*) {
    uint64_t n = a[0].k == K_I ? a[0].u : (uint64_t)concretize(ie(a[0], 64), 64, "allocation size");
    if (n > (1ull << 34)) {
      throw Unsup{"huge allocation"};
    }
    return mkI(heapAlloc(n), 64);
  };
  for (auto s : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) H[s] = nw;
  H["calloc"] = [](vector<Val>& a, const CallBase*) {
    uint64_t n = a[0].u * a[1].u;
    uint64_t p = heapAlloc(n, 16, false);
    memset((void*)p, 0, n);
    return mkI(p, 64);
  };
  H["_ZnwmSt11align_val_t"] = [](vector<Val>& a, const CallBase*) { return mkI(heapAlloc(a[0].u, std::max<uint64_t>(16, a[1].u)), 64); };
  H["_ZnamSt11align_val_t"] = H["_ZnwmSt11align_val_t"];
  H["aligned_alloc"] = [](vector<Val>& a, const CallBase*) { return mkI(heapAlloc(a[1].u, std::max<uint64_t>(16, a[0].u)), 64); };
  H["posix_memalign"] = [](vector<Val>& a, const CallBase*) {
    uint64_t p = heapAlloc(a[2].u, std::max<uint64_t>(16, a[1].u));
    storeScalar(a[0].u, mkI(p, 64), 8, false);
    return mkI(0, 32);
  };
  H["realloc"] = [](vector<Val>& a, const CallBase*) {
    uint64_t p = heapAlloc(a[1].u);
    if (a[0].u) {
      Obj* o = findObj(a[0].u);
      if (!o) memViolation("realloc of invalid pointer");
      memCopy(p, a[0].u, std::min<uint64_t>(o->size, a[1].u));
      memFree(a[0].u);
    }
    return mkI(p, 64);
  };
  auto del = [](vector<Val>& a, const CallBase*) {
    if (a[0].k == K_SI) memViolation("free of an indeterminate pointer");
    memFree(a[0].u);
    return Val();
  };
  for (auto s : {"_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"})
    H[s] = del;
  // --- exceptions
  H["__cxa_allocate_exception"] = [](vector<Val>& a, const CallBase*) { return mkI(heapAlloc(a[0].u + 64, 16, false), 64); };
  H["__cxa_free_exception"] = [](vector<Val>& a, const CallBase*) { return Val(); };
  H["__cxa_throw"] = [](vector<Val>& a, const CallBase*) -> Val {
    curExc = a[0].u;
    curExcTI = a[1].u;
    unwind(runBase);
    throw Threw();
  };
  H["__cxa_rethrow"] = [](vector<Val>& a, const CallBase*) -> Val {
    if (caught.empty()) memViolation("rethrow without exception");
    curExc = caught.back().first;
    curExcTI = caught.back().second;
    unwind(runBase);
    throw Threw();
  };
  H["__cxa_begin_catch"] = [](vector<Val>& a, const CallBase*) {
    caught.push_back({curExc, curExcTI});
    return a[0];
  };
  H["__cxa_end_catch"] = [](vector<Val>& a, const CallBase*) {
    if (!caught.empty()) caught.pop_back();
    return Val();
  };
  H["_ZSt9terminatev"] = [](vector<Val>& a, const CallBase*) -> Val {
    reportViolation("terminate: std::terminate called at " + where(), nullptr);
    endPath(1);
    return Val();
  };
  H["__clang_call_terminate"] = H["_ZSt9terminatev"];
  H["abort"] = [](vector<Val>& a, const CallBase*) -> Val {
    reportViolation("abort at " + where(), nullptr);
    endPath(1);
    return Val();
  };
  H["__assert_fail"] = H["abort"];
  H["exit"] = H["abort"];
  H["__cxa_pure_virtual"] = H["abort"];
  auto thr = [](int kind) {
    return [kind](vector<Val>& a, const CallBase*) -> Val {
      uint64_t p = heapAlloc(128, 16, false);
      string msg = "library exception";
      if (!a.empty() && a[0].k == K_I && kind != 0 && kind != 5) msg = (const char*)a[0].u;
      switch (kind) {
        case 0: new ((void*)p) std::bad_alloc(); throwNative(p, &typeid(std::bad_alloc)); break;
        case 1: new ((void*)p) std::length_error(msg); throwNative(p, &typeid(std::length_error)); break;
        case 2: new ((void*)p) std::out_of_range(msg); throwNative(p, &typeid(std::out_of_range)); break;
        case 3: new ((void*)p) std::logic_error(msg); throwNative(p, &typeid(std::logic_error)); break;
        case 4: new ((void*)p) std::invalid_argument(msg); throwNative(p, &typeid(std::invalid_argument)); break;
        case 5: new ((void*)p) std::bad_function_call(); throwNative(p, &typeid(std::bad_function_call)); break;
      }
      throw Threw();
    };
  };
  H["_ZSt17__throw_bad_allocv"] = thr(0);
  H["_ZSt28__throw_bad_array_new_lengthv"] = thr(0);
  H["__cxa_throw_bad_array_new_length"] = thr(0);
  H["_ZSt20__throw_length_errorPKc"] = thr(1);
  H["_ZSt20__throw_out_of_rangePKc"] = thr(2);
  H["_ZSt24__throw_out_of_range_fmtPKcz"] = thr(2);
  H["_ZSt19__throw_logic_errorPKc"] = thr(3);
  H["_ZSt24__throw_invalid_argumentPKc"] = thr(4);
  H["_ZSt25__throw_bad_function_callv"] = thr(5);
  // --- std::runtime_error etc: native constructors on host memory
  auto natCtor = [](const char* n) {
    void* p = dlsym(RTLD_DEFAULT, n);
    return [p](vector<Val>& a, const CallBase*) -> Val {
      markInit(a[0].u, 16);
      ((void (*)(void*, void*))p)((void*)a[0].u, (void*)(a.size() > 1 ? a[1].u : 0));
      return Val();
    };
  };
  for (auto s : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc",
                 "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12length_errorC1EPKc",
                 "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                 "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"})
    H[s] = natCtor(s);
  auto nop = [](vector<Val>& a, const CallBase* c) { return a.empty() ? mkI(0, 64) : a[0]; };
  for (auto s : {"_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt11logic_errorD1Ev",
                 "_ZNSt9exceptionD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12length_errorD1Ev"})
    H[s] = nop;
  // --- misc
  H["__cxa_atexit"] = [](vector<Val>& a, const CallBase*) { return mkI(0, 32); };
  H["__cxa_guard_acquire"] = [](vector<Val>& a, const CallBase*) {
    Val v = loadScalar(a[0].u, 1, 8, false);
    return mkI(v.k == K_I && v.u ? 0 : 1, 32);
  };
  H["__cxa_guard_release"] = [](vector<Val>& a, const CallBase*) {
    storeScalar(a[0].u, mkI(1, 8), 1, false);
    return Val();
  };
  H["__cxa_guard_abort"] = nop;
  for (auto s : {"printf", "puts", "putchar", "fprintf", "fputs", "fflush", "fwrite"}) H[s] = [](vector<Val>&, const CallBase*) { return mkI(0, 32); };
  H["strlen"] = [](vector<Val>& a, const CallBase*) { return mkI(strlen((char*)a[0].u), 64); };
  H["memcmp"] = [](vector<Val>& a, const CallBase*) {
    if (a[2].u) {
      checkAccess(a[0].u, a[2].u, "read");
      checkAccess(a[1].u, a[2].u, "read");
      auto symbolic = [](uint64_t p, uint64_t n) {
        Obj* o = findObj(p);
        if (o->anyTag)
          for (uint64_t i = 0; i < n; i++)
            if (o->tags[p - o->base + i]) return true;
        return false;
      };
      if (symbolic(a[0].u, a[2].u) || symbolic(a[1].u, a[2].u)) {
        const uint32_t st = a[2].u % 4 ? 1 : 4;
        for (uint64_t i = 0; i < a[2].u; i += st) {
          Val x = loadScalar(a[0].u + i, st, 8 * st, false), y = loadScalar(a[1].u + i, st, 8 * st, false);
          if ((x.k != K_I && x.k != K_SI) || (y.k != K_I && y.k != K_SI)) throw Unsup{"comparison of the bytes of a symbolic real"};
          z3::expr ex = ie(x, 8 * st), ey = ie(y, 8 * st);
          if (decide((ex == ey).simplify())) continue;
          if (st == 4) {
            auto swap = [](const z3::expr& e) { return z3::concat(z3::concat(e.extract(7, 0), e.extract(15, 8)), z3::concat(e.extract(23, 16), e.extract(31, 24))); };
            ex = swap(ex);
            ey = swap(ey);
          }
          return mkI((uint64_t)(int64_t)(decide(z3::ult(ex, ey).simplify()) ? -1 : 1), 32);
        }
        return mkI(0, 32);
      }
    }
    return mkI((uint64_t)(int64_t)memcmp((void*)a[0].u, (void*)a[1].u, a[2].u), 32);
  };
  H["bcmp"] = H["memcmp"];
  H["strcmp"] = [](vector<Val>& a, const CallBase*) { return mkI((uint64_t)(int64_t)strcmp((char*)a[0].u, (char*)a[1].u), 32); };
  H["memchr"] = [](vector<Val>& a, const CallBase*) { return mkI((uint64_t)memchr((void*)a[0].u, (int)a[1].u, a[2].u), 64); };
  H["memcpy"] = [](vector<Val>& a, const CallBase*) {
    memCopy(a[0].u, a[1].u, a[2].u);
    return a[0];
  };
  H["memmove"] = H["memcpy"];
  H["memset"] = [](vector<Val>& a, const CallBase*) {
    memFill(a[0].u, a[1].u, a[2].u);
    return a[0];
  };
  H["rand"] = [](vector<Val>& a, const CallBase*) {
    // an arbitrary value in [0, RAND_MAX]; an input of the run (the native runtime replays it)
    string k = freshKey("rand");
    if (randFixed) {
      randState = randState * 1103515245u + 12345u;
      int v = (int)((randState >> 8) & 0x7fff) << 16;
      inputs.push_back({k, false, -1, (double)v});
      return mkI((uint64_t)(int64_t)v, 32);
    }
    int at = newRealAtom(k, 0);
    inputs.push_back({k, true, at, 0});
    boundAtom(at, 0, 2147483647.0);
    {
      // RAND_MAX is odd, so 2*rand() - RAND_MAX is never zero
      rf::RF x = W.fromAtom(at);
      rf::RF d = W.add(W.mul(x, W.fromQ(2)), W.fromQ(rf::idealise(2147483647.0)), -1);
      rf::RF d2 = W.add(W.mul(d, d), W.fromQ(1), -1);
      rf::Poly p2 = d2.n;
      W.primitive(p2);
      z3::expr e2 = rcondExpr(W.internPoly(p2), 6);
      PC->push_back({e2, varsOf(e2)});
    }
    int i = newIntVar(k, 32, false);
    (*randAtom)[(*intVars)[i].e.id()] = at;
    return mkSI((*intVars)[i].e, 32);
  };
  H["srand"] = nop;
  auto fun1 = [](int f) { return [f](vector<Val>& a, const CallBase*) { return realFun(f, a[0]); }; };
  H["exp"] = fun1(1);
  H["log"] = fun1(2);
  H["cos"] = fun1(3);
  H["sin"] = fun1(4);
  H["sqrt"] = [](vector<Val>& a, const CallBase*) { return realSqrt(a[0]); };
  H["fabs"] = [](vector<Val>& a, const CallBase*) { return realAbs(a[0]); };
  auto pw = [](vector<Val>& a, const CallBase*) {
    if (a[0].k == K_F && a[1].k == K_F) {
      double r = std::pow(a[0].d, a[1].d);
      if (r == std::floor(r) || a[1].d != std::floor(a[1].d)) return mkF(r);
    }
    if (a[1].k != K_F || a[1].d != std::floor(a[1].d) || std::fabs(a[1].d) > 64) {
      if (a[1].k == K_F && a[1].d == 0.5) return realSqrt(a[0]);
      throw Unsup{"pow"};
    }
    int e = (int)std::fabs(a[1].d);
    Val r = mkF(1);
    for (int i = 0; i < e; i++) r = realBin('*', r, a[0]);
    if (a[1].d < 0) r = realBin('/', mkF(1), r);
    return r;
  };
  H["pow"] = pw;
  for (auto s : {"ldexp"})
    H[s] = [](vector<Val>& a, const CallBase*) { return realBin('*', a[0], mkF(std::ldexp(1.0, (int)a[1].u))); };
  for (auto p : std::vector<std::pair<const char*, double (*)(double)>>{{"floor", std::floor}, {"ceil", std::ceil}, {"round", std::round}, {"log2", std::log2}, {"log10", std::log10}, {"frexp1", std::fabs}}) {
    auto fp = p.second;
    H[p.first] = [fp](vector<Val>& a, const CallBase*) {
      if (a[0].k != K_F) throw Unsup{"libm function of a symbolic value"};
      return mkF(fp(a[0].d));
    };
  }
  H["fmax"] = [](vector<Val>& a, const CallBase*) { return truth(realCmp(a[0], a[1], 4, false)) ? a[0] : a[1]; };
  H["fmin"] = [](vector<Val>& a, const CallBase*) { return truth(realCmp(a[0], a[1], 1, false)) ? a[0] : a[1]; };
  // std::list / tree hooks
  H["_ZNSt8__detail15_List_node_base7_M_hookEPS0_"] = [](vector<Val>& a, const CallBase*) {
    uint64_t n = a[0].u, pos = a[1].u;
    Val prev = loadScalar(pos + 8, 8, 64, false);
    storeScalar(n, mkI(pos, 64), 8, false);
    storeScalar(n + 8, prev, 8, false);
    storeScalar(prev.u, mkI(n, 64), 8, false);
    storeScalar(pos + 8, mkI(n, 64), 8, false);
    return Val();
  };
  H["_ZNSt8__detail15_List_node_base9_M_unhookEv"] = [](vector<Val>& a, const CallBase*) {
    Val nx = loadScalar(a[0].u, 8, 64, false), pv = loadScalar(a[0].u + 8, 8, 64, false);
    storeScalar(pv.u, nx, 8, false);
    storeScalar(nx.u + 8, pv, 8, false);
    return Val();
  };
  auto treeIns = [](vector<Val>& a, const CallBase*) {
    markInit(a[1].u, 32);
    std::_Rb_tree_insert_and_rebalance(a[0].u & 1, (std::_Rb_tree_node_base*)a[1].u, (std::_Rb_tree_node_base*)a[2].u, *(std::_Rb_tree_node_base*)a[3].u);
    return Val();
  };
  H["_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"] = treeIns;
  H["_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"] = [](vector<Val>& a, const CallBase*) {
    return mkI((uint64_t)std::_Rb_tree_increment((std::_Rb_tree_node_base*)a[0].u), 64);
  };
  H["_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"] = H["_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"];
  H["_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base"] = [](vector<Val>& a, const CallBase*) {
    return mkI((uint64_t)std::_Rb_tree_decrement((std::_Rb_tree_node_base*)a[0].u), 64);
  };
  H["_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"] = [](vector<Val>& a, const CallBase*) {
    return mkI((uint64_t)std::_Rb_tree_rebalance_for_erase((std::_Rb_tree_node_base*)a[0].u, *(std::_Rb_tree_node_base*)a[1].u), 64);
  };
  H["__dynamic_cast"] = [](vector<Val>& a, const CallBase*) {
    typedef void* (*DC)(const void*, const void*, const void*, ptrdiff_t);
    static DC p = (DC)dlsym(RTLD_DEFAULT, "__dynamic_cast");
    return mkI((uint64_t)p((void*)a[0].u, (void*)a[1].u, (void*)a[2].u, (ptrdiff_t)a[3].u), 64);
  };
  H["_ZNSt6chrono3_V212system_clock3nowEv"] = [](vector<Val>& a, const CallBase*) { return mkI(0, 64); };
  H["_ZNSt6chrono3_V212steady_clock3nowEv"] = [](vector<Val>& a, const CallBase*) { return mkI(0, 64); };
}
static bool isIosName(StringRef n) {
  static const char* pre[] = {"_ZNSo", "_ZNKSo", "_ZNSi", "_ZNSt13basic_ostream", "_ZStlsISt11char_traits", "_ZStlsIcSt11char", "_ZStlsIdc", "_ZNSt8ios_base", "_ZNKSt8ios_base",
                              "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_insert", "_ZNSt7__cxx1118basic_stringstream",
                              "_ZNSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1118basic_stringstream", "_ZNSt7__cxx1115basic_stringbuf",
                              "_ZNSt15basic_streambuf", "_ZNSt6localeC", "_ZNSt6localeD", "_ZN5EigenlsI", "_ZN5Eigen8internal12print_matrix", "_ZN5conexlsI", "_ZStlsI", "_ZSt13__check_facet"};
  for (auto p : pre)
    if (n.starts_with(p)) return true;
  return false;
}
static Handler* findHandler(Function* F) {
  Fn* fn = getFn(F);
  if (fn->handlerChecked) return fn->handler;
  fn->handlerChecked = true;
  auto it = handlers.find(F->getName().str());
  if (it != handlers.end()) {
    fn->handler = &it->second;
    return fn->handler;
  }
  if (isIosName(F->getName())) {
    static Handler ios = [](vector<Val>& a, const CallBase* c) {
      Type* t = c->getType();
      if (t->isVoidTy()) return Val();
      if (t->isPointerTy()) return a.empty() ? mkI(0, 64) : a[0];
      if (t->isIntegerTy()) return mkI(0, t->getIntegerBitWidth());
      if (t->isDoubleTy()) return mkF(0);
      return undefOf(t);
    };
    fn->handler = &ios;
  }
  return fn->handler;
}
static Val intrinsic(const Ins& x, Intrinsic::ID id, vector<Val>& a, bool* h) {
  *h = true;
  auto fpv = [&](std::function<Val(const Val&)> g) -> Val {
    if (a[0].k == K_AGG) {
      Val v = mkAgg(a[0].agg->size());
      for (size_t i = 0; i < a[0].agg->size(); i++) (*v.agg)[i] = g((*a[0].agg)[i]);
      return v;
    }
    return g(a[0]);
  };
  int w = x.w;
  auto s2 = [&](uint64_t v) -> int64_t { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
  switch (id) {
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end:
    case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::donothing:
    case Intrinsic::prefetch:
    case Intrinsic::stackrestore: return mkI(0, 64);
    case Intrinsic::stacksave: return mkI(0, 64);
    case Intrinsic::expect:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::annotation: return a[0];
    case Intrinsic::is_constant: return mkI(0, 1);
    case Intrinsic::objectsize: return mkI((uint64_t)-1, w);
    case Intrinsic::trap: memViolation("trap"); return Val();
    case Intrinsic::memcpy:
    case Intrinsic::memmove: {
      uint64_t n = a[2].k == K_I ? a[2].u : (uint64_t)concretize(ie(a[2], 64), 64, "memcpy size");
      uint64_t d = addrOf(a[0], n, "write"), s = addrOf(a[1], n, "read");
      memCopy(d, s, n);
      return Val();
    }
    case Intrinsic::memset: {
      uint64_t n = a[2].k == K_I ? a[2].u : (uint64_t)concretize(ie(a[2], 64), 64, "memset size");
      uint64_t d = addrOf(a[0], n, "write");
      if (a[1].k != K_I) throw Unsup{"symbolic memset"};
      memFill(d, a[1].u, n);
      return Val();
    }
    case Intrinsic::fabs: return fpv(realAbs);
    case Intrinsic::sqrt: return fpv(realSqrt);
    case Intrinsic::exp: return fpv([](const Val& v) { return realFun(1, v); });
    case Intrinsic::log: return fpv([](const Val& v) { return realFun(2, v); });
    case Intrinsic::cos: return fpv([](const Val& v) { return realFun(3, v); });
    case Intrinsic::sin: return fpv([](const Val& v) { return realFun(4, v); });
    case Intrinsic::pow: return handlers["pow"](a, nullptr);
    case Intrinsic::powi: {
      vector<Val> b = {a[0], mkF((double)(int)a[1].u)};
      return handlers["pow"](b, nullptr);
    }
    case Intrinsic::fma:
    case Intrinsic::fmuladd: return realBin('+', realBin('*', a[0], a[1]), a[2]);
    case Intrinsic::maxnum: return handlers["fmax"](a, nullptr);
    case Intrinsic::minnum: return handlers["fmin"](a, nullptr);
    case Intrinsic::floor:
    case Intrinsic::ceil:
    case Intrinsic::rint:
    case Intrinsic::trunc:
      if (a[0].k != K_F) throw Unsup{"rounding of a symbolic value"};
      return mkF(id == Intrinsic::floor ? std::floor(a[0].d) : id == Intrinsic::ceil ? std::ceil(a[0].d) : id == Intrinsic::trunc ? std::trunc(a[0].d) : std::rint(a[0].d));
    case Intrinsic::copysign: {
      if (a[0].k == K_F && a[1].k == K_F) return mkF(std::copysign(a[0].d, a[1].d));
      Val m = realAbs(a[0]);
      bool neg = a[1].k == K_F ? std::signbit(a[1].d) : truth(realCmp(a[1], mkF(0), 1, false));
      return neg ? realNeg(m) : m;
    }
    case Intrinsic::is_fpclass: {
      unsigned mask = a[1].u;
      const Val& v = a[0];
      if (v.k == K_F) {
        bool nan = std::isnan(v.d), inf = std::isinf(v.d), neg = std::signbit(v.d);
        int cls = nan ? 2 : inf ? (neg ? 4 : 512) : v.d == 0 ? (neg ? 32 : 64) : (neg ? 8 : 256);
        return mkI((mask & cls) != 0, 1);
      }
      // finite symbolic
      int s = 0;
      if (mask & 8) s |= 1;
      if (mask & 64) s |= 2;
      if (mask & 256) s |= 4;
      return realCmp(v, mkF(0), s, false);
    }
    case Intrinsic::umax:
    case Intrinsic::umin:
    case Intrinsic::smax:
    case Intrinsic::smin: {
      if (a[0].k == K_AGG) throw Unsup{"vector minmax"};
      int p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
      Val c = intCmp(p, a[0], a[1], w);
      if (c.k == K_I) return c.u ? a[0] : a[1];
      return mkSI(z3::ite((*IT)[c.t], ie(a[0], w), ie(a[1], w)).simplify(), w);
    }
    case Intrinsic::abs: {
      if (a[0].k == K_I) return mkI((uint64_t)std::llabs(s2(a[0].u)), w);
      z3::expr e = ie(a[0], w);
      return mkSI(z3::ite(e < Z->bv_val(0, w), -e, e).simplify(), w);
    }
    case Intrinsic::ctpop: if (a[0].k == K_I) return mkI(__builtin_popcountll(a[0].u), w); break;
    case Intrinsic::ctlz: if (a[0].k == K_I) return mkI(a[0].u ? __builtin_clzll(a[0].u) - (64 - w) : w, w); break;
    case Intrinsic::cttz: if (a[0].k == K_I) return mkI(a[0].u ? __builtin_ctzll(a[0].u) : w, w); break;
    case Intrinsic::bswap: if (a[0].k == K_I && w == 64) return mkI(__builtin_bswap64(a[0].u), w); break;
    case Intrinsic::usub_sat: {
      Val c = intCmp(CmpInst::ICMP_UGT, a[0], a[1], w);
      if (c.k == K_I) return c.u ? mkI(a[0].u - a[1].u, w) : mkI(0, w);
      return mkSI(z3::ite((*IT)[c.t], ie(a[0], w) - ie(a[1], w), Z->bv_val(0, w)).simplify(), w);
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr:
      if (a[0].k == K_I && a[1].k == K_I && a[2].k == K_I) {
        unsigned s = a[2].u % w;
        if (id == Intrinsic::fshl) return mkI(s ? (a[0].u << s) | (a[1].u >> (w - s)) : a[0].u, w);
        return mkI(s ? (a[0].u << (w - s)) | (a[1].u >> s) : a[1].u, w);
      }
      break;
    case Intrinsic::umul_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: {
      int ww = cast<StructType>(x.ty)->getElementType(0)->getIntegerBitWidth();
      Val r = mkAgg(2);
      Val p = a[0], q = a[1];
      if (p.k != K_I) p = mkI(concretize(ie(p, ww), ww, "overflow op"), ww);
      if (q.k != K_I) q = mkI(concretize(ie(q, ww), ww, "overflow op"), ww);
      bool ov = false;
      uint64_t res = 0;
      if (ww == 64) {
        uint64_t u;
        long s;
        switch (id) {
          case Intrinsic::umul_with_overflow: ov = __builtin_mul_overflow(p.u, q.u, &u); res = u; break;
          case Intrinsic::uadd_with_overflow: ov = __builtin_add_overflow(p.u, q.u, &u); res = u; break;
          case Intrinsic::usub_with_overflow: ov = __builtin_sub_overflow(p.u, q.u, &u); res = u; break;
          case Intrinsic::smul_with_overflow: ov = __builtin_mul_overflow((long)p.u, (long)q.u, &s); res = s; break;
          case Intrinsic::sadd_with_overflow: ov = __builtin_add_overflow((long)p.u, (long)q.u, &s); res = s; break;
          default: ov = __builtin_sub_overflow((long)p.u, (long)q.u, &s); res = s; break;
        }
      } else if (ww == 32) {
        uint32_t u;
        int s;
        switch (id) {
          case Intrinsic::umul_with_overflow: ov = __builtin_mul_overflow((uint32_t)p.u, (uint32_t)q.u, &u); res = u; break;
          case Intrinsic::uadd_with_overflow: ov = __builtin_add_overflow((uint32_t)p.u, (uint32_t)q.u, &u); res = u; break;
          case Intrinsic::usub_with_overflow: ov = __builtin_sub_overflow((uint32_t)p.u, (uint32_t)q.u, &u); res = u; break;
          case Intrinsic::smul_with_overflow: ov = __builtin_mul_overflow((int)p.u, (int)q.u, &s); res = (uint32_t)s; break;
          case Intrinsic::sadd_with_overflow: ov = __builtin_add_overflow((int)p.u, (int)q.u, &s); res = (uint32_t)s; break;
          default: ov = __builtin_sub_overflow((int)p.u, (int)q.u, &s); res = (uint32_t)s; break;
        }
      } else
        throw Unsup{"overflow width"};
      (*r.agg)[0] = mkI(res, ww);
      (*r.agg)[1] = mkI(ov, 1);
      return r;
    }
    case Intrinsic::eh_typeid_for: return mkI(typeIdFor((void*)a[0].u), 32);
    case Intrinsic::vector_reduce_fadd: {
      Val s = a[0];
      for (auto& e : *a[1].agg) s = realBin('+', s, e);
      return s;
    }
    case Intrinsic::vector_reduce_or: 
    case Intrinsic::vector_reduce_and: 
    case Intrinsic::vector_reduce_add: {
      Val s = (*a[0].agg)[0];
      for (size_t i = 1; i < a[0].agg->size(); i++) s = intBin(id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Add, s, (*a[0].agg)[i], w);
      return s;
    }
    default: break;
  }
  *h = false;
  return Val();
}

// ---------------------------------------------------------------- driver
static void runFunction(Function* F, vector<Val> args) {
  size_t base = stk.size();
  pushFrame(F, args);
  while (stk.size() > base) step();
}
static void prepareModule(LLVMContext& C, const vector<string>& files, const string& cacheOut) {
  SMDiagnostic err;
  std::unique_ptr<Module> mod;
  for (auto& f : files) {
    auto m = parseIRFile(f, err, C);
    if (!m) {
      errs() << "cannot read " << f << ": " << err.getMessage() << "\n";
      exit(2);
    }
    if (!mod)
      mod = std::move(m);
    else if (Linker::linkModules(*mod, std::move(m))) {
      errs() << "link failed " << f << "\n";
      exit(2);
    }
  }
  M = mod.release();
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    if (isIosName(F.getName()) || handlers.count(F.getName().str())) {
      F.deleteBody();
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::ExternalLinkage);
    } else if (F.hasAvailableExternallyLinkage()) {
      F.setLinkage(GlobalValue::InternalLinkage);
    }
  }
  internalizeModule(*M, [](const GlobalValue& g) { return g.getName() == "sx_main"; });
  PipelineTuningOptions pto;
  pto.LoopVectorization = false;
  pto.SLPVectorization = false;
  pto.LoopUnrolling = false;
  pto.LoopInterleaving = false;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB(nullptr, pto);
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  {
    ModulePassManager P;
    P.addPass(GlobalDCEPass());
    P.run(*M, MAM);
  }
  ModulePassManager P2 = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
  P2.run(*M, MAM);
  if (!cacheOut.empty()) {
    std::error_code ec;
    raw_fd_ostream os(cacheOut, ec);
    WriteBitcodeToFile(*M, os);
  }
}
static void writeSample() {
  if (opt_.sampleEvery <= 0 || pathMaybe) return;
  long s = shm->samples.load();
  if (s >= opt_.sampleEvery) return;
  if (s > opt_.sampleEvery / 3 && rng() % 8) return;
  std::map<int, uint64_t> iv;
  if (!intModel(iv, {})) return;
  vector<vector<double>> rm;
  bool anyReal = false;
  for (auto& a : W.atoms)
    if (a.kind == 0) anyReal = true;
  if (!anyReal)
    rm.push_back(vector<double>(W.atoms.size(), 0.0));
  else {
    for (auto& s2 : pool) {
      // prefer samples that are clearly inside
      if (sampleOK(s2)) {
        rm.push_back(s2);
        break;
      }
    }
  }
  if (rm.empty()) return;
  s = shm->samples++;
  if (s >= opt_.sampleEvery) return;
  string f = outdir + "/sample-" + std::to_string(s) + ".json";
  std::ofstream os(f);
  os << "{\"inputs\":{";
  bool first = true;
  for (auto& in : inputs) {
    char buf[64];
    if (in.ix < 0)
      snprintf(buf, sizeof buf, "%.17g", in.c);
    else if (in.real)
      snprintf(buf, sizeof buf, "%.17g", rm[0][in.ix]);
    else {
      uint64_t u = iv[in.ix];
      int w = (*intVars)[in.ix].w;
      int64_t q = w == 64 ? (int64_t)u : (int64_t)(u << (64 - w)) >> (64 - w);
      snprintf(buf, sizeof buf, "%ld", (long)q);
    }
    os << (first ? "" : ",") << "\"" << jesc(in.key) << "\":\"" << buf << "\"";
    first = false;
  }
  os << "},\"obs\":{";
  first = true;
  for (auto& o : observed) {
    double v;
    if (o.v.k == K_F)
      v = o.v.d;
    else if (o.v.k == K_SR)
      v = W.eval((*RT)[o.v.t], rm[0]);
    else
      continue;
    if (!std::isfinite(v)) continue;
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", v);
    os << (first ? "" : ",") << "\"" << jesc(o.key) << "\":" << buf;
    first = false;
  }
  os << "}}\n";
}

int main(int argc, char** argv) {
  t0 = now();
  vector<string> files;
  string cacheOut;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() { return string(argv[++i]); };
    if (a == "-o") outdir = nx();
    else if (a == "-deadline") opt_.deadline = atof(nx().c_str());
    else if (a == "-jobs") opt_.jobs = atoi(nx().c_str());
    else if (a == "-qtimeout") opt_.qtimeout = atof(nx().c_str());
    else if (a == "-aqtimeout") opt_.aqtimeout = atof(nx().c_str());
    else if (a == "-rlimit") opt_.rlimit = atol(nx().c_str());
    else if (a == "-maxpaths") opt_.maxPaths = atol(nx().c_str());
    else if (a == "-maxinstr") opt_.maxInstr = atol(nx().c_str());
    else if (a == "-samples") opt_.sampleEvery = atoi(nx().c_str());
    else if (a == "-seed") opt_.seed = atoi(nx().c_str());
    else if (a == "-enumcap") opt_.enumCap = atoi(nx().c_str());
    else if (a == "-dumpq") opt_.dumpQueries = nx();
    else if (a == "-cache") cacheOut = nx();
    else if (a == "-v") opt_.verbose = true;
    else files.push_back(a);
  }
  rng.seed(opt_.seed * 7919 + 17);
  setupHandlers();
  LLVMContext C;
  prepareModule(C, files, cacheOut);
  DL = &M->getDataLayout();
  for (auto& F : *M)
    for (auto& B : F) {
      bbId[&B] = nBlocks++;
      bbList.push_back(&B);
    }
  size_t shmSize = sizeof(Shm) + nBlocks + 64;
  shm = (Shm*)mmap(nullptr, shmSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shm->tokens = opt_.jobs - 1;
  shm->paths = 1;
  memInit();
  z3::context ctx;
  Z = &ctx;
  IT = new vector<z3::expr>();
  RT = new vector<rf::RF>();
  atomZ = new vector<z3::expr>();
  intVars = new vector<IntVar>();
  rcondOf = new std::unordered_map<unsigned, RCond>();
  PC = new vector<PCItem>();
  varCache = new std::unordered_map<unsigned, vector<int>>();
  polyZc = new vector<z3::expr>();
  for (int i = 0; i < 24; i++) pool.push_back({});
  double tPrep = now() - t0;
  pid_t root = getpid();
  string how = "completed";
  // The exploration runs in its own process group under a supervisor that
  // enforces the deadline (an over-long polynomial or solver call is killed
  // and recorded as a deadline hit).
  pid_t explorer = fork();
  if (explorer == 0) {
    setpgid(0, 0);
    explorer = 0;
    // no stuck solver call outlives the run, even when the supervisor is gone
    rlim_t cpu = (rlim_t)(opt_.deadline * 1.15 + 60);
    struct rlimit rl = {cpu, cpu};
    setrlimit(RLIMIT_CPU, &rl);
  } else {
    setpgid(explorer, explorer);
    bool killed = false;
    for (;;) {
      int st;
      pid_t r = waitpid(explorer, &st, WNOHANG);
      if (r == explorer) {
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !killed) {
          shm->unsupported++;
          logmsg("exploration process died");
        }
        break;
      }
      if (!killed && now() - t0 > opt_.deadline * 1.15 + 10) {
        killed = true;
        shm->deadline++;
        logmsg("killed at deadline");
        kill(-explorer, SIGKILL);
      }
      usleep(2000);
    }
    kill(-explorer, SIGKILL);
  }
  if (explorer == 0)
  try {
    for (auto& g : M->globals())
      if (!g.isDeclaration()) globalAddr(&g);
    for (auto& g : M->globals())
      if (!g.isDeclaration() && g.hasInitializer()) try {
          initMem(globalAddr(&g), g.getInitializer());
        } catch (Unsup& u) {
          logmsg("global init: " + u.msg + " " + g.getName().str());
        }
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
      if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& o : ca->operands()) {
          auto* cs = cast<ConstantStruct>(o.get());
          if (auto* F = dyn_cast<Function>(cs->getOperand(1))) runFunction(F, {});
        }
    }
    Function* mainF = M->getFunction("sx_main");
    if (!mainF) {
      errs() << "no sx_main\n";
      exit(2);
    }
    runFunction(mainF, {});
    shm->completed++;
    if (pathMaybe) shm->maybe++;
    try {
      writeSample();
    } catch (...) {
    }
  } catch (PathEnd& e) {
    how = "end" + std::to_string(e.kind);
  } catch (Unsup& u) {
    shm->unsupported++;
    logmsg("unsupported: " + u.msg + " at " + where());
  } catch (rf::TooBig&) {
    shm->unsupported++;
    logmsg("unsupported: polynomial too large at " + where());
  } catch (z3::exception& e) {
    shm->unsupported++;
    logmsg(string("z3 exception: ") + e.msg() + " at " + where());
  } catch (std::exception& e) {
    shm->unsupported++;
    logmsg(string("engine exception: ") + e.what() + " at " + where());
  }
  shm->instrs += icount;
  if (holdToken && getpid() != root) {
    shm->tokens++;
  }
  for (pid_t p : parallelKids) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
      ;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      shm->unsupported++;
      logmsg("path process died");
    }
  }
  if (getpid() != root) _exit(0);
  // ---- summary
  std::set<string> fnames;
  std::map<string, std::set<unsigned>> lines;
  for (int i = 0; i < nBlocks; i++) {
    if (!shm->bb[i].load()) continue;
    for (auto& I : *bbList[i]) {
      DILocation* L = I.getDebugLoc();
      while (L) {
        string file = L->getFilename().str();
        string full = (L->getDirectory().str().empty() || file[0] == '/') ? file : L->getDirectory().str() + "/" + file;
        if (full.find("/repo/") != string::npos && full.find("/repo/") == 0) {
          DISubprogram* sp = L->getScope()->getSubprogram();
          if (sp) {
            string ln = sp->getLinkageName().str();
            if (ln.empty()) ln = sp->getName().str();
            int st;
            char* d = abi::__cxa_demangle(ln.c_str(), 0, 0, &st);
            string nm = d ? d : ln;
            if (d) free(d);
            auto par = nm.find('(');
            if (nm.size() > 160) nm = nm.substr(0, 160);
            (void)par;
            auto sl = full.rfind('/');
            fnames.insert((sl == string::npos ? full : full.substr(sl + 1)) + ":" + nm);
          }
          lines[full].insert(L->getLine());
        }
        L = L->getInlinedAt();
      }
    }
  }
  auto& S = *shm;
  string out = outdir + "/summary.json";
  std::ofstream os(out);
  os << "{\n";
#define OUT(k) os << "\"" #k "\":" << S.k.load() << ",\n";
  OUT(paths) OUT(completed) OUT(unsupported) OUT(truncated) OUT(deadline) OUT(cut) OUT(infeasible) OUT(queries) OUT(qsat) OUT(qunsat) OUT(qunk) OUT(qbv) OUT(qreal) OUT(qext)
      OUT(sample_decided) OUT(facts_decided) OUT(asserts) OUT(violations) OUT(undecided) OUT(instrs) OUT(maybe) OUT(norm_identity) OUT(norm_confirmed) OUT(samples)
  os << "\"solver_s\":" << S.solver_us.load() / 1e6 << ",\n\"prep_s\":" << tPrep << ",\n\"wall_s\":" << now() - t0 << ",\n";
  auto dump = [&](const char* nm, ShmLabel* t, int n, bool full) {
    os << "\"" << nm << "\":{";
    bool first = true;
    for (int i = 0; i < n; i++) {
      if (t[i].used.load() != 2) continue;
      os << (first ? "" : ",") << "\n \"" << jesc(t[i].name) << "\":";
      first = false;
      if (full)
        os << "{\"reached\":" << t[i].reached << ",\"discharged\":" << t[i].discharged << ",\"trivial\":" << t[i].trivial << ",\"undecided\":" << t[i].undecided
           << ",\"violated\":" << t[i].violated << "}";
      else
        os << t[i].reached;
    }
    os << "}";
  };
  dump("labels", S.labels, 2048, true);
  os << ",\n";
  dump("witness", S.wit, 512, false);
  os << ",\n";
  dump("messages", S.msgs, 128, false);
  os << ",\n\"functions\":[";
  bool first = true;
  for (auto& f : fnames) {
    os << (first ? "" : ",") << "\n \"" << jesc(f) << "\"";
    first = false;
  }
  os << "],\n\"lines\":{";
  first = true;
  for (auto& kv : lines) {
    os << (first ? "" : ",") << "\n \"" << jesc(kv.first) << "\":" << kv.second.size();
    first = false;
  }
  os << "}\n}\n";
  os.close();
  if (opt_.verbose) {
    std::ifstream is(out);
    fprintf(stderr, "%s", string((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()).c_str());
  }
  _exit(0);
}
