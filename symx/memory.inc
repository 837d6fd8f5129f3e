// ---------------------------------------------------------------- memory
static std::map<uint64_t, Obj*> objs;
static Obj* ocache[16];
static uint64_t heapCur, heapEnd, stackCur, stackEnd;
static const uint64_t REDZ = 32;
static Obj* lastFreed = nullptr;
static std::map<uint64_t, Obj*> freedObjs;

static void memInit() {
  size_t hs = 1ull << 36, ss = 1ull << 32;
  void* h = mmap((void*)0x100000000000ull, hs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void* s = mmap((void*)0x200000000000ull, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (h == MAP_FAILED || s == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  heapCur = (uint64_t)h + 4096;
  heapEnd = (uint64_t)h + hs;
  stackCur = (uint64_t)s + 4096;
  stackEnd = (uint64_t)s + ss;
}
static Obj* addObj(uint64_t base, uint64_t size, int kind, const string& name, bool uninit) {
  Obj* o = new Obj();
  o->base = base;
  o->size = size;
  o->kind = kind;
  o->name = name;
  if (uninit && size) {
    o->tags.assign(size, 1);
    o->anyTag = true;
  }
  objs[base] = o;
  return o;
}
static uint64_t heapAlloc(uint64_t size, uint64_t align = 16, bool uninit = true) {
  uint64_t a = (heapCur + REDZ + align - 1) / align * align;
  heapCur = a + size + REDZ;
  if (heapCur > heapEnd || size > (1ull << 32)) throw Unsup{"allocation too large"};
  memset((void*)a, 0xCD, std::min<uint64_t>(size, 1 << 20));
  addObj(a, size, 0, "heap", uninit);
  return a;
}
static Obj* findObj(uint64_t a) {
  Obj* c = ocache[(a >> 6) & 15];
  if (c && a >= c->base && a < c->base + c->size) return c;
  auto it = objs.upper_bound(a);
  if (it == objs.begin()) return nullptr;
  --it;
  Obj* o = it->second;
  if (a >= o->base && a < o->base + o->size) {
    ocache[(a >> 6) & 15] = o;
    return o;
  }
  return nullptr;
}
static void removeObj(Obj* o) {
  objs.erase(o->base);
  for (auto& c : ocache)
    if (c == o) c = nullptr;
  delete o;
}
static string where();
static void reportViolation(const string& lab, const std::function<bool(Model&)>& getModel);
static void memViolation(const string& what) {
  string lab = "memory-safety: " + what + " at " + where();
  reportViolation(lab, nullptr);
  endPath(1);
}
static Obj* checkAccess(uint64_t a, uint64_t n, const char* what) {
  Obj* o = findObj(a);
  if (!o || a + n > o->base + o->size) {
    if (n == 0) return o;
    char buf[200];
    string ctx = "no object";
    auto it = objs.upper_bound(a);
    if (o)
      ctx = "past end of " + o->name + "[" + std::to_string(o->size) + "]";
    else if (it != objs.begin()) {
      --it;
      if (a - it->second->base < it->second->size + 4096)
        ctx = "after " + it->second->name + "[" + std::to_string(it->second->size) + "] offset " +
              std::to_string(a - it->second->base);
    }
    if (!o) {
      auto f = freedObjs.upper_bound(a);
      if (f != freedObjs.begin()) {
        --f;
        if (a < f->second->base + f->second->size) ctx = "use after free";
      }
    }
    snprintf(buf, sizeof buf, "invalid %s of %lu bytes (%s)", what, (unsigned long)n, ctx.c_str());
    memViolation(buf);
  }
  return o;
}
static void splitCell(Obj* o, uint32_t off) {
  // break the cell that contains off strictly inside into byte cells (ints) or uninit (reals)
  auto it = o->cells.upper_bound(off);
  if (it == o->cells.begin()) return;
  --it;
  uint32_t s = it->first, n = it->second.second;
  if (off <= s || off >= s + n) return;
  Val v = it->second.first;
  o->cells.erase(it);
  for (uint32_t i = 0; i < n; i++) {
    if (v.k == K_SI && v.w == n * 8) {
      z3::expr b = (*IT)[v.t].extract(8 * i + 7, 8 * i).simplify();
      Val bv = mkSI(b, 8);
      if (bv.k == K_I) {
        *(uint8_t*)(o->base + s + i) = bv.u;
        o->tags[s + i] = 0;
      } else {
        o->cells[s + i] = {bv, 1};
        o->tags[s + i] = 2;
      }
    } else
      o->tags[s + i] = 1;
  }
}
static void clearRange(Obj* o, uint32_t off, uint32_t n, uint8_t tag) {
  if (!o->anyTag) {
    if (tag == 0) return;
    o->tags.assign(o->size, 0);
    o->anyTag = true;
  }
  if (!o->cells.empty()) {
    splitCell(o, off);
    splitCell(o, off + n);
    auto a = o->cells.lower_bound(off), b = o->cells.lower_bound(off + n);
    o->cells.erase(a, b);
  }
  memset(&o->tags[off], tag, n);
}
static void putCell(Obj* o, uint32_t off, uint32_t n, const Val& v) {
  clearRange(o, off, n, 3);
  o->tags[off] = 2;
  o->cells[off] = {v, n};
}
// store scalar of n bytes
static void storeScalar(uint64_t a, const Val& v, uint32_t n, bool isDouble, bool isFloat = false) {
  Obj* o = checkAccess(a, n, "write");
  uint32_t off = a - o->base;
  if (o->kind == 3) memViolation("write to constant");
  switch (v.k) {
    case K_I:
      clearRange(o, off, n, 0);
      memcpy((void*)a, &v.u, n);
      break;
    case K_F:
      clearRange(o, off, n, 0);
      if (isFloat) {
        float f = v.d;
        memcpy((void*)a, &f, 4);
      } else
        memcpy((void*)a, &v.d, 8);
      break;
    case K_SI:
      if (v.w == 1) {
        z3::expr e = bvOf(v, 1);
        putCell(o, off, n, mkSI(n * 8 > 1 ? z3::zext(e, n * 8 - 1) : e, n * 8));
      } else if ((uint32_t)v.w < n * 8)
        putCell(o, off, n, mkSI(z3::zext((*IT)[v.t], n * 8 - v.w), n * 8));
      else
        putCell(o, off, n, v);
      break;
    case K_SR: putCell(o, off, n, v); break;
    case K_UNDEF: clearRange(o, off, n, 1); break;
    default: throw Unsup{"store aggregate"};
  }
}
static Val loadScalar(uint64_t a, uint32_t n, int w, bool isDouble, bool isFloat = false) {
  Obj* o = checkAccess(a, n, "read");
  uint32_t off = a - o->base;
  bool conc = true;
  if (o->anyTag)
    for (uint32_t i = 0; i < n; i++)
      if (o->tags[off + i]) {
        conc = false;
        break;
      }
  if (conc) {
    if (isDouble) {
      double d;
      memcpy(&d, (void*)a, 8);
      return mkF(d);
    }
    if (isFloat) {
      float f;
      memcpy(&f, (void*)a, 4);
      return mkF(f);
    }
    uint64_t u = 0;
    memcpy(&u, (void*)a, n);
    return mkI(u, w);
  }
  if (o->tags[off] == 2) {
    auto it = o->cells.find(off);
    if (it != o->cells.end() && it->second.second == n) {
      Val v = it->second.first;
      if (isDouble && v.k == K_SI) {
        Val r = havocReal("mem");
        putCell(o, off, n, r);
        return r;
      }
      if (v.k == K_SI && !isDouble && w < (int)v.w) {
        if (w == 1) return mkSI(((*IT)[v.t].extract(0, 0) == Z->bv_val(1, 1)).simplify(), 1);
        return mkSI((*IT)[v.t].extract(w - 1, 0).simplify(), w);
      }
      return v;
    }
  }
  bool allUninit = true;
  for (uint32_t i = 0; i < n; i++)
    if (o->tags[off + i] != 1) allUninit = false;
  if (isDouble) {
    if (!allUninit) logmsg("mixed double load");
    Val r = havocReal("uninit");
    putCell(o, off, n, r);
    return r;
  }
  if (isFloat) throw Unsup{"float load of symbolic"};
  if (allUninit) {
    Val r = havocInt(n * 8, "uninit");
    putCell(o, off, n, r);
    if (w < (int)n * 8) {
      if (w == 1) return mkSI((*IT)[r.t].extract(0, 0) == Z->bv_val(1, 1), 1);
      return mkSI((*IT)[r.t].extract(w - 1, 0), w);
    }
    return r;
  }
  // byte assemble
  vector<z3::expr> bytes;
  for (uint32_t i = 0; i < n;) {
    uint8_t t = o->tags[off + i];
    if (t == 0) {
      bytes.push_back(Z->bv_val((unsigned)*(uint8_t*)(a + i), 8));
      i++;
    } else if (t == 1) {
      Val h = havocInt(8, "uninitb");
      putCell(o, off + i, 1, h);
      bytes.push_back((*IT)[h.t]);
      i++;
    } else {
      splitCell(o, off + i);
      auto it = o->cells.upper_bound(off + i);
      if (it == o->cells.begin()) throw Unsup{"cell"};
      --it;
      uint32_t s = it->first, cn = it->second.second;
      Val v = it->second.first;
      if (v.k != K_SI || s != off + i) throw Unsup{"partial read of a symbolic real"};
      if (s + cn > off + n) {
        splitCell(o, off + n);
        continue;
      }
      for (uint32_t j = 0; j < cn; j++) bytes.push_back((*IT)[v.t].extract(8 * j + 7, 8 * j));
      i += cn;
    }
  }
  z3::expr e = bytes[n - 1];
  for (int i = (int)n - 2; i >= 0; i--) e = z3::concat(e, bytes[i]);
  e = e.simplify();
  if (w < (int)n * 8) {
    if (w == 1) return mkSI((e.extract(0, 0) == Z->bv_val(1, 1)).simplify(), 1);
    e = e.extract(w - 1, 0).simplify();
  }
  return mkSI(e, w);
}
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (n == 0 || d == s) return;
  Obj* so = checkAccess(s, n, "read");
  Obj* dob = checkAccess(d, n, "write");
  uint32_t so0 = s - so->base, d0 = d - dob->base;
  // collect source shadow
  vector<uint8_t> tg;
  std::map<uint32_t, std::pair<Val, uint32_t>> cs;
  bool any = false;
  if (so->anyTag) {
    if (!so->cells.empty()) {
      splitCell(so, so0);
      splitCell(so, so0 + n);
      for (auto it = so->cells.lower_bound(so0); it != so->cells.end() && it->first < so0 + n; ++it)
        cs[it->first - so0] = it->second;
    }
    tg.assign(so->tags.begin() + so0, so->tags.begin() + so0 + n);
    for (auto t : tg)
      if (t) any = true;
  }
  clearRange(dob, d0, n, 0);
  memmove((void*)d, (void*)s, n);
  if (any) {
    if (!dob->anyTag) {
      dob->tags.assign(dob->size, 0);
      dob->anyTag = true;
    }
    std::copy(tg.begin(), tg.end(), dob->tags.begin() + d0);
    for (auto& c : cs) dob->cells[d0 + c.first] = c.second;
  }
}
static void memFill(uint64_t d, uint8_t b, uint64_t n) {
  if (!n) return;
  Obj* o = checkAccess(d, n, "write");
  clearRange(o, d - o->base, n, 0);
  memset((void*)d, b, n);
}
static void memFree(uint64_t a) {
  if (!a) return;
  auto it = objs.find(a);
  if (it == objs.end()) {
    memViolation("free of a pointer that is not a live heap block");
    return;
  }
  Obj* o = it->second;
  if (o->kind != 0) memViolation("free of non-heap memory");
  objs.erase(it);
  for (auto& c : ocache)
    if (c == o) c = nullptr;
  o->tags.clear();
  o->tags.shrink_to_fit();
  o->cells.clear();
  freedObjs[a] = o;
}
static void markInit(uint64_t a, uint64_t n) {
  Obj* o = findObj(a);
  if (o) clearRange(o, a - o->base, std::min<uint64_t>(n, o->base + o->size - a), 0);
}
