// ---------------------------------------------------------------- interpreter
static Module* M;
static const DataLayout* DL;
struct Ins {
  unsigned op;
  int dst = -1;
  int w = 0;           // bits of result / operand
  int sz = 0;          // memory size
  uint8_t tk = 0;      // type kind of result/access: 0 int 1 double 2 ptr 3 agg/vec 4 float 5 void
  uint8_t pred = 0;
  const Instruction* I = nullptr;
  vector<int> o;
  uint64_t imm = 0;
  vector<std::pair<int, int64_t>> g;  // gep (operand, scale); idx width in gw
  vector<int> gw;
  Type* ty = nullptr;
  int t0 = -1, t1 = -1;
  int ci = 0;  // call info
};
struct BlockInfo {
  int start;
  vector<std::pair<int, vector<int>>> phis;  // dst, per predecessor operand (index by pred order list)
  vector<int> preds;
  int id;  // global bb id
};
struct Fn;
typedef std::function<Val(vector<Val>&, const CallBase*)> Handler;
struct Fn {
  Function* F;
  bool decoded = false;
  int nslots = 0;
  vector<Ins> code;
  vector<BlockInfo> blocks;
  vector<Val> consts;
  Handler* handler = nullptr;
  bool handlerChecked = false;
  int id;
};
static std::unordered_map<const Function*, Fn*> fns;
static std::unordered_map<uint64_t, Function*> fnByAddr;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<string, Handler> handlers;
static int nBlocks = 0;
static vector<const BasicBlock*> bbList;
static std::unordered_map<const BasicBlock*, int> bbId;

struct Frame {
  Fn* fn;
  vector<Val> r;
  int pc = 0;
  int bb = 0;
  const Ins* call = nullptr;  // call instruction in this frame currently executing
  vector<Obj*> allocas;
  uint64_t savedStack;
  vector<Val> args;
};
static std::vector<Frame*> stk;
static long icount = 0;
static std::map<const void*, int> typeIds;  // typeinfo address -> selector
static uint64_t curExc = 0, curExcTI = 0;
static vector<std::pair<uint64_t, uint64_t>> caught;

static int tkOf(Type* t) {
  if (t->isIntegerTy()) return 0;
  if (t->isDoubleTy()) return 1;
  if (t->isPointerTy()) return 2;
  if (t->isFloatTy()) return 4;
  if (t->isVoidTy()) return 5;
  return 3;
}
static string srcLoc(const Instruction* I) {
  if (!I) return "?";
  DILocation* L = I->getDebugLoc();
  string res;
  int depth = 0;
  while (L && depth < 12) {
    string f = L->getFilename().str();
    auto p = f.find("conex/");
    bool inRepo = f.find("/repo/") != string::npos || f.rfind("conex/", 0) == 0 || f.rfind("interfaces/", 0) == 0;
    (void)p;
    if (inRepo || f.find("harness") != string::npos) {
      auto sl = f.rfind('/');
      return (sl == string::npos ? f : f.substr(sl + 1)) + ":" + std::to_string(L->getLine());
    }
    L = L->getInlinedAt();
    depth++;
  }
  return "";
}
static string where() {
  for (int i = (int)stk.size() - 1; i >= 0; i--) {
    const Instruction* I = nullptr;
    Frame* f = stk[i];
    int pc = i == (int)stk.size() - 1 ? f->pc - 1 : f->pc - 1;
    if (pc >= 0 && pc < (int)f->fn->code.size()) I = f->fn->code[pc].I;
    string s = srcLoc(I);
    if (!s.empty() && s != "?") return s;
  }
  return "?";
}
static Val constVal(const Constant* c);
static uint64_t globalAddr(const GlobalValue* g);
static Val zeroOf(Type* t) {
  switch (tkOf(t)) {
    case 0: return mkI(0, t->getIntegerBitWidth());
    case 1:
    case 4: return mkF(0.0);
    case 2: return mkI(0, 64);
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    Val v = mkAgg(st->getNumElements());
    for (unsigned i = 0; i < st->getNumElements(); i++) (*v.agg)[i] = zeroOf(st->getElementType(i));
    return v;
  }
  uint64_t n;
  Type* e;
  if (auto* at = dyn_cast<ArrayType>(t)) {
    n = at->getNumElements();
    e = at->getElementType();
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    n = vt->getNumElements();
    e = vt->getElementType();
  } else
    throw Unsup{"zero of type"};
  Val v = mkAgg(n);
  for (uint64_t i = 0; i < n; i++) (*v.agg)[i] = zeroOf(e);
  return v;
}
static Val undefOf(Type* t) {
  if (tkOf(t) != 3) {
    Val v;
    v.k = K_UNDEF;
    return v;
  }
  Val v = zeroOf(t);
  std::function<void(Val&)> rec = [&](Val& x) {
    if (x.k == K_AGG)
      for (auto& y : *x.agg) rec(y);
    else
      x.k = K_UNDEF;
  };
  rec(v);
  return v;
}
static Val constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) throw Unsup{"wide int"};
    return mkI(ci->getZExtValue(), ci->getBitWidth());
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (cf->getType()->isDoubleTy()) return mkF(cf->getValueAPF().convertToDouble());
    if (cf->getType()->isFloatTy()) return mkF(cf->getValueAPF().convertToFloat());
    throw Unsup{"fp const"};
  }
  if (isa<ConstantPointerNull>(c)) return mkI(0, 64);
  if (isa<UndefValue>(c)) return undefOf(c->getType());
  if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto* gv = dyn_cast<GlobalValue>(c)) return mkI(globalAddr(gv), 64);
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    Val v = mkAgg(cds->getNumElements());
    for (unsigned i = 0; i < cds->getNumElements(); i++) (*v.agg)[i] = constVal(cds->getElementAsConstant(i));
    return v;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    Val v = mkAgg(ca->getNumOperands());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) (*v.agg)[i] = constVal(ca->getOperand(i));
    return v;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsup{"const gep"};
        Val b = constVal(ce->getOperand(0));
        return mkI(b.u + off.getSExtValue(), 64);
      }
      case Instruction::PtrToInt: {
        Val b = constVal(ce->getOperand(0));
        return mkI(b.u, ce->getType()->getIntegerBitWidth());
      }
      case Instruction::IntToPtr:
      case Instruction::BitCast: return constVal(ce->getOperand(0));
      case Instruction::Add: return mkI(constVal(ce->getOperand(0)).u + constVal(ce->getOperand(1)).u, ce->getType()->getIntegerBitWidth());
      case Instruction::Sub: return mkI(constVal(ce->getOperand(0)).u - constVal(ce->getOperand(1)).u, ce->getType()->getIntegerBitWidth());
      case Instruction::Trunc: return mkI(constVal(ce->getOperand(0)).u, ce->getType()->getIntegerBitWidth());
      case Instruction::ICmp: {
        uint64_t a = constVal(ce->getOperand(0)).u, b = constVal(ce->getOperand(1)).u;
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return mkI(a == b, 1);
        if (ce->getPredicate() == CmpInst::ICMP_NE) return mkI(a != b, 1);
        break;
      }
    }
    throw Unsup{"constant expression"};
  }
  throw Unsup{"constant kind"};
}
static uint64_t fnRegion = 0, fnNext = 0;
static uint64_t globalAddr(const GlobalValue* g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  if (auto* a = dyn_cast<GlobalAlias>(g)) {
    uint64_t x = constVal(a->getAliasee()).u;
    return gaddr[g] = x;
  }
  if (auto* f = dyn_cast<Function>(g)) {
    if (!fnRegion) {
      fnRegion = (uint64_t)mmap((void*)0x300000000000ull, 1 << 26, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      fnNext = fnRegion + 64;
    }
    uint64_t a = fnNext;
    fnNext += 16;
    fnByAddr[a] = const_cast<Function*>(f);
    return gaddr[g] = a;
  }
  auto* v = cast<GlobalVariable>(g);
  if (v->isDeclaration()) {
    void* p = dlsym(RTLD_DEFAULT, v->getName().str().c_str());
    if (p) {
      Dl_info di;
      ElfW(Sym)* sym = nullptr;
      uint64_t size = 8;
      if (dladdr1(p, &di, (void**)&sym, RTLD_DL_SYMENT) && sym) size = std::max<uint64_t>(8, sym->st_size);
      if (!objs.count((uint64_t)p)) addObj((uint64_t)p, size, 2, "ext:" + v->getName().str(), false);
      return gaddr[g] = (uint64_t)p;
    }
    uint64_t a = heapAlloc(256, 16, false);
    memset((void*)a, 0, 256);
    objs[a]->kind = 2;
    objs[a]->name = "ext:" + v->getName().str();
    return gaddr[g] = a;
  }
  uint64_t sz = DL->getTypeAllocSize(v->getValueType());
  uint64_t a = heapAlloc(sz, std::max<uint64_t>(16, DL->getPreferredAlign(v).value()), false);
  memset((void*)a, 0, sz);
  Obj* o = objs[a];
  o->kind = 2;
  o->name = "global " + v->getName().str();
  gaddr[g] = a;
  return a;
}
static void initMem(uint64_t a, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = cds->getRawDataValues();
    memcpy((void*)a, s.data(), s.size());
    return;
  }
  if (auto* ca = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(ca->getType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(a + sl->getElementOffset(i), ca->getOperand(i));
    return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    Type* et = c->getType()->isArrayTy() ? c->getType()->getArrayElementType() : cast<FixedVectorType>(c->getType())->getElementType();
    uint64_t es = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(a + i * es, cast<Constant>(c->getOperand(i)));
    return;
  }
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) {
      APInt v = ci->getValue();
      memcpy((void*)a, v.getRawData(), v.getNumWords() * 8);
      return;
    }
  }
  if (c->getType()->isX86_FP80Ty()) {
    APInt v = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt();
    memcpy((void*)a, v.getRawData(), 10);
    return;
  }
  Val v = constVal(c);
  uint64_t n = DL->getTypeStoreSize(t);
  if (v.k == K_F) {
    if (t->isFloatTy()) {
      float f = v.d;
      memcpy((void*)a, &f, 4);
    } else
      memcpy((void*)a, &v.d, 8);
  } else if (v.k == K_I)
    memcpy((void*)a, &v.u, n);
}

static Fn* getFn(Function* F) {
  auto it = fns.find(F);
  if (it != fns.end()) return it->second;
  Fn* f = new Fn();
  f->F = F;
  f->id = fns.size();
  fns[F] = f;
  return f;
}
static void decode(Fn* fn) {
  fn->decoded = true;
  Function& F = *fn->F;
  std::unordered_map<const Value*, int> slot;
  std::unordered_map<const Value*, int> cslot;
  int n = 0;
  for (auto& a : F.args()) slot[&a] = n++;
  for (auto& I : instructions(F))
    if (!I.getType()->isVoidTy()) slot[&I] = n++;
  fn->nslots = n;
  std::unordered_map<const BasicBlock*, int> bix;
  int k = 0;
  for (auto& B : F) bix[&B] = k++;
  auto opnd = [&](const Value* v) -> int {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    auto c = dyn_cast<Constant>(v);
    if (!c) return ~0x3fffffff;
    auto ci = cslot.find(v);
    if (ci != cslot.end()) return ci->second;
    Val x;
    try {
      x = constVal(c);
    } catch (Unsup& u) {
      x.k = K_UNDEF;
      logmsg("unsupported constant: " + u.msg);
    }
    fn->consts.push_back(x);
    return cslot[v] = ~(int)(fn->consts.size() - 1);
  };
  fn->blocks.resize(k);
  for (auto& B : F) {
    BlockInfo& bi = fn->blocks[bix[&B]];
    bi.id = bbId[&B];
    bi.start = fn->code.size();
    for (auto* P : predecessors(&B)) {
      int pi = bix[P];
      if (std::find(bi.preds.begin(), bi.preds.end(), pi) == bi.preds.end()) bi.preds.push_back(pi);
    }
    for (auto& I : B) {
      if (auto* phi = dyn_cast<PHINode>(&I)) {
        vector<int> ops;
        for (int p : bi.preds) {
          const BasicBlock* pb = nullptr;
          for (auto& kv : bix)
            if (kv.second == p) pb = kv.first;
          ops.push_back(opnd(phi->getIncomingValueForBlock(pb)));
        }
        bi.phis.push_back({slot[&I], ops});
        continue;
      }
      Ins x;
      x.op = I.getOpcode();
      x.I = &I;
      if (!I.getType()->isVoidTy()) x.dst = slot[&I];
      Type* t = I.getType();
      x.tk = tkOf(t);
      x.ty = t;
      if (t->isIntegerTy()) x.w = t->getIntegerBitWidth();
      if (t->isPointerTy()) x.w = 64;
      switch (x.op) {
        case Instruction::Load:
          x.o = {opnd(I.getOperand(0))};
          x.sz = DL->getTypeStoreSize(t);
          break;
        case Instruction::Store: {
          Type* vt = I.getOperand(0)->getType();
          x.tk = tkOf(vt);
          x.ty = vt;
          x.w = vt->isIntegerTy() ? vt->getIntegerBitWidth() : 64;
          x.sz = DL->getTypeStoreSize(vt);
          x.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))};
          break;
        }
        case Instruction::Alloca: {
          auto& A = cast<AllocaInst>(I);
          x.o = {opnd(A.getArraySize())};
          x.imm = DL->getTypeAllocSize(A.getAllocatedType());
          x.sz = A.getAlign().value();
          break;
        }
        case Instruction::GetElementPtr: {
          auto& G = cast<GetElementPtrInst>(I);
          x.o = {opnd(G.getPointerOperand())};
          int64_t off = 0;
          for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
            Value* ix = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull()) {
              off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
              int64_t s = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(ix))
                off += s * ci->getSExtValue();
              else {
                x.g.push_back({opnd(ix), s});
                x.gw.push_back(ix->getType()->isIntegerTy() ? ix->getType()->getIntegerBitWidth() : 64);
              }
            }
          }
          x.imm = off;
          if (t->isVectorTy()) x.tk = 3;
          break;
        }
        case Instruction::Br: {
          auto& b = cast<BranchInst>(I);
          if (b.isConditional()) {
            x.o = {opnd(b.getCondition())};
            x.t0 = bix[b.getSuccessor(0)];
            x.t1 = bix[b.getSuccessor(1)];
          } else
            x.t0 = bix[b.getSuccessor(0)];
          break;
        }
        case Instruction::Switch: {
          auto& s = cast<SwitchInst>(I);
          x.o = {opnd(s.getCondition())};
          x.w = s.getCondition()->getType()->getIntegerBitWidth();
          x.t0 = bix[s.getDefaultDest()];
          for (auto& c : s.cases()) x.g.push_back({bix[c.getCaseSuccessor()], (int64_t)c.getCaseValue()->getZExtValue()});
          break;
        }
        case Instruction::ICmp:
        case Instruction::FCmp:
          x.pred = cast<CmpInst>(I).getPredicate();
          x.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))};
          {
            Type* ot = I.getOperand(0)->getType();
            x.w = ot->isIntegerTy() ? ot->getIntegerBitWidth() : 64;
            x.sz = ot->isVectorTy();
          }
          break;
        case Instruction::Call:
        case Instruction::Invoke: {
          auto& c = cast<CallBase>(I);
          x.o.push_back(c.getCalledFunction() ? 0x7fffffff : opnd(c.getCalledOperand()));
          for (auto& a : c.args()) {
            if (a->getType()->isMetadataTy())
              x.o.push_back(0x7ffffffe);
            else
              x.o.push_back(opnd(a.get()));
          }
          if (auto* iv = dyn_cast<InvokeInst>(&I)) {
            x.t0 = bix[iv->getNormalDest()];
            x.t1 = bix[iv->getUnwindDest()];
          }
          break;
        }
        default:
          for (auto& o : I.operands())
            if (!isa<BasicBlock>(o.get())) x.o.push_back(opnd(o.get()));
          if (isa<CastInst>(I)) {
            Type* ot = I.getOperand(0)->getType();
            x.sz = ot->isIntegerTy() ? ot->getIntegerBitWidth() : 64;
            if (ot->isVectorTy() || t->isVectorTy()) x.sz = -1;
          }
      }
      fn->code.push_back(x);
    }
  }
}

static inline const Val& ev(Frame* f, int o) { return o >= 0 ? f->r[o] : f->fn->consts[~o]; }

static long concretize(const z3::expr& e, int w, const string& why);

static void coverBB(int id) {
  if (id >= 0 && id < nBlocks) shm->bb[id].store(1, std::memory_order_relaxed);
}
static void gotoBlock(Frame* f, int from, int to) {
  BlockInfo& b = f->fn->blocks[to];
  if (!b.phis.empty()) {
    int pi = 0;
    while (b.preds[pi] != from) pi++;
    static vector<Val> tmp;
    tmp.clear();
    for (auto& p : b.phis) tmp.push_back(ev(f, p.second[pi]));
    for (size_t i = 0; i < b.phis.size(); i++) f->r[b.phis[i].first] = tmp[i];
  }
  f->bb = to;
  f->pc = b.start;
  coverBB(b.id);
}
static void pushFrame(Function* F, vector<Val>& args) {
  Fn* fn = getFn(F);
  if (!fn->decoded) decode(fn);
  if (stk.size() > 2000) throw Unsup{"recursion depth"};
  Frame* f = new Frame();
  f->fn = fn;
  f->r.resize(fn->nslots);
  f->savedStack = stackCur;
  for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) {
    if (F->hasParamAttribute(i, Attribute::ByVal)) {
      uint64_t n = DL->getTypeAllocSize(F->getParamByValType(i));
      uint64_t a = (stackCur + REDZ + 31) / 32 * 32;
      stackCur = a + n + REDZ;
      Obj* o = addObj(a, n, 1, "byval", true);
      f->allocas.push_back(o);
      memCopy(a, args[i].u, n);
      f->r[i] = mkI(a, 64);
    } else
      f->r[i] = args[i];
  }
  stk.push_back(f);
  f->bb = 0;
  f->pc = fn->blocks[0].start;
  coverBB(fn->blocks[0].id);
}
static void popFrame() {
  Frame* f = stk.back();
  for (auto* o : f->allocas) removeObj(o);
  stackCur = f->savedStack;
  stk.pop_back();
  delete f;
}
static int typeIdFor(const void* p) {
  auto it = typeIds.find(p);
  if (it != typeIds.end()) return it->second;
  int id = typeIds.size() + 1;
  typeIds[p] = id;
  return id;
}
// Unwind: find a handler; current frame's `call` is set for frames with a pending call.
static void unwind(size_t base) {
  for (;;) {
    if (stk.size() <= base) {
      string msg = "uncaught exception";
      try {
        const std::type_info* ti = (const std::type_info*)curExcTI;
        if (ti) {
          int st;
          char* d = abi::__cxa_demangle(ti->name(), 0, 0, &st);
          if (d) msg += string(" ") + d;
        }
      } catch (...) {
      }
      reportViolation("uncaught-exception: " + msg, nullptr);
      endPath(1);
    }
    Frame* f = stk.back();
    const Ins* c = f->call;
    if (c && c->op == Instruction::Invoke) {
      // landing pad
      const BasicBlock* lb = cast<InvokeInst>(c->I)->getUnwindDest();
      const LandingPadInst* lp = lb->getLandingPadInst();
      uint64_t obj = curExc;
      int sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) {
          Constant* cl = lp->getClause(i);
          if (isa<ConstantPointerNull>(cl)) {
            sel = typeIdFor(nullptr);
            break;
          }
          uint64_t ti = constVal(cl).u;
          void* po = (void*)curExc;
          const std::type_info* ct = (const std::type_info*)ti;
          const std::type_info* tt = (const std::type_info*)curExcTI;
          if (ct == tt || ct->__do_catch(tt, &po, 1)) {
            obj = (uint64_t)po;
            sel = typeIdFor((void*)ti);
            break;
          }
        } else {
          // filter: treat as terminate for any non matching exception
          sel = -2;
          break;
        }
      }
      if (sel == -1 && lp->isCleanup()) sel = 0;
      if (sel != -1) {
        f->call = nullptr;
        gotoBlock(f, f->bb, c->t1);
        Val v = mkAgg(2);
        (*v.agg)[0] = mkI(obj, 64);
        (*v.agg)[1] = mkI(sel == -2 ? (uint32_t)-1 : sel, 32);
        // the landingpad instruction is the first non-phi
        const Ins& li = f->fn->code[f->pc];
        f->r[li.dst] = v;
        f->pc++;
        return;
      }
    }
    popFrame();
  }
}
static size_t runBase = 0;
static void throwNative(uint64_t obj, const std::type_info* ti) {
  curExc = obj;
  curExcTI = (uint64_t)ti;
  unwind(runBase);
}
struct Threw {};  // handler raised an IR-level exception; control already transferred

static Val loadTyped(uint64_t a, Type* t) {
  int k = tkOf(t);
  if (k == 0) {
    int w = t->getIntegerBitWidth();
    if (w > 64) throw Unsup{"wide load"};
    return loadScalar(a, (w + 7) / 8, w, false);
  }
  if (k == 1) return loadScalar(a, 8, 64, true);
  if (k == 2) return loadScalar(a, 8, 64, false);
  if (k == 4) return loadScalar(a, 4, 32, false, true);
  if (auto* st = dyn_cast<StructType>(t)) {
    Val v = mkAgg(st->getNumElements());
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) (*v.agg)[i] = loadTyped(a + sl->getElementOffset(i), st->getElementType(i));
    return v;
  }
  Type* e = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
  uint64_t n = isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
  Val v = mkAgg(n);
  uint64_t es = DL->getTypeAllocSize(e);
  for (uint64_t i = 0; i < n; i++) (*v.agg)[i] = loadTyped(a + i * es, e);
  return v;
}
static void storeTyped(uint64_t a, const Val& v, Type* t) {
  int k = tkOf(t);
  if (k != 3) {
    if (k == 0 && t->getIntegerBitWidth() > 64) throw Unsup{"wide store"};
    storeScalar(a, v, k == 0 ? (t->getIntegerBitWidth() + 7) / 8 : k == 4 ? 4 : 8, k == 1, k == 4);
    return;
  }
  if (v.k != K_AGG) throw Unsup{"store non-aggregate"};
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) storeTyped(a + sl->getElementOffset(i), (*v.agg)[i], st->getElementType(i));
    return;
  }
  Type* e = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
  uint64_t es = DL->getTypeAllocSize(e);
  for (size_t i = 0; i < v.agg->size(); i++) storeTyped(a + i * es, (*v.agg)[i], e);
}
static uint64_t addrOf(const Val& v, uint64_t n, const char* what);

static Val intBin(unsigned op, const Val& a, const Val& b, int w) {
  if (a.k == K_I && b.k == K_I) {
    uint64_t x = a.u, y = b.u;
    auto sx = [&](uint64_t v) -> int64_t { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (op) {
      case Instruction::Add: return mkI(x + y, w);
      case Instruction::Sub: return mkI(x - y, w);
      case Instruction::Mul: return mkI(x * y, w);
      case Instruction::UDiv:
        if (!y) memViolation("integer division by zero");
        return mkI(x / y, w);
      case Instruction::URem:
        if (!y) memViolation("integer division by zero");
        return mkI(x % y, w);
      case Instruction::SDiv:
        if (!y) memViolation("integer division by zero");
        if (sx(y) == -1) return mkI(-x, w);
        return mkI(sx(x) / sx(y), w);
      case Instruction::SRem:
        if (!y) memViolation("integer division by zero");
        if (sx(y) == -1) return mkI(0, w);
        return mkI(sx(x) % sx(y), w);
      case Instruction::And: return mkI(x & y, w);
      case Instruction::Or: return mkI(x | y, w);
      case Instruction::Xor: return mkI(x ^ y, w);
      case Instruction::Shl: return mkI(y >= 64 ? 0 : x << y, w);
      case Instruction::LShr: return mkI(y >= 64 ? 0 : x >> y, w);
      case Instruction::AShr: return mkI(y >= 64 ? (sx(x) < 0 ? -1 : 0) : sx(x) >> y, w);
    }
  }
  if (a.k == K_SR || b.k == K_SR) {
    // bit tricks on doubles: sign flip / abs
    const Val& r = a.k == K_SR ? a : b;
    const Val& c = a.k == K_SR ? b : a;
    if (c.k == K_I && w == 64) {
      if (op == Instruction::Xor && c.u == 0x8000000000000000ull) return realNeg(r);
      if (op == Instruction::And && c.u == 0x7fffffffffffffffull) return realAbs(r);
    }
    throw Unsup{"integer operation on the bits of a symbolic real"};
  }
  if (a.k == K_UNDEF && b.k == K_UNDEF) return a;
  if (w == 1) {
    z3::expr x = ie(a, 1), y = ie(b, 1);
    auto fold = [&](const z3::expr& e) { return mkSI(e, 1); };
    switch (op) {
      case Instruction::And:
        if (x.is_false() || y.is_true()) return fold(x);
        if (y.is_false() || x.is_true()) return fold(y);
        if (x.id() == y.id()) return fold(x);
        return fold(x && y);
      case Instruction::Or:
        if (x.is_true() || y.is_false()) return fold(x);
        if (y.is_true() || x.is_false()) return fold(y);
        if (x.id() == y.id()) return fold(x);
        return fold(x || y);
      case Instruction::Xor:
      case Instruction::Add:
      case Instruction::Sub:
        if (y.is_false()) return fold(x);
        if (x.is_false()) return fold(y);
        if (y.is_true() || x.is_true()) {
          z3::expr z = y.is_true() ? x : y;
          auto it = rcondOf->find(z.id());
          if (it != rcondOf->end()) return fold(rcondExpr(it->second.poly, 7 & ~it->second.mask));
          if (z.is_app() && z.decl().decl_kind() == Z3_OP_NOT) return fold(z.arg(0));
          return fold(!z);
        }
        return fold(x != y);
      case Instruction::Mul: return fold(x && y);
    }
    throw Unsup{"i1 op"};
  }
  z3::expr x = ie(a, w), y = ie(b, w);
  auto zchk = [&]() {
    z3::expr zc = (y == Z->bv_val(0, w)).simplify();
    if (decide(zc)) memViolation("integer division by zero");
  };
  z3::expr r(*Z);
  switch (op) {
    case Instruction::Add: r = x + y; break;
    case Instruction::Sub: r = x - y; break;
    case Instruction::Mul: r = x * y; break;
    case Instruction::UDiv: zchk(); r = z3::udiv(x, y); break;
    case Instruction::URem: zchk(); r = z3::urem(x, y); break;
    case Instruction::SDiv: zchk(); r = x / y; break;
    case Instruction::SRem: zchk(); r = z3::srem(x, y); break;
    case Instruction::And: r = x & y; break;
    case Instruction::Or: r = x | y; break;
    case Instruction::Xor: r = x ^ y; break;
    case Instruction::Shl: r = z3::shl(x, y); break;
    case Instruction::LShr: r = z3::lshr(x, y); break;
    case Instruction::AShr: r = z3::ashr(x, y); break;
    default: throw Unsup{"int op"};
  }
  return mkSI(r.simplify(), w);
}
static Val intCmp(int pred, const Val& a, const Val& b, int w) {
  if (a.k == K_I && b.k == K_I) {
    uint64_t x = a.u, y = b.u;
    auto sx = [&](uint64_t v) -> int64_t { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (pred) {
      case CmpInst::ICMP_EQ: return mkI(x == y, 1);
      case CmpInst::ICMP_NE: return mkI(x != y, 1);
      case CmpInst::ICMP_UGT: return mkI(x > y, 1);
      case CmpInst::ICMP_UGE: return mkI(x >= y, 1);
      case CmpInst::ICMP_ULT: return mkI(x < y, 1);
      case CmpInst::ICMP_ULE: return mkI(x <= y, 1);
      case CmpInst::ICMP_SGT: return mkI(sx(x) > sx(y), 1);
      case CmpInst::ICMP_SGE: return mkI(sx(x) >= sx(y), 1);
      case CmpInst::ICMP_SLT: return mkI(sx(x) < sx(y), 1);
      case CmpInst::ICMP_SLE: return mkI(sx(x) <= sx(y), 1);
    }
  }
  if (a.k == K_SR || b.k == K_SR || a.k == K_F || b.k == K_F) {
    // sign-bit tests on reals
    if (a.k == K_SR && b.k == K_I && w == 64) {
      if (pred == CmpInst::ICMP_SLT && b.u == 0) return realCmp(a, mkF(0), 1, false);
      if (pred == CmpInst::ICMP_SGT && b.u == (uint64_t)-1) return realCmp(a, mkF(0), 6, false);
    }
    throw Unsup{"integer compare of symbolic real bits"};
  }
  if (w == 1) {
    z3::expr x = ie(a, 1), y = ie(b, 1);
    if (pred == CmpInst::ICMP_EQ) {
      if (y.is_true()) return mkSI(x, 1);
      if (x.is_true()) return mkSI(y, 1);
      if (y.is_false()) return intBin(Instruction::Xor, a, mkI(1, 1), 1);
      if (x.is_false()) return intBin(Instruction::Xor, b, mkI(1, 1), 1);
      return mkSI(x == y, 1);
    }
    if (pred == CmpInst::ICMP_NE) return intBin(Instruction::Xor, a, b, 1);
    if (pred == CmpInst::ICMP_ULT) return mkSI(!x && y, 1);
    if (pred == CmpInst::ICMP_UGT) return mkSI(x && !y, 1);
    throw Unsup{"i1 compare"};
  }
  z3::expr x = ie(a, w), y = ie(b, w), r(*Z);
  switch (pred) {
    case CmpInst::ICMP_EQ: r = x == y; break;
    case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_UGT: r = z3::ugt(x, y); break;
    case CmpInst::ICMP_UGE: r = z3::uge(x, y); break;
    case CmpInst::ICMP_ULT: r = z3::ult(x, y); break;
    case CmpInst::ICMP_ULE: r = z3::ule(x, y); break;
    case CmpInst::ICMP_SGT: r = x > y; break;
    case CmpInst::ICMP_SGE: r = x >= y; break;
    case CmpInst::ICMP_SLT: r = x < y; break;
    case CmpInst::ICMP_SLE: r = x <= y; break;
    default: throw Unsup{"icmp"};
  }
  return mkSI(r.simplify(), 1);
}
static Val fcmp(int pred, const Val& a, const Val& b) {
  switch (pred) {
    case CmpInst::FCMP_FALSE: return mkI(0, 1);
    case CmpInst::FCMP_TRUE: return mkI(1, 1);
    case CmpInst::FCMP_OEQ: return realCmp(a, b, 2, false);
    case CmpInst::FCMP_OGT: return realCmp(a, b, 4, false);
    case CmpInst::FCMP_OGE: return realCmp(a, b, 6, false);
    case CmpInst::FCMP_OLT: return realCmp(a, b, 1, false);
    case CmpInst::FCMP_OLE: return realCmp(a, b, 3, false);
    case CmpInst::FCMP_ONE: return realCmp(a, b, 5, false);
    case CmpInst::FCMP_UEQ: return realCmp(a, b, 2, true);
    case CmpInst::FCMP_UGT: return realCmp(a, b, 4, true);
    case CmpInst::FCMP_UGE: return realCmp(a, b, 6, true);
    case CmpInst::FCMP_ULT: return realCmp(a, b, 1, true);
    case CmpInst::FCMP_ULE: return realCmp(a, b, 3, true);
    case CmpInst::FCMP_UNE: return realCmp(a, b, 5, true);
    case CmpInst::FCMP_ORD:
    case CmpInst::FCMP_UNO: {
      bool un = (a.k == K_F && std::isnan(a.d)) || (b.k == K_F && std::isnan(b.d));
      return mkI(pred == CmpInst::FCMP_UNO ? un : !un, 1);
    }
  }
  throw Unsup{"fcmp"};
}
// force a boolean to a concrete value (forks)
static bool truth(const Val& v) {
  if (v.k == K_I) return v.u & 1;
  if (v.k == K_UNDEF) {
    logmsg("branch on undef at " + where());
    return false;
  }
  if (v.k != K_SI) throw Unsup{"branch on non-int"};
  return decide((*IT)[v.t]);
}
static long concretize(const z3::expr& e0, int w, const string& why) {
  z3::expr e = e0;
  int tries = 0;
  for (;;) {
    Model m;
    // get a value
    z3::solver s(*Z, "QF_BV");
    vector<z3::expr> none;
    std::set<int> vars;
    for (int v : varsOf(e)) vars.insert(v);
    // slice of BV constraints
    z3::solver sv(*Z);
    size_t before;
    vector<bool> used(PC->size(), false);
    do {
      before = vars.size();
      for (size_t i = 0; i < PC->size(); i++)
        if (!used[i])
          for (int v : (*PC)[i].vars)
            if (vars.count(v)) {
              used[i] = true;
              for (int q : (*PC)[i].vars) vars.insert(q);
              break;
            }
    } while (vars.size() != before);
    for (size_t i = 0; i < PC->size(); i++)
      if (used[i]) sv.add((*PC)[i].e);
    z3::expr probe = Z->bv_const("__probe", w);
    sv.add(probe == e);
    shm->queries++;
    shm->qbv++;
    double ts = now();
    auto r = sv.check();
    shm->solver_us += (long)((now() - ts) * 1e6);
    if (r == z3::unsat) {
      shm->qunsat++;
      shm->infeasible++;
      endPath(3);
    }
    if (r != z3::sat) {
      shm->qunk++;
      throw Unsup{"concretize unknown"};
    }
    shm->qsat++;
    uint64_t u = 0;
    sv.get_model().eval(probe, true).is_numeral_u64(u);
    if (++tries > opt_.enumCap) {
      logmsg("enumeration cap at " + why + " " + where());
      shm->truncated++;
      endPath(4);
    }
    z3::expr eq = (e == Z->bv_val(u, w)).simplify();
    if (decide(eq)) return (long)u;
  }
}
static uint64_t addrOf(const Val& v, uint64_t n, const char* what) {
  if (v.k == K_I) return v.u;
  if (v.k == K_UNDEF) memViolation("access through an undefined pointer");
  if (v.k != K_SI) throw Unsup{"address from real"};
  z3::expr e = (*IT)[v.t];
  // get one value, find its object, ask whether the address can leave the object
  Model m;
  {
    z3::solver sv(*Z);
    for (auto& p : *PC) {
      bool real = false;
      for (int q : p.vars)
        if (q < IV) real = true;
      if (!real) sv.add(p.e);
    }
    z3::expr probe = Z->bv_const("__probe", 64);
    sv.add(probe == e);
    shm->queries++;
    shm->qbv++;
    // find a base object: enumerate up to a few models
    Obj* o = nullptr;
    for (int t = 0; t < 6 && !o; t++) {
      if (sv.check() != z3::sat) break;
      uint64_t u = 0;
      sv.get_model().eval(probe, true).is_numeral_u64(u);
      o = findObj(u);
      if (!o) {
        // out of bounds candidate
        z3::expr eq = e == Z->bv_val(u, 64);
        (void)eq;
        sv.add(probe != Z->bv_val(u, 64));
      }
    }
    if (o) {
      z3::expr inb = z3::uge(e, Z->bv_val(o->base, 64)) && z3::ule(e, Z->bv_val((uint64_t)(o->base + o->size - std::min<uint64_t>(n, o->size)), 64));
      if (!decide(inb)) {
        uint64_t u = concretize(e, 64, "address");
        return u;  // checked by the access itself
      }
    }
  }
  return concretize(e, 64, "address");
}

static Val castVal(const Ins& x, const Val& a) {
  switch (x.op) {
    case Instruction::Trunc:
      if (a.k == K_I) return mkI(a.u, x.w);
      if (a.k == K_UNDEF) return a;
      if (a.k == K_SR) throw Unsup{"trunc of real bits"};
      if (x.w == 1) return mkSI(((*IT)[a.t].extract(0, 0) == Z->bv_val(1, 1)).simplify(), 1);
      return mkSI((*IT)[a.t].extract(x.w - 1, 0).simplify(), x.w);
    case Instruction::ZExt:
      if (a.k == K_I) return mkI(a.u, x.w);
      if (a.k == K_UNDEF) return mkI(0, x.w);
      if (x.sz == 1) return mkSI(z3::ite((*IT)[a.t], Z->bv_val(1, x.w), Z->bv_val(0, x.w)), x.w);
      return mkSI(z3::zext((*IT)[a.t], x.w - x.sz).simplify(), x.w);
    case Instruction::SExt:
      if (a.k == K_I) return mkI(x.sz == 64 ? a.u : (uint64_t)((int64_t)(a.u << (64 - x.sz)) >> (64 - x.sz)), x.w);
      if (a.k == K_UNDEF) return mkI(0, x.w);
      if (x.sz == 1) return mkSI(z3::ite((*IT)[a.t], Z->bv_val(-1, x.w), Z->bv_val(0, x.w)), x.w);
      return mkSI(z3::sext((*IT)[a.t], x.w - x.sz).simplify(), x.w);
    case Instruction::SIToFP:
    case Instruction::UIToFP: {
      Val v = a;
      if (v.k == K_UNDEF) return mkF(0);
      if (v.k == K_SI && x.sz > 1) {
        auto it = randAtom->find((*IT)[v.t].id());
        if (it != randAtom->end()) return mkReal(W.fromAtom(it->second));
      }
      if (v.k == K_SI) {
        z3::expr e = x.sz == 1 ? bvOf(v, 1) : (*IT)[v.t];
        v = mkI(concretize(e, x.sz, "int to real"), x.sz);
      }
      if (x.op == Instruction::UIToFP) return mkF((double)v.u);
      int64_t s = x.sz == 64 ? (int64_t)v.u : (int64_t)(v.u << (64 - x.sz)) >> (64 - x.sz);
      return mkF((double)s);
    }
    case Instruction::FPToSI:
    case Instruction::FPToUI: {
      double d;
      if (a.k == K_F)
        d = a.d;
      else if (a.k == K_SR && (*RT)[a.t].isConst()) {
        mpq_class q = (*RT)[a.t].constVal();
        d = mpz_class(q.get_num() / q.get_den()).get_d();
      } else if (a.k == K_SR) {  // one path per integer part, up to a cap
        const rf::RF r = (*RT)[a.t];
        int sg = decideSign(r, 6) ? 1 : -1;  // sign(r) in {0, +}
        int q = 0;
        for (;; q++) {
          if (q > 40) throw Unsup{"real to int of a symbolic value of unbounded size"};
          Val dv = realBin('-', a, mkF(sg * (q + 1)));
          bool below = dv.k == K_SR ? decideSign((*RT)[dv.t], sg > 0 ? 1 : 4) : (sg > 0 ? dv.d < 0 : dv.d > 0);
          if (below) break;
        }
        d = sg * q;
      } else
        throw Unsup{"real to int of a symbolic value"};
      if (x.op == Instruction::FPToUI) return mkI((uint64_t)d, x.w);
      return mkI((uint64_t)(int64_t)d, x.w);
    }
    case Instruction::FPExt:
    case Instruction::FPTrunc: 
      if (x.op == Instruction::FPTrunc && a.k == K_F) return mkF((float)a.d);
      return a;
    case Instruction::PtrToInt:
      if (a.k == K_I) return mkI(a.u, x.w);
      if (x.w == 64) return a;
      return mkSI((*IT)[a.t].extract(x.w - 1, 0).simplify(), x.w);
    case Instruction::IntToPtr: return a;
    case Instruction::BitCast:
      if (x.tk == 1 && a.k == K_I) {
        double d;
        memcpy(&d, &a.u, 8);
        return mkF(d);
      }
      if (x.tk == 0 && a.k == K_F) {
        uint64_t u;
        memcpy(&u, &a.d, 8);
        return mkI(u, 64);
      }
      return a;
  }
  throw Unsup{"cast"};
}

static bool callFunction(Frame* f, const Ins& x, Function* F, vector<Val>& args, Val* out);
static Val intrinsic(const Ins& x, Intrinsic::ID id, vector<Val>& a, bool* handled);
static Handler* findHandler(Function* F);

static void step() {
  Frame* f = stk.back();
  const Ins& x = f->fn->code[f->pc++];
  icount++;
  if ((icount & 0x3ffff) == 0) {
    if (now() - t0 > opt_.deadline + 5) {
      shm->deadline++;
      endPath(5);
    }
    if (shm->stop.load()) endPath(5);
  }
  if (icount > opt_.maxInstr) {
    shm->truncated++;
    logmsg("instruction limit at " + where());
    endPath(4);
  }
  switch (x.op) {
    case Instruction::Add:
    case Instruction::Sub:
    case Instruction::Mul:
    case Instruction::UDiv:
    case Instruction::URem:
    case Instruction::SDiv:
    case Instruction::SRem:
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor:
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr: {
      const Val &a = ev(f, x.o[0]), &b = ev(f, x.o[1]);
      if (x.tk == 3) {
        Val v = mkAgg(a.agg->size());
        int w = cast<VectorType>(x.ty)->getElementType()->getIntegerBitWidth();
        for (size_t i = 0; i < a.agg->size(); i++) (*v.agg)[i] = intBin(x.op, (*a.agg)[i], (*b.agg)[i], w);
        f->r[x.dst] = v;
      } else {
        if (x.w > 64) throw Unsup{"wide integer"};
        f->r[x.dst] = intBin(x.op, a, b, x.w);
      }
      return;
    }
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv: {
      char op = x.op == Instruction::FAdd ? '+' : x.op == Instruction::FSub ? '-' : x.op == Instruction::FMul ? '*' : '/';
      const Val a = ev(f, x.o[0]), b = ev(f, x.o[1]);
      if (x.tk == 3) {
        Val v = mkAgg(a.agg->size());
        for (size_t i = 0; i < a.agg->size(); i++) (*v.agg)[i] = realBin(op, (*a.agg)[i], (*b.agg)[i]);
        f->r[x.dst] = v;
      } else
        f->r[x.dst] = realBin(op, a, b);
      return;
    }
    case Instruction::FNeg: {
      const Val a = ev(f, x.o[0]);
      if (x.tk == 3) {
        Val v = mkAgg(a.agg->size());
        for (size_t i = 0; i < a.agg->size(); i++) (*v.agg)[i] = realNeg((*a.agg)[i]);
        f->r[x.dst] = v;
      } else
        f->r[x.dst] = realNeg(a);
      return;
    }
    case Instruction::ICmp: {
      const Val a = ev(f, x.o[0]), b = ev(f, x.o[1]);
      if (x.sz) {
        Val v = mkAgg(a.agg->size());
        Type* et = cast<VectorType>(x.I->getOperand(0)->getType())->getElementType();
        int w = et->isIntegerTy() ? et->getIntegerBitWidth() : 64;
        for (size_t i = 0; i < a.agg->size(); i++) (*v.agg)[i] = intCmp(x.pred, (*a.agg)[i], (*b.agg)[i], w);
        f->r[x.dst] = v;
      } else
        f->r[x.dst] = intCmp(x.pred, a, b, x.w);
      return;
    }
    case Instruction::FCmp: {
      const Val a = ev(f, x.o[0]), b = ev(f, x.o[1]);
      if (x.sz) {
        Val v = mkAgg(a.agg->size());
        for (size_t i = 0; i < a.agg->size(); i++) (*v.agg)[i] = fcmp(x.pred, (*a.agg)[i], (*b.agg)[i]);
        f->r[x.dst] = v;
      } else
        f->r[x.dst] = fcmp(x.pred, a, b);
      return;
    }
    case Instruction::Trunc:
    case Instruction::ZExt:
    case Instruction::SExt:
    case Instruction::SIToFP:
    case Instruction::UIToFP:
    case Instruction::FPToSI:
    case Instruction::FPToUI:
    case Instruction::FPExt:
    case Instruction::FPTrunc:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::BitCast: {
      const Val a = ev(f, x.o[0]);
      if (x.sz == -1) {
        if (x.op == Instruction::BitCast) throw Unsup{"vector bitcast"};
        Val v = mkAgg(a.agg->size());
        Ins y = x;
        Type* et = cast<VectorType>(x.ty)->getElementType();
        Type* st = cast<VectorType>(x.I->getOperand(0)->getType())->getElementType();
        y.w = et->isIntegerTy() ? et->getIntegerBitWidth() : 64;
        y.sz = st->isIntegerTy() ? st->getIntegerBitWidth() : 64;
        y.tk = tkOf(et);
        for (size_t i = 0; i < a.agg->size(); i++) (*v.agg)[i] = castVal(y, (*a.agg)[i]);
        f->r[x.dst] = v;
      } else
        f->r[x.dst] = castVal(x, a);
      return;
    }
    case Instruction::Load: {
      Val p = ev(f, x.o[0]);
      uint64_t a = addrOf(p, x.sz, "read");
      if (x.tk == 1)
        f->r[x.dst] = loadScalar(a, 8, 64, true);
      else if (x.tk == 3 || x.w > 64)
        f->r[x.dst] = loadTyped(a, x.ty);
      else if (x.tk == 4)
        f->r[x.dst] = loadScalar(a, 4, 32, false, true);
      else
        f->r[x.dst] = loadScalar(a, x.sz, x.w, false);
      return;
    }
    case Instruction::Store: {
      Val p = ev(f, x.o[1]);
      uint64_t a = addrOf(p, x.sz, "write");
      const Val& v = ev(f, x.o[0]);
      if (x.tk == 3)
        storeTyped(a, v, x.ty);
      else
        storeScalar(a, v, x.sz, x.tk == 1, x.tk == 4);
      return;
    }
    case Instruction::Alloca: {
      Val c = ev(f, x.o[0]);
      uint64_t cnt = c.k == K_I ? c.u : concretize(ie(c, 64), c.w, "alloca");
      uint64_t n = x.imm * cnt;
      uint64_t al = std::max(32, x.sz);
      uint64_t a = (stackCur + REDZ + al - 1) / al * al;
      stackCur = a + n + REDZ;
      if (stackCur > stackEnd) throw Unsup{"stack overflow"};
      f->allocas.push_back(addObj(a, n, 1, "stack", true));
      f->r[x.dst] = mkI(a, 64);
      return;
    }
    case Instruction::GetElementPtr: {
      if (x.tk == 3) throw Unsup{"vector gep"};
      Val b = ev(f, x.o[0]);
      bool conc = b.k == K_I;
      for (auto& g : x.g)
        if (ev(f, g.first).k != K_I) conc = false;
      if (conc) {
        uint64_t a = b.u + x.imm;
        for (size_t i = 0; i < x.g.size(); i++) {
          uint64_t u = ev(f, x.g[i].first).u;
          int w = x.gw[i];
          int64_t s = w == 64 ? (int64_t)u : (int64_t)(u << (64 - w)) >> (64 - w);
          a += s * x.g[i].second;
        }
        f->r[x.dst] = mkI(a, 64);
      } else {
        z3::expr e = ie(b, 64) + Z->bv_val((uint64_t)x.imm, 64);
        for (size_t i = 0; i < x.g.size(); i++) {
          const Val& v = ev(f, x.g[i].first);
          z3::expr ix = ie(v, x.gw[i]);
          if (x.gw[i] < 64) ix = z3::sext(ix, 64 - x.gw[i]);
          e = e + ix * Z->bv_val((uint64_t)x.g[i].second, 64);
        }
        f->r[x.dst] = mkSI(e.simplify(), 64);
      }
      return;
    }
    case Instruction::Br:
      if (x.o.empty())
        gotoBlock(f, f->bb, x.t0);
      else {
        bool t = truth(ev(f, x.o[0]));
        gotoBlock(f, f->bb, t ? x.t0 : x.t1);
      }
      return;
    case Instruction::Switch: {
      Val v = ev(f, x.o[0]);
      uint64_t u;
      if (v.k == K_I)
        u = v.u;
      else {
        // decide case by case
        z3::expr e = bvOf(v, x.w);
        for (auto& c : x.g)
          if (decide((e == Z->bv_val((uint64_t)c.second, x.w)).simplify())) {
            gotoBlock(f, f->bb, c.first);
            return;
          }
        gotoBlock(f, f->bb, x.t0);
        return;
      }
      for (auto& c : x.g)
        if ((uint64_t)c.second == u) {
          gotoBlock(f, f->bb, c.first);
          return;
        }
      gotoBlock(f, f->bb, x.t0);
      return;
    }
    case Instruction::Ret: {
      Val v;
      bool has = !x.o.empty();
      if (has) v = ev(f, x.o[0]);
      popFrame();
      if (stk.empty() || stk.size() == runBase) {
        return;
      }
      Frame* c = stk.back();
      const Ins* ci = c->call;
      c->call = nullptr;
      if (ci) {
        if (ci->dst >= 0) c->r[ci->dst] = v;
        if (ci->op == Instruction::Invoke) gotoBlock(c, c->bb, ci->t0);
      }
      return;
    }
    case Instruction::Unreachable: memViolation("unreachable code executed"); return;
    case Instruction::Select: {
      const Val c = ev(f, x.o[0]), a = ev(f, x.o[1]), b = ev(f, x.o[2]);
      if (c.k == K_AGG) {
        Val v = mkAgg(c.agg->size());
        for (size_t i = 0; i < c.agg->size(); i++) (*v.agg)[i] = truth((*c.agg)[i]) ? (*a.agg)[i] : (*b.agg)[i];
        f->r[x.dst] = v;
        return;
      }
      if (c.k == K_I) {
        f->r[x.dst] = (c.u & 1) ? a : b;
        return;
      }
      if (c.k == K_SI && x.tk == 0 && (a.k == K_I || a.k == K_SI) && (b.k == K_I || b.k == K_SI)) {
        z3::expr ce = (*IT)[c.t];
        if (x.w == 1) {
          // c && b style
          if (b.k == K_I && !(b.u & 1)) {
            f->r[x.dst] = intBin(Instruction::And, c, a, 1);
            return;
          }
          if (a.k == K_I && (a.u & 1)) {
            f->r[x.dst] = intBin(Instruction::Or, c, b, 1);
            return;
          }
          if (a.k == K_I && !(a.u & 1)) {
            f->r[x.dst] = intBin(Instruction::And, intBin(Instruction::Xor, c, mkI(1, 1), 1), b, 1);
            return;
          }
          if (b.k == K_I && (b.u & 1)) {
            f->r[x.dst] = intBin(Instruction::Or, intBin(Instruction::Xor, c, mkI(1, 1), 1), a, 1);
            return;
          }
        } else if (!isRealCond(ce)) {
          f->r[x.dst] = mkSI(z3::ite(ce, ie(a, x.w), ie(b, x.w)).simplify(), x.w);
          return;
        }
      }
      f->r[x.dst] = truth(c) ? a : b;
      return;
    }
    case Instruction::ExtractValue: {
      Val v = ev(f, x.o[0]);
      for (unsigned i : cast<ExtractValueInst>(x.I)->indices()) {
        if (v.k != K_AGG) break;
        v = Val((*v.agg)[i]);
      }
      f->r[x.dst] = v;
      return;
    }
    case Instruction::InsertValue: {
      Val v = ev(f, x.o[0]);
      const Val& e = ev(f, x.o[1]);
      auto idx = cast<InsertValueInst>(x.I)->getIndices();
      std::function<Val(Val, size_t)> ins = [&](Val a, size_t k) -> Val {
        if (k == idx.size()) return e;
        Val r = mkAgg(0);
        *r.agg = *a.agg;
        (*r.agg)[idx[k]] = ins((*a.agg)[idx[k]], k + 1);
        return r;
      };
      f->r[x.dst] = ins(v, 0);
      return;
    }
    case Instruction::ExtractElement: {
      Val v = ev(f, x.o[0]), i = ev(f, x.o[1]);
      if (i.k != K_I) throw Unsup{"symbolic lane"};
      f->r[x.dst] = Val((*v.agg)[i.u]);
      return;
    }
    case Instruction::InsertElement: {
      Val v = ev(f, x.o[0]);
      const Val e = ev(f, x.o[1]), i = ev(f, x.o[2]);
      Val r = mkAgg(0);
      *r.agg = *v.agg;
      (*r.agg)[i.u] = e;
      f->r[x.dst] = r;
      return;
    }
    case Instruction::ShuffleVector: {
      const Val a = ev(f, x.o[0]), b = ev(f, x.o[1]);
      auto mask = cast<ShuffleVectorInst>(x.I)->getShuffleMask();
      Val r = mkAgg(mask.size());
      for (size_t i = 0; i < mask.size(); i++) {
        int m = mask[i];
        if (m < 0) continue;
        (*r.agg)[i] = m < (int)a.agg->size() ? (*a.agg)[m] : (*b.agg)[m - a.agg->size()];
      }
      f->r[x.dst] = r;
      return;
    }
    case Instruction::Freeze: {
      Val a = ev(f, x.o[0]);
      if (a.k == K_UNDEF) a = x.tk == 1 ? mkF(0) : mkI(0, x.w);
      f->r[x.dst] = a;
      return;
    }
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(x.I);
      uint64_t a = addrOf(ev(f, x.o[0]), 8, "rmw");
      Val old = loadTyped(a, x.ty), v = ev(f, x.o[1]), n;
      switch (rm->getOperation()) {
        case AtomicRMWInst::Add: n = intBin(Instruction::Add, old, v, x.w); break;
        case AtomicRMWInst::Sub: n = intBin(Instruction::Sub, old, v, x.w); break;
        case AtomicRMWInst::Xchg: n = v; break;
        default: throw Unsup{"atomicrmw"};
      }
      storeTyped(a, n, x.ty);
      f->r[x.dst] = old;
      return;
    }
    case Instruction::LandingPad: throw Unsup{"stray landingpad"};
    case Instruction::Resume: {
      // continue unwinding from this frame
      popFrame();
      unwind(runBase);
      return;
    }
    case Instruction::Call:
    case Instruction::Invoke: {
      const CallBase* cb = cast<CallBase>(x.I);
      Function* F = cb->getCalledFunction();
      vector<Val> args;
      args.reserve(x.o.size());
      for (size_t i = 1; i < x.o.size(); i++) args.push_back(x.o[i] == 0x7ffffffe ? Val() : ev(f, x.o[i]));
      if (!F && isa<InlineAsm>(cb->getCalledOperand())) {
        auto* ia = cast<InlineAsm>(cb->getCalledOperand());
        auto* st = dyn_cast<StructType>(cb->getType());
        if (st && ia->getAsmString().find("cpuid") != string::npos) {
          // cache-size probing by Eigen: report no information (defaults used)
          Val r = mkAgg(st->getNumElements());
          for (unsigned i = 0; i < st->getNumElements(); i++) (*r.agg)[i] = mkI(0, st->getElementType(i)->getIntegerBitWidth());
          f->r[x.dst] = r;
        } else if (!(cb->getType()->isVoidTy() && ia->getAsmString().find_first_not_of(" \t\n#") == string::npos)) {
          if (ia->getAsmString().size() && ia->getAsmString()[0] != '#') throw Unsup{"inline asm " + ia->getAsmString()};
          if (!cb->getType()->isVoidTy()) throw Unsup{"inline asm with results"};
        }
        if (x.op == Instruction::Invoke) gotoBlock(f, f->bb, x.t0);
        return;
      }
      if (!F) {
        Val c = ev(f, x.o[0]);
        uint64_t a = c.k == K_I ? c.u : addrOf(c, 1, "call");
        auto it = fnByAddr.find(a);
        if (it == fnByAddr.end()) {
          // native virtual (e.g. std::exception::what)
          Dl_info di;
          if (a && dladdr((void*)a, &di) && args.size() <= 4) {
            uint64_t q[4] = {0, 0, 0, 0};
            for (size_t i = 0; i < args.size(); i++) q[i] = args[i].k == K_I ? args[i].u : 0;
            uint64_t r = ((uint64_t(*)(uint64_t, uint64_t, uint64_t, uint64_t))a)(q[0], q[1], q[2], q[3]);
            if (x.dst >= 0) f->r[x.dst] = mkI(r, x.w ? x.w : 64);
            if (x.op == Instruction::Invoke) gotoBlock(f, f->bb, x.t0);
            return;
          }
          memViolation("call through an invalid function pointer");
        }
        F = it->second;
      }
      if (F->isIntrinsic()) {
        bool h = false;
        Val r = intrinsic(x, F->getIntrinsicID(), args, &h);
        if (!h) throw Unsup{"intrinsic " + F->getName().str()};
        if (x.dst >= 0) f->r[x.dst] = r;
        if (x.op == Instruction::Invoke) gotoBlock(f, f->bb, x.t0);
        return;
      }
      Handler* h = findHandler(F);
      if (h) {
        f->call = &x;
        try {
          Val r = (*h)(args, cb);
          f->call = nullptr;
          if (x.dst >= 0) f->r[x.dst] = r;
          if (x.op == Instruction::Invoke) gotoBlock(f, f->bb, x.t0);
        } catch (Threw&) {
        }
        return;
      }
      if (F->isDeclaration()) throw Unsup{"external function " + F->getName().str()};
      f->call = &x;
      pushFrame(F, args);
      return;
    }
    default: throw Unsup{string("instruction ") + x.I->getOpcodeName()};
  }
}
