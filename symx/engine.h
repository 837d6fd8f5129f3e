#pragma once
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <z3++.h>

#include <atomic>
#include <functional>
#include <list>
#include <map>
#include <optional>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "rf.h"

enum Kind : uint8_t { K_I, K_F, K_SI, K_SR, K_AGG, K_UNDEF };

struct Val {
  Kind k = K_UNDEF;
  uint16_t w = 0;  // int width
  union {
    uint64_t u;
    double d;
    uint32_t t;
    std::vector<Val>* agg;
  };
  Val() : u(0) {}
};
inline Val mkI(uint64_t u, int w) {
  Val v;
  v.k = K_I;
  v.w = w;
  v.u = w >= 64 ? u : (u & ((1ull << w) - 1));
  return v;
}
inline Val mkF(double d) {
  Val v;
  v.k = K_F;
  v.w = 64;
  v.d = d;
  return v;
}
inline Val mkAgg(size_t n) {
  Val v;
  v.k = K_AGG;
  v.agg = new std::vector<Val>(n);
  return v;
}

struct Obj {
  uint64_t base, size;
  uint8_t kind;  // 0 heap 1 stack 2 global 3 external const 4 freed
  bool anyTag = false;
  std::vector<uint8_t> tags;  // 0 concrete 1 uninit 2 sym start 3 sym cont
  std::map<uint32_t, std::pair<Val, uint32_t>> cells;
  std::string name;
};

struct ShmLabel {
  std::atomic<int> used;
  char name[120];
  std::atomic<long> reached, discharged, trivial, undecided, violated;
};

struct Shm {
  std::atomic<int> tokens;
  std::atomic<int> stop;
  std::atomic<long> paths, completed, unsupported, truncated, deadline, cut, infeasible, maxlive;
  std::atomic<long> live;
  std::atomic<long> queries, qsat, qunsat, qunk, qbv, qreal, qext, solver_us, sample_decided, facts_decided;
  std::atomic<long> asserts, violations, undecided, instrs, maybe;
  std::atomic<long> norm_identity, norm_confirmed;
  std::atomic<long> samples;
  std::atomic<int> lock;
  ShmLabel labels[2048];  // assert labels
  ShmLabel wit[512];
  ShmLabel msgs[128];
  std::atomic<uint8_t> bb[1];  // coverage of basic blocks (flexible)
};
