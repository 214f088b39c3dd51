// symx: a bounded symbolic executor for LLVM IR over Z3 (see ../DESIGN.md)
#pragma once
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallString.h>
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <chrono>

namespace symx {

enum Kind : uint8_t { K_UNDEF, K_INT, K_BV, K_FC, K_FS, K_AGG };

struct Val {
  Kind k = K_UNDEF;
  uint32_t w = 0;  // width in bits (0 for aggregates)
  union {
    uint64_t c;
    Z3_ast e;
    std::vector<Val>* agg;
  };
  Val() : c(0) {}
  static Val I(uint64_t v, uint32_t w) {
    Val r; r.k = K_INT; r.w = w; r.c = w >= 64 ? v : (v & ((1ULL << w) - 1)); return r;
  }
  bool isI() const { return k == K_INT; }
};

// ------------------------------------------------------------------ memory
struct Cell { uint32_t size; Val v; };

struct Obj {
  int rc = 0;
  uint32_t size = 0;
  uint8_t kind = 0;  // 0 global, 1 stack, 2 malloc, 3 new, 4 new[]
  bool freed = false, ro = false;
  bool hv = false; uint64_t h = 0;  // cached hash
  std::string name;
  std::vector<uint8_t> b;   // concrete bytes
  std::vector<uint8_t> m;   // 0 uninit, 1 concrete, 2 part of a cell
  std::map<uint32_t, Cell> cells;
};

struct ObjRef {
  Obj* p = nullptr;
  ObjRef() {}
  explicit ObjRef(Obj* o) : p(o) { if (p) p->rc++; }
  ObjRef(const ObjRef& r) : p(r.p) { if (p) p->rc++; }
  ObjRef(ObjRef&& r) noexcept : p(r.p) { r.p = nullptr; }
  ObjRef& operator=(const ObjRef& r) { if (r.p) r.p->rc++; rel(); p = r.p; return *this; }
  ObjRef& operator=(ObjRef&& r) noexcept { if (this != &r) { rel(); p = r.p; r.p = nullptr; } return *this; }
  ~ObjRef() { rel(); }
  void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
};

struct Chunk {
  int rc = 0;
  ObjRef o[64];
};
struct ChunkRef {
  Chunk* p = nullptr;
  ChunkRef() {}
  explicit ChunkRef(Chunk* o) : p(o) { if (p) p->rc++; }
  ChunkRef(const ChunkRef& r) : p(r.p) { if (p) p->rc++; }
  ChunkRef(ChunkRef&& r) noexcept : p(r.p) { r.p = nullptr; }
  ChunkRef& operator=(const ChunkRef& r) { if (r.p) r.p->rc++; rel(); p = r.p; return *this; }
  ChunkRef& operator=(ChunkRef&& r) noexcept { if (this != &r) { rel(); p = r.p; r.p = nullptr; } return *this; }
  ~ChunkRef() { rel(); }
  void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
};

struct Mem {
  // object id = (allocating thread << 24) | counter: addresses do not depend on the interleaving
  std::vector<std::vector<ChunkRef>> ch;
  std::vector<uint32_t> next;
  Obj* get(uint32_t id) const {
    uint32_t t = id >> 24, c = (id & 0xffffff) >> 6;
    if (t >= ch.size() || c >= ch[t].size() || !ch[t][c].p) return nullptr;
    return ch[t][c].p->o[id & 63].p;
  }
  Chunk* wchunk(uint32_t id) {
    uint32_t t = id >> 24, c = (id & 0xffffff) >> 6;
    if (t >= ch.size()) { ch.resize(t + 1); }
    auto& v = ch[t];
    if (c >= v.size()) v.resize(c + 1);
    if (!v[c].p) v[c] = ChunkRef(new Chunk());
    else if (v[c].p->rc > 1) {
      Chunk* n = new Chunk();
      for (int i = 0; i < 64; ++i) n->o[i] = v[c].p->o[i];
      v[c] = ChunkRef(n);
    }
    return v[c].p;
  }
  Obj* wr(uint32_t id) {
    Chunk* k = wchunk(id);
    ObjRef& r = k->o[id & 63];
    if (r.p->rc > 1) {
      Obj* n = new Obj(*r.p);
      n->rc = 0;
      r = ObjRef(n);
    }
    r.p->hv = false;
    return r.p;
  }
  void drop(uint32_t id) { wchunk(id)->o[id & 63] = ObjRef(); }
  uint32_t alloc(uint32_t size, uint8_t kind, const std::string& name, uint32_t t) {
    if (t >= next.size()) next.resize(t + 1, 1);
    uint32_t id = (t << 24) | next[t]++;
    Obj* o = new Obj();
    o->size = size; o->kind = kind; o->name = name;
    o->b.assign(size, 0); o->m.assign(size, 0);
    wchunk(id)->o[id & 63] = ObjRef(o);
    return id;
  }
};

// ------------------------------------------------------------------ code
struct Opnd { int slot; Val c; };   // slot >= 0: register, else constant
struct FInfo;
struct Ins {
  const llvm::Instruction* I;
  unsigned op; std::string bad;
  int dst;                 // register slot or -1
  uint32_t w;              // result width for scalars
  bool isF;                // result is fp scalar
  std::vector<Opnd> ops;
  const llvm::Function* callee = nullptr;
  int bt = -1, bf = -1;    // branch targets (block indexes)
  // gep
  int64_t gepConst = 0;
  std::vector<std::pair<int, int64_t>> gepVar;  // operand index, scale
  // phi: incoming block index per operand
  std::vector<int> inc;
  std::vector<int> idx;    // extractvalue / insertvalue
  std::vector<std::pair<uint64_t,int>> cases; // switch
  uint64_t asz = 0;        // alloca element size / access size
};
struct BInfo { std::vector<Ins> ins; unsigned nphi = 0; };
struct FInfo {
  const llvm::Function* F;
  std::vector<BInfo> bb;
  int nslots = 0;
  bool inRepo = false;
  std::string file, pretty;
  uint64_t calls = 0;
};

struct Frame {
  FInfo* f;
  int bb = 0, pc = 0, prev = -1;
  std::vector<Val> r;
  std::vector<uint32_t> allocas;
  std::vector<Val> va; // varargs
  std::vector<uint32_t> vaw;
  uint32_t vaObj = 0;
};

struct Thread {
  std::vector<Frame> st;
  int status = 0;       // 0 runnable, 1 waiting on cond, 2 finished
  bool parked = false;  // parked before a sync operation
  int opkind = 0;       // 1 lock, 2 cond-reacquire, 3 join, 4 start, 5 yield
  uint64_t opobj = 0;   // mutex / joined thread
  uint64_t cond = 0;    // cond waited on
  bool go = false;      // scheduled: perform the pending op now
  std::vector<uint32_t> vc; // vector clock
};

struct PCNode;

struct Model {
  std::unordered_map<uint32_t, Z3_ast> v;  // var id -> value
};

struct Input { std::string name; char type; uint32_t w; Z3_ast e; uint32_t var; uint64_t c; bool conc; };

struct Exc { uint64_t obj = 0; uint64_t ti = 0; int handlers = 0; };

struct State {
  Mem mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<Z3_ast> pc;
  std::shared_ptr<Model> model;
  std::vector<Input> inputs;
  std::map<std::string, int> nameCnt;
  uint64_t instrs = 0;
  std::vector<uint64_t> excStack;       // caught exceptions
  std::map<uint64_t, uint64_t> excTI;   // exception object -> typeinfo
  std::map<uint64_t, int> mutexOwner;   // mutex addr -> thread+1
  std::map<uint64_t, std::vector<uint32_t>> mutexVC;
  std::vector<std::string> notes;
  struct RaceCell { int wt = -1; uint32_t wc = 0; std::vector<std::pair<int, uint32_t>> rd; };
  std::map<uint64_t, RaceCell> race;    // byte address -> last accesses
  std::vector<std::pair<int,int>> sched; // schedule decisions
  uint64_t curExc = 0;
  int preempt = 0, spurious = 0;
  bool nfOk = false;
  bool dead = false;
};

}  // namespace symx
