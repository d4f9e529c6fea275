// symx: symbolic executor for LLVM 18 IR on top of Z3. Core data structures.
#pragma once
#include <llvm/ADT/SmallVector.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum Kind : uint8_t { K_UNDEF, K_INT, K_FP, K_SYMI, K_SYMF, K_AGG };
struct Val {
  Kind k = K_UNDEF;
  uint16_t w = 0;  // bits of int / fp (32,64,80)
  union {
    uint64_t u;
    double d;
    Z3_ast a;
    std::vector<Val>* agg;
  };
  Val() : u(0) {}
  bool conc() const { return k == K_INT || k == K_FP; }
  bool sym() const { return k == K_SYMI || k == K_SYMF; }
};
inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline Val mkI(uint64_t u, unsigned w) { Val v; v.k = K_INT; v.w = w; v.u = u & maskw(w); return v; }
inline Val mkF(double d, unsigned w = 64) { Val v; v.k = K_FP; v.w = w; v.d = w == 32 ? (double)(float)d : d; return v; }
inline Val mkSI(Z3_ast a, unsigned w) { Val v; v.k = K_SYMI; v.w = w; v.a = a; return v; }
inline Val mkSF(Z3_ast a, unsigned w = 64) { Val v; v.k = K_SYMF; v.w = w; v.a = a; return v; }
inline Val mkAgg(std::vector<Val> x) { Val v; v.k = K_AGG; v.agg = new std::vector<Val>(std::move(x)); return v; }
inline int64_t sext(uint64_t u, unsigned w) { return w >= 64 ? (int64_t)u : (int64_t)(u << (64 - w)) >> (64 - w); }

struct Cell { uint32_t off, size; Val v; };
struct Obj {
  uint32_t size = 0;
  bool ro = false, freed = false, heap = false;
  const char* what = "";
  std::vector<uint8_t> b;     // concrete bytes
  std::vector<uint8_t> def;   // empty => all defined; else per-byte 1=defined
  std::vector<Cell> sym;      // sorted by off, non overlapping
};
constexpr unsigned IDSHIFT = 24;
constexpr uint64_t OBASE = 0x1000;  // offset of the object start inside its window
inline uint64_t addrOf(uint64_t id) { return (id << IDSHIFT) + OBASE; }

struct Memory {  // persistent table of objects in chunks
  static constexpr unsigned CH = 64;
  using Chunk = std::vector<std::shared_ptr<Obj>>;
  std::vector<std::shared_ptr<Chunk>> ch;
  const std::shared_ptr<Obj>* find(uint64_t id) const {
    uint64_t c = id / CH;
    if (c >= ch.size() || !ch[c]) return nullptr;
    auto& p = (*ch[c])[id % CH];
    return p ? &p : nullptr;
  }
  std::shared_ptr<Obj>& slot(uint64_t id) {
    uint64_t c = id / CH;
    if (c >= ch.size()) ch.resize(c + 1);
    if (!ch[c]) ch[c] = std::make_shared<Chunk>(CH);
    else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]);
    return (*ch[c])[id % CH];
  }
  Obj* writable(uint64_t id) {
    auto& p = slot(id);
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return p.get();
  }
};

struct COp { bool cst = true; int slot = -1; Val c; };
struct TypeI { enum { VOID, INT, FP, PTR, VEC, STRUCT } k = VOID; unsigned w = 0; llvm::Type* t = nullptr; };
struct CFunc;
struct CI {
  const llvm::Instruction* I = nullptr;
  unsigned op = 0;
  int dst = -1;
  llvm::SmallVector<COp, 3> ops;
  TypeI ty;                       // result type (or stored/compared type)
  llvm::SmallVector<int, 2> succ; // successor block indices
  uint64_t cst = 0;               // GEP constant offset / alloca size / pred
  llvm::SmallVector<std::pair<int, int64_t>, 2> gep;  // (operand idx, scale)
  CFunc* callee = nullptr;
  const llvm::Function* cf = nullptr;
  int builtin = -1;
  std::vector<std::pair<int, COp>> phi;
};
struct CBlk { std::vector<CI> ins; unsigned nphi = 0; };
struct CFunc {
  const llvm::Function* F = nullptr;
  std::vector<CBlk> bb;
  int nslots = 0;
  bool ready = false;
  uint64_t execs = 0, insts = 0;
  std::string name;
};
struct Frame {
  CFunc* f = nullptr;
  unsigned bb = 0, ip = 0, prev = 0;
  std::vector<Val> r;
  std::vector<uint64_t> allocas;
  uint64_t sp_mark = 0;
};
struct Model : std::unordered_map<unsigned, Z3_ast> {};  // var ast id -> value
struct Input { std::string name; Z3_ast a; char kind; Val c; };  // kind d,f,i ; choose inputs carry c
struct State {
  std::vector<Frame> st;
  Memory mem;
  uint64_t nextObj = 0;
  std::vector<Z3_ast> pc;
  std::unordered_set<unsigned> pcset;
  std::shared_ptr<Model> model;
  std::vector<Input> inputs;
  std::unordered_map<std::string, int> nameCount;
  // exceptions
  uint64_t excObj = 0;
  std::vector<uint64_t> caught;
  int uncaught = 0;
  uint64_t steps = 0;
  unsigned forks = 0;
  bool maybeInfeasible = false;
  std::vector<std::string> log;
  std::vector<std::pair<uint64_t, uint64_t>> atexits;
  std::map<uint64_t, uint64_t> excTI;            // exception object -> type info
  std::unordered_map<std::string, int64_t> kv;  // builtin state (file system model, ...)
};
struct PathEnd { std::string why; };                 // terminates the path silently (assume false, exit)
struct Unsupported { std::string why; };             // engine limit: inconclusive
struct Violation { std::string msg; };               // property violated on this path (unconditional)
