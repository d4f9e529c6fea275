#pragma once
#include "solver.h"

struct ViolRec { std::string msg, where; std::vector<std::vector<std::pair<std::string, std::string>>> models; bool certain = true; };
struct Options {
  bool real = false;
  uint64_t maxPaths = 200000, maxSteps = 20000000, maxForkDepth = 100000;
  double assertBudget = 20, branchBudget = 2, timeLimit = 800;
  unsigned maxViol = 3;
  bool trace = false;
  std::string entry, out, concreteFile;
  bool progress = false;
  bool forkSelect = false; bool sqCmp = true; bool intReals = false;
};
struct Exec {
  llvm::Module* M;
  const llvm::DataLayout* DL;
  Options opt;
  std::deque<std::unique_ptr<State>> work;
  State* s = nullptr;
  std::unordered_map<const llvm::Function*, std::unique_ptr<CFunc>> cf;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::unordered_map<uint64_t, const llvm::GlobalVariable*> lazyG;  // obj id -> global
  std::unordered_map<uint64_t, std::shared_ptr<Obj>> lazyObj;
  std::vector<const llvm::Function*> fnTab;
  std::unordered_map<std::string, int> builtinId;
  using BF = std::function<bool(CI&, std::vector<Val>&, Val&)>;  // returns false if it did its own control transfer
  std::vector<BF> builtins;
  std::vector<std::string> builtinNames;
  uint64_t gNext = 1;  // object ids for globals (shared); states start numbering above
  std::vector<ViolRec> viols;
  std::vector<std::string> inconclusive;
  std::map<std::string, uint64_t> reached;
  std::map<std::string, std::string> reachModel;
  std::map<std::string, uint64_t> unknownExt;
  std::vector<std::pair<std::string, std::vector<std::pair<std::string, std::string>>>> samples;
  std::map<std::string, std::string> concrete;
  std::string traceOut;
  double t0;
  bool stop = false;

  // setup
  Exec(llvm::Module* m, Options o);
  void initBuiltins();
  void addB(const std::string& n, BF f) { builtinId[n] = builtins.size(); builtins.push_back(f); builtinNames.push_back(n); }
  CFunc* compile(const llvm::Function* F);
  TypeI typeOf(llvm::Type* t);
  COp operand(const llvm::Value* v, std::unordered_map<const llvm::Value*, int>& slots);
  Val constant(const llvm::Constant* c);
  uint64_t globalAddr(const llvm::GlobalValue* g);
  std::shared_ptr<Obj> materialize(uint64_t id);
  void initObj(Obj& o, uint32_t off, const llvm::Constant* c);
  // memory
  uint64_t alloc(uint64_t size, bool heap, bool undef, const char* what);
  void freeObj(uint64_t id) { s->mem.slot(id).reset(); }
  const Obj* robj(uint64_t addr, uint64_t n, uint32_t& off, const char* what);
  Obj* wobj(uint64_t addr, uint64_t n, uint32_t& off, const char* what);
  Val loadAt(uint64_t addr, TypeI t);
  void storeAt(uint64_t addr, Val v, TypeI t);
  Val load(Val addr, TypeI t);
  void store(Val addr, Val v, TypeI t);
  Val readInt(const Obj* o, uint32_t off, uint32_t n);
  void clearCells(Obj* o, uint32_t off, uint32_t n);
  void copyMem(uint64_t d, uint64_t sadr, uint64_t n);
  void setMem(uint64_t d, Val b, uint64_t n);
  Val byteAt(uint64_t addr) { TypeI t; t.k = TypeI::INT; t.w = 8; return loadAt(addr, t); }
  std::string cstr(uint64_t addr);
  // symbolic helpers
  Z3_ast bv(const Val& v, unsigned w);
  Z3_ast fp(const Val& v);
  Z3_ast fpBits(Z3_ast a, unsigned w);
  Val fromBV(Z3_ast a, unsigned w);
  Val fromFP(Z3_ast a, unsigned w = 64);
  Val fromBool(Z3_ast a);
  Z3_ast boolAst(const Val& v);
  bool decide(Z3_ast cond);
  uint64_t conc(const Val& v, unsigned w);
  int64_t concReal(Z3_ast x, int mode);  // integer part of a real by forking
  void assume(Z3_ast c);
  void addPC(Z3_ast c);
  void check(Z3_ast cond, const std::string& msg, const std::string& where);
  [[noreturn]] void undefUse(const std::string& what);
  void violation(const std::string& msg, Z3_ast negcond);
  std::vector<std::pair<std::string, std::string>> modelOf(const Model& m);
  Val newInput(const std::string& name, char kind, unsigned w);
  std::string inputName(const std::string& name);
  // arithmetic
  Val ibin(unsigned op, const Val& a, const Val& b, unsigned w);
  Val icmp(unsigned pred, Val a, Val b, unsigned w);
  Val fbin(unsigned op, const Val& a, const Val& b, unsigned w);
  Val fcmp(unsigned pred, const Val& a, const Val& b);
  Val fneg(const Val& a);
  Val fabsv(const Val& a);
  Val fsqrt(const Val& a);
  Val fround(const Val& a, int mode);  // 0 floor 1 ceil 2 trunc 3 round-away 4 rint
  Val fminmax(const Val& a, const Val& b, bool mx);
  Val castv(unsigned op, const Val& a, TypeI from, TypeI to);
  Val selectv(const Val& c, const Val& a, const Val& b, TypeI t);
  Val libm(const std::string& f, std::vector<Val>& a);
  Z3_ast defVar(const std::string& key, Def::Kind k, std::function<void(Def&)> fill);
  void sinCos(Z3_ast x, Z3_ast& sn, Z3_ast& cs);
  Val fpow(const Val& a, const Val& b);
  // control
  void runState();
  void step();
  void jump(unsigned target);
  void doReturn(Val v);
  bool call(CI& ci, std::vector<Val>& args, Val fnptr, Val& out);
  void pushFrame(CFunc* f, std::vector<Val>& args);
  void popFrame();
  void finishCall(Val v);
  void unwind(uint64_t exc);
  int64_t typeId(uint64_t ti);
  bool typeMatch(uint64_t thrown, uint64_t want, int64_t* off);
  std::vector<std::pair<uint64_t, int64_t>> bases(uint64_t ti);
  std::string tiName(uint64_t ti);
  std::string where();
  void explore(std::unique_ptr<State> init);
  std::unique_ptr<State> runCtors();
  void endPath(const std::string& why);
  Val eval(const COp& o) { return o.cst ? o.c : s->st.back().r[o.slot]; }
  double elapsed();
  // per-assertion budget, cut down to the time that is left
  double aBudget() { return std::max(0.5, std::min(opt.assertBudget, opt.timeLimit - elapsed())); }
};
