// Z3 glue: term construction, definitional variables, sliced queries, polynomial normaliser.
#pragma once
#include "core.h"

extern Z3_context C;
extern bool REAL;           // real-arithmetic mode for doubles (else exact IEEE)
extern Z3_sort sReal, sF64, sF32, sBool, sRM;
extern Z3_ast rRNE;

struct Stats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, modelHits = 0, polyZero = 0, pinned = 0;
  uint64_t cvc5 = 0;
  double solverTime = 0, maxQuery = 0;
  uint64_t asserts = 0, discharged = 0, folded = 0, paths = 0, killed = 0, forks = 0, unknownBranches = 0, steps = 0;
};
extern Stats S;

enum class Res { Sat, Unsat, Unknown };
struct Def {
  enum Kind { Div, Sqrt, Sin, Cos, Other } kind = Other;
  Z3_ast var = nullptr, a = nullptr, b = nullptr;  // operands / partner
  std::vector<Z3_ast> cons;
};
extern std::unordered_map<unsigned, Def> defs;

void z3init(bool real);
inline unsigned aid(Z3_ast a) { return Z3_get_ast_id(C, a); }
Z3_ast simp(Z3_ast a);
Z3_ast simpD(Z3_ast a);
bool deepTerm(Z3_ast a);
int constBool(Z3_ast a);  // 1 true, 0 false, -1 neither
Z3_ast mkNot(Z3_ast a);
Z3_ast mkAnd(Z3_ast a, Z3_ast b);
Z3_ast mkOr(Z3_ast a, Z3_ast b);
Z3_ast mkEq(Z3_ast a, Z3_ast b);
Z3_ast mkIte(Z3_ast c, Z3_ast a, Z3_ast b);
Z3_ast bvc(uint64_t u, unsigned w);
Z3_ast realc(double d);       // shortest-decimal rational
Z3_ast realInt(int64_t i);
Z3_ast f64c(double d);
Z3_ast f32c(double d);
Z3_ast freshVar(const std::string& n, Z3_sort s);
const std::vector<unsigned>& varsOf(Z3_ast a);
Z3_ast varById(unsigned id);
Res query(const std::vector<Z3_ast>& pc, const std::vector<Z3_ast>& conds, Model* out, const Model* hint, double budget_s, bool forAssert = false);
Z3_ast evalUnder(const Model& m, Z3_ast a);
void dropStale(Model& m, const Model& upd);
int exprSort(Z3_ast a);  // Z3_sort_kind
// polynomial normaliser: returns 1 if a-b is identically zero modulo definitions, 0 unknown
struct RootForm { Z3_ast root, den; std::vector<Z3_ast> odd; bool trivialDen; };
bool polyRoot(Z3_ast x, RootForm& out);
Z3_ast polyQuot(Z3_ast x, Z3_ast y);
Z3_ast polyProd(Z3_ast x, Z3_ast y);
std::string polyKey(Z3_ast x);
int polyEqual(Z3_ast a, Z3_ast b);
// bit-vector normal forms (lin.cc)
int linEqual(Z3_ast a, Z3_ast b);
Z3_ast divRewrite(char op, bool sgn, Z3_ast x, uint64_t c, unsigned w, int depth = 0);
void bvRange(Z3_ast a, uint64_t& lo, uint64_t& hi, int depth = 0);
bool bvCases(Z3_ast x, std::vector<std::pair<Z3_ast, uint64_t>>& out, size_t limit);
// integer-valued reals (solver.cc)
Z3_ast irVar(Z3_ast bv);
Z3_ast irCompare(unsigned op, Z3_ast x, Z3_ast y);
Z3_ast irInteger(Z3_ast e);
Z3_ast irFloor(Z3_ast e);
