#include <gmpxx.h>
#include "solver.h"
#include <charconv>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <random>
#include <unistd.h>

Z3_context C;
bool REAL;
Z3_sort sReal, sF64, sF32, sBool, sRM;
Z3_ast rRNE;
Stats S;
std::unordered_map<unsigned, Def> defs;
static std::unordered_map<unsigned, Z3_ast> varTab;

static void onErr(Z3_context c, Z3_error_code e) {
  throw Unsupported{std::string("z3: ") + Z3_get_error_msg(c, e)};
}
void z3init(bool real) {
  Z3_global_param_set("rewriter.hi_fp_unspecified", "false");
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onErr);
  REAL = real;
  sReal = Z3_mk_real_sort(C);
  sF64 = Z3_mk_fpa_sort_64(C);
  sF32 = Z3_mk_fpa_sort_32(C);
  sBool = Z3_mk_bool_sort(C);
  sRM = Z3_mk_fpa_rounding_mode_sort(C);
  rRNE = Z3_mk_fpa_rne(C);
}
int exprSort(Z3_ast a) { return Z3_get_sort_kind(C, Z3_get_sort(C, a)); }
Z3_ast simp(Z3_ast a) { return Z3_simplify(C, a); }
// Simplification walks the whole term; terms built by long chains of bit operations are left alone.
static std::unordered_map<unsigned, unsigned> g_depth;
static unsigned depthOf(Z3_ast a) {
  auto it = g_depth.find(Z3_get_ast_id(C, a));
  if (it != g_depth.end()) return it->second;
  unsigned d = 1;
  if (Z3_get_ast_kind(C, a) == Z3_APP_AST) {
    unsigned n = Z3_get_app_num_args(C, (Z3_app)a);
    for (unsigned i = 0; i < n; i++) d = std::max(d, 1 + depthOf(Z3_get_app_arg(C, (Z3_app)a, i)));
  }
  return g_depth[Z3_get_ast_id(C, a)] = d;
}
bool deepTerm(Z3_ast a) { return depthOf(a) > 60; }
Z3_ast simpD(Z3_ast a) { return depthOf(a) > 60 ? a : Z3_simplify(C, a); }
int constBool(Z3_ast a) {
  switch (Z3_get_bool_value(C, a)) {
    case Z3_L_TRUE: return 1;
    case Z3_L_FALSE: return 0;
    default: return -1;
  }
}
static bool isApp(Z3_ast a, Z3_decl_kind k) {
  return Z3_get_ast_kind(C, a) == Z3_APP_AST && Z3_get_decl_kind(C, Z3_get_app_decl(C, (Z3_app)a)) == k;
}
static Z3_ast arg(Z3_ast a, unsigned i) { return Z3_get_app_arg(C, (Z3_app)a, i); }
Z3_ast mkNot(Z3_ast a) {
  int b = constBool(a);
  if (b == 1) return Z3_mk_false(C);
  if (b == 0) return Z3_mk_true(C);
  if (isApp(a, Z3_OP_NOT)) return arg(a, 0);
  return Z3_mk_not(C, a);
}
Z3_ast mkAnd(Z3_ast a, Z3_ast b) {
  int x = constBool(a), y = constBool(b);
  if (x == 0 || y == 1) return a;
  if (y == 0 || x == 1) return b;
  if (a == b) return a;
  Z3_ast v[2] = {a, b};
  return Z3_mk_and(C, 2, v);
}
Z3_ast mkOr(Z3_ast a, Z3_ast b) {
  int x = constBool(a), y = constBool(b);
  if (x == 1 || y == 0) return a;
  if (y == 1 || x == 0) return b;
  if (a == b) return a;
  Z3_ast v[2] = {a, b};
  return Z3_mk_or(C, 2, v);
}
Z3_ast mkEq(Z3_ast a, Z3_ast b) {
  if (a == b) return Z3_mk_true(C);
  return Z3_mk_eq(C, a, b);
}
Z3_ast mkIte(Z3_ast c, Z3_ast a, Z3_ast b) {
  int x = constBool(c);
  if (x == 1) return a;
  if (x == 0) return b;
  if (a == b) return a;
  return Z3_mk_ite(C, c, a, b);
}
Z3_ast bvc(uint64_t u, unsigned w) {
  if (w == 1) return (u & 1) ? Z3_mk_true(C) : Z3_mk_false(C);
  return Z3_mk_unsigned_int64(C, u & maskw(w), Z3_mk_bv_sort(C, w));
}
Z3_ast realInt(int64_t i) { return Z3_mk_int64(C, i, sReal); }
Z3_ast realc(double d) {
  static std::unordered_map<uint64_t, Z3_ast> cache;
  uint64_t key;
  memcpy(&key, &d, 8);
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  if (!std::isfinite(d)) throw Unsupported{"non-finite double in real arithmetic"};
  if (d == 0) return cache[key] = Z3_mk_numeral(C, "0", sReal);
  char buf[64];
  auto r = std::to_chars(buf, buf + 60, d, std::chars_format::scientific);
  *r.ptr = 0;
  std::string s(buf);
  size_t e = s.find('e');
  int ex = atoi(s.c_str() + e + 1);
  std::string m = s.substr(0, e);
  bool neg = m[0] == '-';
  if (neg) m = m.substr(1);
  size_t dot = m.find('.');
  if (dot != std::string::npos) {
    ex -= (int)(m.size() - dot - 1);
    m.erase(dot, 1);
  }
  std::string q = (neg ? "-" : "") + m;
  if (ex >= 0) q += std::string(ex, '0');
  else q += "/1" + std::string(-ex, '0');
  Z3_ast a = Z3_mk_numeral(C, q.c_str(), sReal);
  cache[key] = a;
  return a;
}
Z3_ast f64c(double d) { return Z3_mk_fpa_numeral_double(C, d, sF64); }
Z3_ast f32c(double d) { return Z3_mk_fpa_numeral_double(C, d, sF32); }
Z3_ast freshVar(const std::string& n, Z3_sort s) {
  Z3_ast a = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), s);
  varTab[aid(a)] = a;
  return a;
}
Z3_ast varById(unsigned id) { return varTab.at(id); }

const std::vector<unsigned>& varsOf(Z3_ast root) {
  static std::unordered_map<unsigned, std::vector<unsigned>> cache;
  unsigned rid = aid(root);
  auto it = cache.find(rid);
  if (it != cache.end()) return it->second;
  std::vector<unsigned> out;
  std::vector<Z3_ast> work{root};
  std::unordered_set<unsigned> seen{rid};
  while (!work.empty()) {
    Z3_ast a = work.back();
    work.pop_back();
    if (Z3_get_ast_kind(C, a) != Z3_APP_AST) continue;
    Z3_app ap = (Z3_app)a;
    unsigned n = Z3_get_app_num_args(C, ap);
    if (n == 0) {
      if (varTab.count(aid(a))) out.push_back(aid(a));
      continue;
    }
    for (unsigned i = 0; i < n; i++) {
      Z3_ast c = Z3_get_app_arg(C, ap, i);
      if (seen.insert(aid(c)).second) work.push_back(c);
    }
  }
  return cache[rid] = out;
}

Z3_ast evalUnder(const Model& m, Z3_ast a) {
  auto& vs = varsOf(a);
  std::vector<Z3_ast> from, to;
  for (unsigned v : vs) {
    auto it = m.find(v);
    if (it == m.end()) {
      // default completion is not allowed for definitional variables
      if (defs.count(v)) return a;
      Z3_ast x = varById(v);
      Z3_sort s = Z3_get_sort(C, x);
      Z3_ast val;
      switch (Z3_get_sort_kind(C, s)) {
        case Z3_BOOL_SORT: val = Z3_mk_false(C); break;
        case Z3_BV_SORT: val = bvc(0, Z3_get_bv_sort_size(C, s)); break;
        case Z3_REAL_SORT: val = realInt(0); break;
        default: val = Z3_mk_fpa_zero(C, s, false);
      }
      from.push_back(x);
      to.push_back(val);
    } else {
      from.push_back(varById(v));
      to.push_back(it->second);
    }
  }
  Z3_ast r = Z3_substitute(C, a, from.size(), from.data(), to.data());
  return simp(r);
}
void dropStale(Model& m, const Model& upd) {
  std::vector<unsigned> rm;
  for (auto& kv : m)
    if (defs.count(kv.first) && !upd.count(kv.first)) rm.push_back(kv.first);
  for (unsigned v : rm) m.erase(v);
  for (auto& kv : upd) m[kv.first] = kv.second;
}

struct Cls { bool fp = false, real = false, nl = false, bv = false; size_t size = 0; };
static void classify(Z3_ast root, std::unordered_set<unsigned>& seen, Cls& c) {
  std::vector<Z3_ast> work{root};
  while (!work.empty()) {
    Z3_ast a = work.back();
    work.pop_back();
    if (!seen.insert(aid(a)).second) continue;
    c.size++;
    int sk = exprSort(a);
    if (sk == Z3_FLOATING_POINT_SORT) c.fp = true;
    else if (sk == Z3_REAL_SORT || sk == Z3_INT_SORT) c.real = true;
    else if (sk == Z3_BV_SORT) c.bv = true;
    if (Z3_get_ast_kind(C, a) != Z3_APP_AST) continue;
    Z3_app ap = (Z3_app)a;
    unsigned n = Z3_get_app_num_args(C, ap);
    auto dk = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap));
    if (dk == Z3_OP_MUL) {
      int nv = 0;
      for (unsigned i = 0; i < n; i++)
        if (Z3_get_ast_kind(C, Z3_get_app_arg(C, ap, i)) != Z3_NUMERAL_AST) nv++;
      if (nv > 1) c.nl = true;
    } else if (dk == Z3_OP_POWER || dk == Z3_OP_DIV) c.nl = true;
    for (unsigned i = 0; i < n; i++) work.push_back(Z3_get_app_arg(C, ap, i));
  }
}

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double g_acc = 0;
static Res runSolver(Z3_solver s, const std::vector<Z3_ast>& cs, const std::set<unsigned>& vars, Model* out, double tmo) {
  Z3_solver_inc_ref(C, s);
  Res r = Res::Unknown;
  try {
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)(tmo * 1000) + 1);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    for (Z3_ast c : cs) Z3_solver_assert(C, s, c);
    double t0 = now();
    Z3_lbool b = Z3_solver_check(C, s);
    double dt = now() - t0;
    S.solverTime += dt;
    g_acc += dt;
    if (dt > S.maxQuery) S.maxQuery = dt;
    S.queries++;
    if (b == Z3_L_FALSE) r = Res::Unsat;
    else if (b == Z3_L_TRUE) {
      r = Res::Sat;
      if (out) {
        Z3_model m = Z3_solver_get_model(C, s);
        Z3_model_inc_ref(C, m);
        for (unsigned v : vars) {
          Z3_ast val = nullptr;
          if (Z3_model_eval(C, m, varById(v), true, &val) && val) (*out)[v] = simp(val);
        }
        Z3_model_dec_ref(C, m);
      }
    }
  } catch (Unsupported&) {
    r = Res::Unknown;
  }
  Z3_solver_dec_ref(C, s);
  return r;
}
static Z3_solver tacSolver(const char* name) {
  Z3_tactic t = Z3_mk_tactic(C, name);
  Z3_tactic_inc_ref(C, t);
  Z3_solver s = Z3_mk_solver_from_tactic(C, t);
  return s;
}
static Z3_solver tac2(const char* a, const char* b) {
  Z3_tactic t1 = Z3_mk_tactic(C, a);
  Z3_tactic_inc_ref(C, t1);
  Z3_tactic t2 = Z3_mk_tactic(C, b);
  Z3_tactic_inc_ref(C, t2);
  Z3_tactic t = Z3_tactic_and_then(C, t1, t2);
  Z3_tactic_inc_ref(C, t);
  return Z3_mk_solver_from_tactic(C, t);
}
// external cvc5 as a second opinion (unsat only; sat is reported as unknown-with-no-model)
static Res runCvc5(const std::vector<Z3_ast>& cs, double tmo, bool nra) {
  S.cvc5++;
  char fn[] = "/tmp/symxXXXXXX";
  int fd = mkstemp(fn);
  if (fd < 0) return Res::Unknown;
  Z3_solver s = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, s);
  for (Z3_ast c : cs) Z3_solver_assert(C, s, c);
  std::string txt = Z3_solver_to_string(C, s);
  Z3_solver_dec_ref(C, s);
  txt = std::string("(set-logic ") + (nra ? "QF_NRA" : "QF_BVFP") + ")\n" + txt + "\n(check-sat)\n";
  if (write(fd, txt.data(), txt.size()) < 0) {}
  close(fd);
  char cmd[256];
  snprintf(cmd, sizeof cmd, "timeout %d cvc5 --lang=smt2 --tlimit=%d %s 2>&1", (int)tmo + 2, (int)(tmo * 1000), fn);
  double t0 = now();
  FILE* p = popen(cmd, "r");
  std::string o;
  char buf[512];
  while (p && fgets(buf, sizeof buf, p)) o += buf;
  if (p) pclose(p);
  unlink(fn);
  double dt = now() - t0;
  S.solverTime += dt;
  if (dt > S.maxQuery) S.maxQuery = dt;
  S.queries++;
  if (o.find("error") != std::string::npos) return Res::Unknown;
  if (o.rfind("unsat", 0) == 0) return Res::Unsat;
  return Res::Unknown;
}

static std::mt19937 g_rng(1);
static Z3_ast pinValue(int i) {
  static const char* v[] = {"0", "1", "1/2", "2", "-1", "3/7", "-3/5", "5/3", "7", "1/10", "-5/2", "11/4"};
  return Z3_mk_numeral(C, v[(unsigned)i % 12], sReal);
}

// ---------------------------------------------------------------- bit-vector queries as linear integer arithmetic
// Every bit-vector term becomes an integer term (its signed value) with an interval that proves the absence of
// wrap-around; a term that cannot be represented exactly makes the translation fail.
namespace {
struct Lia {
  struct Fail {};
  struct T { Z3_ast e; mpz_class lo, hi; };
  std::unordered_map<unsigned, T> memo;
  std::unordered_map<unsigned, Z3_ast> bmemo;
  std::vector<std::pair<unsigned, Z3_ast>> vars;  // variable id -> Int constant
  std::vector<Z3_ast> extra;
  Z3_sort I = Z3_mk_int_sort(C);
  static mpz_class p2(unsigned n) { mpz_class r = 1; r <<= n; return r; }
  Z3_ast num(const mpz_class& z) { return Z3_mk_numeral(C, z.get_str().c_str(), I); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return Z3_mk_add(C, 2, v); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return Z3_mk_sub(C, 2, v); }
  Z3_ast mulc(const mpz_class& k, Z3_ast b) { Z3_ast v[2] = {num(k), b}; return Z3_mk_mul(C, 2, v); }
  // reduce into the signed range of w bits
  T wrap(Z3_ast e, const mpz_class& lo, const mpz_class& hi, unsigned w) {
    mpz_class h = p2(w - 1), m = p2(w);
    if (lo >= -h && hi < h) return {e, lo, hi};
    // a range that lies in one other period just shifts
    mpz_class a, b, t;
    t = lo + h; mpz_fdiv_q(a.get_mpz_t(), t.get_mpz_t(), m.get_mpz_t());
    t = hi + h; mpz_fdiv_q(b.get_mpz_t(), t.get_mpz_t(), m.get_mpz_t());
    if (a == b) return {sub(e, num(a * m)), lo - a * m, hi - a * m};
    if (b - a > 4) throw Fail();
    Z3_ast r = sub(e, num(a * m));
    for (mpz_class k = a + 1; k <= b; k += 1)
      r = Z3_mk_ite(C, Z3_mk_ge(C, e, num(k * m - h)), sub(e, num(k * m)), r);
    return {r, -h, h - 1};
  }
  T toU(const T& x, unsigned w) {
    if (x.lo >= 0) return x;
    mpz_class m = p2(w);
    if (x.hi < 0) return {add(x.e, num(m)), x.lo + m, x.hi + m};
    return {Z3_mk_ite(C, Z3_mk_lt(C, x.e, num(0)), add(x.e, num(m)), x.e), 0, m - 1};
  }
  static unsigned width(Z3_ast a) { return Z3_get_bv_sort_size(C, Z3_get_sort(C, a)); }
  T term(Z3_ast a) {
    auto it = memo.find(aid(a));
    if (it != memo.end()) return it->second;
    T r = term0(a);
    memo[aid(a)] = r;
    return r;
  }
  T divFloor(const T& x, const mpz_class& d) {  // d > 0
    mpz_class lo, hi;
    mpz_fdiv_q(lo.get_mpz_t(), x.lo.get_mpz_t(), d.get_mpz_t());
    mpz_fdiv_q(hi.get_mpz_t(), x.hi.get_mpz_t(), d.get_mpz_t());
    if (lo == hi) return {num(lo), lo, hi};
    return {Z3_mk_div(C, x.e, num(d)), lo, hi};
  }
  T neg(const T& x) { return {mulc(-1, x.e), -x.hi, -x.lo}; }
  T divTrunc(const T& x, const mpz_class& d) {  // d > 0
    if (x.lo >= 0) return divFloor(x, d);
    T n = neg(divFloor(neg(x), d));
    if (x.hi <= 0) return n;
    T p = divFloor(x, d);
    return {Z3_mk_ite(C, Z3_mk_ge(C, x.e, num(0)), p.e, n.e), std::min(n.lo, p.lo), std::max(n.hi, p.hi)};
  }
  T term0(Z3_ast a) {
    const unsigned w = width(a);
    if (Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST) {
      mpz_class z(Z3_get_numeral_string(C, a));
      if (z >= p2(w - 1)) z -= p2(w);
      return {num(z), z, z};
    }
    if (Z3_get_ast_kind(C, a) != Z3_APP_AST) throw Fail();
    Z3_app ap = Z3_to_app(C, a);
    Z3_func_decl d = Z3_get_app_decl(C, ap);
    const unsigned n = Z3_get_app_num_args(C, ap);
    auto arg = [&](unsigned i) { return Z3_get_app_arg(C, ap, i); };
    switch (Z3_get_decl_kind(C, d)) {
      case Z3_OP_UNINTERPRETED: {
        if (n) throw Fail();
        Z3_ast v = Z3_mk_fresh_const(C, "i", I);
        mpz_class h = p2(w - 1);
        extra.push_back(Z3_mk_ge(C, v, num(-h)));
        extra.push_back(Z3_mk_lt(C, v, num(h)));
        vars.push_back({aid(a), v});
        return {v, -h, h - 1};
      }
      case Z3_OP_BADD: {
        T x = term(arg(0));
        for (unsigned i = 1; i < n; i++) { T y = term(arg(i)); x = {add(x.e, y.e), x.lo + y.lo, x.hi + y.hi}; }
        return wrap(x.e, x.lo, x.hi, w);
      }
      case Z3_OP_BSUB: {
        T x = term(arg(0)), y = term(arg(1));
        if (n != 2) throw Fail();
        return wrap(sub(x.e, y.e), x.lo - y.hi, x.hi - y.lo, w);
      }
      case Z3_OP_BNEG: { T x = neg(term(arg(0))); return wrap(x.e, x.lo, x.hi, w); }
      case Z3_OP_BMUL: {
        T x = term(arg(0));
        for (unsigned i = 1; i < n; i++) {
          T y = term(arg(i));
          if (x.lo != x.hi) std::swap(x, y);
          if (x.lo != x.hi) throw Fail();
          mpz_class k = x.lo, l = k * y.lo, h = k * y.hi;
          x = wrap(mulc(k, y.e), std::min(l, h), std::max(l, h), w);
        }
        return x;
      }
      case Z3_OP_BNOT: { T x = term(arg(0)); return {sub(num(-1), x.e), -1 - x.hi, -1 - x.lo}; }
      case Z3_OP_SIGN_EXT: return term(arg(0));
      case Z3_OP_ZERO_EXT: return toU(term(arg(0)), width(arg(0)));
      case Z3_OP_CONCAT: {
        // sign extension: copies of the sign bit of the last argument
        bool sx = true;
        Z3_ast last = arg(n - 1);
        for (unsigned i = 0; i + 1 < n && sx; i++) {
          Z3_ast x = arg(i);
          sx = Z3_get_ast_kind(C, x) == Z3_APP_AST && width(x) == 1;
          if (!sx) break;
          Z3_func_decl dd = Z3_get_app_decl(C, Z3_to_app(C, x));
          sx = Z3_get_decl_kind(C, dd) == Z3_OP_EXTRACT;
          if (!sx) break;
          Z3_ast y = Z3_get_app_arg(C, Z3_to_app(C, x), 0);
          unsigned b = Z3_get_decl_int_parameter(C, dd, 0);
          sx = (y == last && b == width(last) - 1);
          if (!sx && Z3_get_ast_kind(C, last) == Z3_APP_AST) {  // sign bit of what the last argument is extracted from
            Z3_func_decl ld = Z3_get_app_decl(C, Z3_to_app(C, last));
            sx = Z3_get_decl_kind(C, ld) == Z3_OP_EXTRACT && Z3_get_app_arg(C, Z3_to_app(C, last), 0) == y && (unsigned)Z3_get_decl_int_parameter(C, ld, 0) == b;
          }
        }
        if (sx) return term(last);
        T x = term(arg(0));
        for (unsigned i = 1; i < n; i++) {
          unsigned wi = width(arg(i));
          T y = toU(term(arg(i)), wi);
          mpz_class k = p2(wi);
          x = {x.lo == x.hi ? add(num(k * x.lo), y.e) : add(mulc(k, x.e), y.e), k * x.lo + y.lo, k * x.hi + y.hi};
        }
        return x;
      }
      case Z3_OP_EXTRACT: {
        unsigned hi = Z3_get_decl_int_parameter(C, d, 0), lo = Z3_get_decl_int_parameter(C, d, 1);
        T x = term(arg(0));
        if (lo) x = divFloor(x, p2(lo));
        const unsigned ow = hi - lo + 1;
        mpz_class h = p2(ow - 1);
        if (x.lo >= -h && x.hi < h) return x;
        if (hi + 1 == width(arg(0))) return x;
        try { return wrap(x.e, x.lo, x.hi, ow); } catch (Fail&) {}
        // general residue
        Z3_ast md = Z3_mk_mod(C, x.e, num(p2(ow)));
        return {Z3_mk_ite(C, Z3_mk_ge(C, md, num(h)), sub(md, num(p2(ow))), md), -h, h - 1};
      }
      case Z3_OP_ITE: {
        T x = term(arg(1)), y = term(arg(2));
        return {Z3_mk_ite(C, form(arg(0)), x.e, y.e), std::min(x.lo, y.lo), std::max(x.hi, y.hi)};
      }
      case Z3_OP_BSDIV: case Z3_OP_BSDIV_I: case Z3_OP_BSREM: case Z3_OP_BSREM_I: {
        T x = term(arg(0)), y = term(arg(1));
        if (y.lo != y.hi || y.lo <= 0) throw Fail();
        T q = divTrunc(x, y.lo);
        Z3_decl_kind k = Z3_get_decl_kind(C, d);
        if (k == Z3_OP_BSDIV || k == Z3_OP_BSDIV_I) return q;
        mpz_class m = y.lo - 1;
        return {sub(x.e, mulc(y.lo, q.e)), x.lo < 0 ? mpz_class(-m) : mpz_class(0), x.hi > 0 ? m : mpz_class(0)};
      }
      case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: case Z3_OP_BUREM: case Z3_OP_BUREM_I: {
        T x = toU(term(arg(0)), w), y = term(arg(1));
        if (y.lo != y.hi || y.lo <= 0) throw Fail();
        Z3_decl_kind k = Z3_get_decl_kind(C, d);
        if (k == Z3_OP_BUDIV || k == Z3_OP_BUDIV_I) { T q = divFloor(x, y.lo); return wrap(q.e, q.lo, q.hi, w); }
        return wrap(Z3_mk_mod(C, x.e, num(y.lo)), 0, y.lo - 1, w);
      }
      case Z3_OP_BSHL: {
        T x = term(arg(0)), y = term(arg(1));
        if (y.lo != y.hi || y.lo < 0 || y.lo >= w) throw Fail();
        mpz_class k = p2(y.lo.get_ui());
        return wrap(mulc(k, x.e), k * x.lo, k * x.hi, w);
      }
      case Z3_OP_BASHR: case Z3_OP_BLSHR: {
        T x = term(arg(0)), y = term(arg(1));
        if (y.lo != y.hi || y.lo < 0 || y.lo >= w) throw Fail();
        if (Z3_get_decl_kind(C, d) == Z3_OP_BLSHR) x = toU(x, w);
        T q = divFloor(x, p2(y.lo.get_ui()));
        return wrap(q.e, q.lo, q.hi, w);
      }
      default: throw Fail();
    }
  }
  Z3_ast form(Z3_ast a) {
    auto it = bmemo.find(aid(a));
    if (it != bmemo.end()) return it->second;
    Z3_ast r = form0(a);
    bmemo[aid(a)] = r;
    return r;
  }
  Z3_ast form0(Z3_ast a) {
    if (Z3_get_ast_kind(C, a) != Z3_APP_AST) throw Fail();
    Z3_app ap = Z3_to_app(C, a);
    Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap));
    const unsigned n = Z3_get_app_num_args(C, ap);
    auto arg = [&](unsigned i) { return Z3_get_app_arg(C, ap, i); };
    auto isBool = [&](Z3_ast x) { return exprSort(x) == Z3_BOOL_SORT; };
    std::vector<Z3_ast> v;
    switch (k) {
      case Z3_OP_TRUE: case Z3_OP_FALSE: return a;
      case Z3_OP_NOT: return Z3_mk_not(C, form(arg(0)));
      case Z3_OP_AND: case Z3_OP_OR:
        for (unsigned i = 0; i < n; i++) v.push_back(form(arg(i)));
        return k == Z3_OP_AND ? Z3_mk_and(C, n, v.data()) : Z3_mk_or(C, n, v.data());
      case Z3_OP_XOR: return Z3_mk_xor(C, form(arg(0)), form(arg(1)));
      case Z3_OP_IMPLIES: return Z3_mk_implies(C, form(arg(0)), form(arg(1)));
      case Z3_OP_ITE: return Z3_mk_ite(C, form(arg(0)), form(arg(1)), form(arg(2)));
      case Z3_OP_EQ: case Z3_OP_IFF:
        if (isBool(arg(0))) return Z3_mk_iff(C, form(arg(0)), form(arg(1)));
        if (exprSort(arg(0)) != Z3_BV_SORT) throw Fail();
        return Z3_mk_eq(C, term(arg(0)).e, term(arg(1)).e);
      case Z3_OP_UNINTERPRETED:
        if (n == 0 && isBool(a)) return a;
        throw Fail();
      case Z3_OP_SLEQ: return Z3_mk_le(C, term(arg(0)).e, term(arg(1)).e);
      case Z3_OP_SLT: return Z3_mk_lt(C, term(arg(0)).e, term(arg(1)).e);
      case Z3_OP_SGEQ: return Z3_mk_ge(C, term(arg(0)).e, term(arg(1)).e);
      case Z3_OP_SGT: return Z3_mk_gt(C, term(arg(0)).e, term(arg(1)).e);
      case Z3_OP_ULEQ: case Z3_OP_ULT: case Z3_OP_UGEQ: case Z3_OP_UGT: {
        unsigned w = width(arg(0));
        Z3_ast x = toU(term(arg(0)), w).e, y = toU(term(arg(1)), w).e;
        return k == Z3_OP_ULEQ ? Z3_mk_le(C, x, y) : k == Z3_OP_ULT ? Z3_mk_lt(C, x, y) : k == Z3_OP_UGEQ ? Z3_mk_ge(C, x, y) : Z3_mk_gt(C, x, y);
      }
      default: throw Fail();
    }
  }
};
}  // namespace
static Res liaQuery(const std::vector<Z3_ast>& cs, const std::set<unsigned>& vs, Model* m, double budget) {
  Lia L;
  std::vector<Z3_ast> f;
  try {
    for (Z3_ast c : cs) f.push_back(L.form(c));
  } catch (Lia::Fail&) { return Res::Unknown; }
  for (Z3_ast e : L.extra) f.push_back(e);
  for (Z3_ast e : f) Z3_inc_ref(C, e);
  std::set<unsigned> iv;
  std::unordered_map<unsigned, unsigned> back;
  for (auto& v : L.vars) { Z3_inc_ref(C, v.second); }
  Z3_solver s = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)(budget * 1000));
  Z3_solver_set_params(C, s, p);
  for (Z3_ast e : f) Z3_solver_assert(C, s, e);
  auto t0 = std::chrono::steady_clock::now();
  Z3_lbool l = Z3_solver_check(C, s);
  const double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  S.queries++;
  S.solverTime += el;
  g_acc += el;
  Res r = l == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (l == Z3_L_TRUE) {
    // carry the integer model over and confirm it on the bit-vectors
    Z3_model mod = Z3_solver_get_model(C, s);
    Z3_model_inc_ref(C, mod);
    std::vector<Z3_ast> cs2 = cs;
    for (auto& v : L.vars) {
      Z3_ast val;
      if (!Z3_model_eval(C, mod, v.second, true, &val) || Z3_get_ast_kind(C, val) != Z3_NUMERAL_AST) continue;
      mpz_class z(Z3_get_numeral_string(C, val));
      Z3_ast b = varById(v.first);
      unsigned w = Z3_get_bv_sort_size(C, Z3_get_sort(C, b));
      if (z < 0) z += Lia::p2(w);
      cs2.push_back(mkEq(b, Z3_mk_numeral(C, z.get_str().c_str(), Z3_get_sort(C, b))));
    }
    Z3_model_dec_ref(C, mod);
    r = runSolver(Z3_mk_simple_solver(C), cs2, vs, m, 5.0);
    if (r == Res::Unsat) { fprintf(stderr, "symx: integer model rejected by the bit-vector solver\n"); r = Res::Unknown; }
  }
  Z3_params_dec_ref(C, p);
  Z3_solver_dec_ref(C, s);
  return r;
}

Res query(const std::vector<Z3_ast>& pc, const std::vector<Z3_ast>& conds, Model* out, const Model* hint, double budget, bool forAssert) {
  // slice
  std::vector<Z3_ast> cs;
  std::set<unsigned> vs;
  std::unordered_set<unsigned> inc;
  std::vector<unsigned> work;
  auto addC = [&](Z3_ast c) {
    if (constBool(c) == 1) return;
    if (!inc.insert(aid(c)).second) return;
    cs.push_back(c);
    for (unsigned v : varsOf(c))
      if (vs.insert(v).second) work.push_back(v);
  };
  for (Z3_ast c : conds) {
    if (constBool(c) == 0) return Res::Unsat;
    addC(c);
  }
  std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    while (!work.empty()) {
      unsigned v = work.back();
      work.pop_back();
      auto it = defs.find(v);
      if (it != defs.end())
        for (Z3_ast c : it->second.cons) addC(c);
    }
    for (size_t i = 0; i < pc.size(); i++)
      if (!used[i]) {
        bool hit = false;
        for (unsigned v : varsOf(pc[i]))
          if (vs.count(v)) { hit = true; break; }
        if (hit) {
          used[i] = 1;
          addC(pc[i]);
          ch = true;
        }
      }
  }
  if (cs.empty()) return Res::Sat;
  // cache
  std::vector<unsigned> key;
  for (Z3_ast c : cs) key.push_back(aid(c));
  std::sort(key.begin(), key.end());
  std::string ks((const char*)key.data(), key.size() * sizeof(unsigned));
  struct CE { Res r; Model m; double budget; };
  static std::unordered_map<std::string, CE> cache;
  auto it = cache.find(ks);
  if (it != cache.end() && (it->second.r != Res::Unknown || it->second.budget >= budget)) {
    S.cached++;
    if (out) *out = it->second.m;
    return it->second.r;
  }
  Cls c;
  {
    std::unordered_set<unsigned> seen;
    for (Z3_ast a : cs) classify(a, seen, c);
  }
  Model m;
  Res r = Res::Unknown;
  g_acc = 0;
  if (c.real && !c.fp) {
    if (!c.nl) {
      r = runSolver(Z3_mk_simple_solver(C), cs, vs, &m, budget);
    } else {
      bool bvmix = c.bv;
      double b1 = std::min(budget, forAssert ? 3.0 : 1.0);
      r = runSolver(Z3_mk_simple_solver(C), cs, vs, &m, b1);
      if (r == Res::Unknown && !bvmix) {
        r = runSolver(tac2("simplify", "qfnra-nlsat"), cs, vs, &m, std::min(budget, forAssert ? 5.0 : 1.5));
      }
      if (r == Res::Unknown) {
        // look for models with most inputs pinned
        std::vector<unsigned> in;
        for (unsigned v : vs)
          if (!defs.count(v) && exprSort(varById(v)) == Z3_REAL_SORT) in.push_back(v);
        int tries = forAssert ? 12 : 4;
        for (int t = 0; t < tries && r == Res::Unknown; t++) {
          auto cs2 = cs;
          size_t free1 = in.empty() ? 0 : g_rng() % in.size(), free2 = in.empty() ? 0 : g_rng() % in.size();
          for (size_t i = 0; i < in.size(); i++) {
            if (t % 3 != 2 && (i == free1 || (t % 2 && i == free2))) continue;
            Z3_ast val = nullptr;
            if (hint && t < tries / 2) {
              auto h = hint->find(in[i]);
              if (h != hint->end() && Z3_get_ast_kind(C, h->second) == Z3_NUMERAL_AST) val = h->second;
            }
            if (!val) val = pinValue(g_rng());
            cs2.push_back(mkEq(varById(in[i]), val));
          }
          Model mm;
          Res rr = runSolver(Z3_mk_simple_solver(C), cs2, vs, &mm, 0.6);
          if (rr == Res::Sat) {
            r = Res::Sat;
            m = mm;
            S.pinned++;
          }
        }
      }
      if (r == Res::Unknown && forAssert) {
        if (budget > 5 && !bvmix) r = runSolver(tac2("simplify", "qfnra-nlsat"), cs, vs, &m, budget);
        if (r == Res::Unknown && !bvmix) r = runCvc5(cs, budget, true);
      }
    }
  } else if (c.fp) {
    r = runSolver(Z3_mk_simple_solver(C), cs, vs, &m, std::min(budget, 2.0));
    if (r == Res::Unknown) r = runSolver(tacSolver("qffp"), cs, vs, &m, budget);
    if (r == Res::Unknown && forAssert) r = runCvc5(cs, budget, false);
  } else {
    r = runSolver(Z3_mk_simple_solver(C), cs, vs, &m, std::min(budget, 0.5));
    if (r == Res::Unknown) r = liaQuery(cs, vs, &m, std::min(budget, 2.0));
    if (r == Res::Unknown) r = runSolver(Z3_mk_simple_solver(C), cs, vs, &m, std::min(budget, 2.0));
    if (r == Res::Unknown) r = runSolver(tacSolver("qfbv"), cs, vs, &m, budget);
  }
  if (getenv("SYMX_SLOW") && g_acc > atof(getenv("SYMX_SLOW"))) {
    static int n = 0;
    fprintf(stderr, "[slow query %d] %.2fs res=%d size=%zu assert=%d nl=%d fp=%d\n", n, g_acc, (int)r, c.size, forAssert, c.nl, c.fp);
    if (getenv("SYMX_DUMP")) {
      std::ofstream f(std::string(getenv("SYMX_DUMP")) + "/q" + std::to_string(n) + ".smt2");
      Z3_solver s = Z3_mk_simple_solver(C);
      Z3_solver_inc_ref(C, s);
      for (Z3_ast x : cs) Z3_solver_assert(C, s, x);
      f << Z3_solver_to_string(C, s) << "\n(check-sat)\n";
      Z3_solver_dec_ref(C, s);
    }
    n++;
  }
  if (r == Res::Sat) S.sat++;
  else if (r == Res::Unsat) S.unsat++;
  else S.unknown++;
  cache[ks] = CE{r, m, budget};
  if (out) *out = m;
  return r;
}

// ---------------------------------------------------------------- polynomial normaliser
namespace {
using Mono = std::vector<std::pair<unsigned, unsigned>>;  // (var id, exp) sorted
struct Poly { std::map<Mono, mpq_class> t; };
struct TooBig {};
size_t g_limit = 6000;
Poly pc_(const mpq_class& q) { Poly p; if (q != 0) p.t[{}] = q; return p; }
Poly pv_(unsigned v) { Poly p; p.t[{{v, 1}}] = 1; return p; }
Poly padd(const Poly& a, const Poly& b, int sgn = 1) {
  Poly r = a;
  for (auto& kv : b.t) {
    auto it = r.t.find(kv.first);
    mpq_class q = sgn > 0 ? kv.second : mpq_class(-kv.second);
    if (it == r.t.end()) r.t[kv.first] = q;
    else {
      it->second += q;
      if (it->second == 0) r.t.erase(it);
    }
  }
  if (r.t.size() > g_limit) throw TooBig{};
  return r;
}
Mono mmul(const Mono& a, const Mono& b) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
  }
  return r;
}
Poly pmul(const Poly& a, const Poly& b) {
  Poly r;
  if (a.t.size() * b.t.size() > g_limit * 40) throw TooBig{};
  for (auto& x : a.t)
    for (auto& y : b.t) {
      Mono m = mmul(x.first, y.first);
      mpq_class q = x.second * y.second;
      auto it = r.t.find(m);
      if (it == r.t.end()) r.t[m] = q;
      else {
        it->second += q;
        if (it->second == 0) r.t.erase(it);
      }
    }
  if (r.t.size() > g_limit) throw TooBig{};
  return r;
}
// A rational function: numerator over a product of factor powers. Denominator factors are kept
// unexpanded (by identity of their polynomial) so that common factors are recognised.
std::unordered_map<unsigned, Z3_ast> g_polyVar;  // id -> variable ast
struct RF { Poly n; std::map<unsigned, unsigned> d; };
std::vector<Poly> facPoly;                      // factor id -> polynomial
std::map<std::map<Mono, mpq_class>, unsigned> facId;
void cancelAll(RF& r);
struct Norm {
  std::unordered_map<unsigned, RF> memo;
  std::map<unsigned, RF> sq;  // sqrt var -> its square as RF
  unsigned factor(const Poly& p, mpq_class& lead) {
    lead = p.t.begin()->second;
    Poly q;
    for (auto& kv : p.t) q.t[kv.first] = kv.second / lead;
    auto it = facId.find(q.t);
    if (it != facId.end()) return it->second;
    facPoly.push_back(q);
    facId[q.t] = facPoly.size() - 1;
    return facPoly.size() - 1;
  }
  Poly fpow(unsigned f, unsigned e) {
    Poly r = pc_(1);
    while (e--) r = pmul(r, facPoly[f]);
    return r;
  }
  RF reduce(RF r) {
    // replace s^2 for algebraic s (sqrt / cos) by its square, repeatedly
    for (int guard = 0; guard < 50; guard++) {
      unsigned target = 0;
      bool found = false;
      for (auto& kv : r.n.t) {
        for (auto& ve : kv.first)
          if (ve.second >= 2 && sq.count(ve.first)) { if (!found || ve.first > target) target = ve.first; found = true; }
      }
      if (!found) break;
      // split numerator by parity of target exponent
      const RF& s2 = sq[target];
      std::map<unsigned, Poly> by;  // k = e/2 -> poly (with target^(e%2))
      unsigned kmax = 0;
      for (auto& kv : r.n.t) {
        unsigned e = 0;
        Mono m;
        for (auto& ve : kv.first)
          if (ve.first == target) e = ve.second;
          else m.push_back(ve);
        if (e % 2) m = mmul(m, Mono{{target, 1}});
        auto& P = by[e / 2];
        P = padd(P, Poly{{{m, kv.second}}});
        kmax = std::max(kmax, e / 2);
      }
      Poly acc;
      // sum_k by[k] * N^k * D^(kmax-k)  over D^kmax
      Poly D = pc_(1);
      for (auto& f : s2.d) D = pmul(D, fpow(f.first, f.second));
      std::vector<Poly> np{pc_(1)}, dp{pc_(1)};
      for (unsigned k = 1; k <= kmax; k++) { np.push_back(pmul(np.back(), s2.n)); dp.push_back(pmul(dp.back(), D)); }
      for (auto& kv : by) acc = padd(acc, pmul(kv.second, pmul(np[kv.first], dp[kmax - kv.first])));
      r.n = acc;
      for (auto& f : s2.d) r.d[f.first] += f.second * kmax;
    }
    if (r.n.t.empty()) r.d.clear();
    if (!r.d.empty()) cancelAll(r);
    return r;
  }
  RF add(const RF& a, const RF& b, int sgn) {
    RF r;
    r.d = a.d;
    for (auto& f : b.d) r.d[f.first] = std::max(r.d[f.first], f.second);
    Poly x = a.n, y = b.n;
    for (auto& f : r.d) {
      auto ia = a.d.find(f.first), ib = b.d.find(f.first);
      unsigned ea = ia == a.d.end() ? 0 : ia->second, eb = ib == b.d.end() ? 0 : ib->second;
      if (f.second > ea) x = pmul(x, fpow(f.first, f.second - ea));
      if (f.second > eb) y = pmul(y, fpow(f.first, f.second - eb));
    }
    r.n = padd(x, y, sgn);
    return reduce(r);
  }
  RF mul(const RF& a, const RF& b) {
    RF r;
    // cancel numerator equal to a factor
    auto cancel = [&](Poly n, std::map<unsigned, unsigned> d, mpq_class& c) {
      c = 1;
      if (!n.t.empty() && !d.empty()) {
        mpq_class l = n.t.begin()->second;
        Poly q;
        for (auto& kv : n.t) q.t[kv.first] = kv.second / l;
        auto it = facId.find(q.t);
        if (it != facId.end()) {
          auto f = d.find(it->second);
          if (f != d.end()) {
            if (--f->second == 0) d.erase(f);
            return std::make_pair(pc_(l), d);
          }
        }
      }
      return std::make_pair(n, d);
    };
    mpq_class c;
    auto p = cancel(a.n, b.d, c);
    auto q = cancel(b.n, a.d, c);
    r.n = pmul(p.first, q.first);
    r.d = q.second;
    for (auto& f : p.second) r.d[f.first] += f.second;
    return reduce(r);
  }
  RF inv(const RF& a) {
    if (a.n.t.empty()) throw TooBig{};
    RF r;
    r.n = pc_(1);
    // single algebraic monomial: 1/s = s/s^2
    if (a.n.t.size() == 1) {
      auto& mono = a.n.t.begin()->first;
      mpq_class c = a.n.t.begin()->second;
      r.n = pc_(mpq_class(1) / c);
      for (auto& ve : mono) {
        RF one;
        if (sq.count(ve.first)) {
          RF s; s.n = pv_(ve.first);
          RF i2 = inv(sq[ve.first]);
          one = mul(s, i2);
        } else {
          mpq_class l;
          unsigned f = factor(pv_(ve.first), l);
          one.n = pc_(1);
          one.d[f] = 1;
        }
        for (unsigned k = 0; k < ve.second; k++) r = mul(r, one);
      }
    } else {
      mpq_class l;
      unsigned f = factor(a.n, l);
      r.n = pc_(mpq_class(1) / l);
      r.d[f] = 1;
    }
    for (auto& f : a.d) { RF x; x.n = fpow(f.first, f.second); r = mul(r, x); }
    return r;
  }
  RF rf(Z3_ast a) {
    unsigned id = aid(a);
    auto it = memo.find(id);
    if (it != memo.end()) return it->second;
    RF r;
    if (Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST) {
      mpq_class q(Z3_get_numeral_string(C, a));
      q.canonicalize();
      r.n = pc_(q);
    } else if (Z3_get_ast_kind(C, a) == Z3_APP_AST) {
      Z3_app ap = (Z3_app)a;
      unsigned n = Z3_get_app_num_args(C, ap);
      switch (Z3_get_decl_kind(C, Z3_get_app_decl(C, ap))) {
        case Z3_OP_ADD:
          r = rf(arg(a, 0));
          for (unsigned i = 1; i < n; i++) r = add(r, rf(arg(a, i)), 1);
          break;
        case Z3_OP_SUB:
          r = rf(arg(a, 0));
          for (unsigned i = 1; i < n; i++) r = add(r, rf(arg(a, i)), -1);
          break;
        case Z3_OP_UMINUS: r = add(RF{}, rf(arg(a, 0)), -1); break;
        case Z3_OP_MUL:
          r = rf(arg(a, 0));
          for (unsigned i = 1; i < n; i++) r = mul(r, rf(arg(a, i)));
          break;
        case Z3_OP_DIV: r = mul(rf(arg(a, 0)), inv(rf(arg(a, 1)))); break;
        default: {
          auto d = defs.find(id);
          if (d != defs.end() && d->second.kind == Def::Div) {
            r = mul(rf(d->second.a), inv(rf(d->second.b)));
          } else {
            if (d != defs.end() && d->second.kind == Def::Sqrt && !sq.count(id)) {
              RF s = rf(d->second.a);
              sq[id] = s;
            } else if (d != defs.end() && d->second.kind == Def::Cos && !sq.count(id)) {
              RF one, s;
              one.n = pc_(1);
              s.n = pv_(aid(d->second.b));
              g_polyVar[aid(d->second.b)] = d->second.b;
              sq[id] = add(one, mul(s, s), -1);
            }
            r.n = pv_(id);
            g_polyVar[id] = a;
          }
        }
      }
    } else throw TooBig{};
    memo[id] = r;
    return r;
  }
};
// ---- lexicographic monomial order, exact division and square roots of polynomials
bool lexLess(const Mono& a, const Mono& b) {
  size_t i = 0;
  for (;; i++) {
    if (i >= a.size() && i >= b.size()) return false;
    if (i >= a.size()) return true;
    if (i >= b.size()) return false;
    if (a[i].first != b[i].first) return a[i].first > b[i].first;
    if (a[i].second != b[i].second) return a[i].second < b[i].second;
  }
}
Mono lead(const Poly& p) {
  auto it = p.t.begin();
  const Mono* best = &it->first;
  for (++it; it != p.t.end(); ++it)
    if (lexLess(*best, it->first)) best = &it->first;
  return *best;
}
bool mdiv(const Mono& a, const Mono& b, Mono& q) {
  q.clear();
  size_t j = 0;
  for (size_t i = 0; i < a.size(); i++) {
    while (j < b.size() && b[j].first < a[i].first) return false;
    if (j < b.size() && b[j].first == a[i].first) {
      if (b[j].second > a[i].second) return false;
      if (a[i].second > b[j].second) q.push_back({a[i].first, a[i].second - b[j].second});
      j++;
    } else q.push_back(a[i]);
  }
  return j == b.size();
}
bool polyDiv(Poly n, const Poly& f, Poly& q) {
  q = Poly{};
  if (f.t.empty() || f.t.size() > n.t.size() * 2 + 2) return false;
  Mono lf = lead(f);
  mpq_class cf = f.t.at(lf);
  for (int guard = 0; guard < 400 && !n.t.empty(); guard++) {
    Mono ln = lead(n), m;
    if (!mdiv(ln, lf, m)) return false;
    Poly t;
    t.t[m] = n.t.at(ln) / cf;
    q = padd(q, t);
    n = padd(n, pmul(t, f), -1);
  }
  return n.t.empty();
}
bool qsqrt(const mpq_class& q, mpq_class& r) {
  if (q < 0) return false;
  mpz_class a, b;
  if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false;
  mpz_sqrt(a.get_mpz_t(), q.get_num_mpz_t());
  mpz_sqrt(b.get_mpz_t(), q.get_den_mpz_t());
  r = mpq_class(a, b);
  r.canonicalize();
  return true;
}
bool polySqrt(Poly p, Poly& r) {
  r = Poly{};
  if (p.t.empty()) return true;
  Mono l = lead(p), h;
  for (auto& ve : l) {
    if (ve.second % 2) return false;
    h.push_back({ve.first, ve.second / 2});
  }
  mpq_class c;
  if (!qsqrt(p.t.at(l), c)) return false;
  r.t[h] = c;
  Poly rest = padd(p, pmul(r, r), -1);
  for (int guard = 0; guard < 60 && !rest.t.empty(); guard++) {
    Mono lr = lead(rest), m;
    if (!mdiv(lr, h, m) || !lexLess(m, h)) return false;
    Poly t;
    t.t[m] = rest.t.at(lr) / (2 * c);
    Poly two = padd(padd(r, r), t);
    rest = padd(rest, pmul(t, two), -1);
    r = padd(r, t);
  }
  return rest.t.empty();
}
Z3_ast polyAst(const Poly& p) {
  if (p.t.empty()) return Z3_mk_numeral(C, "0", sReal);
  std::vector<Z3_ast> sum;
  for (auto& kv : p.t) {
    std::vector<Z3_ast> f;
    if (kv.second != 1 || kv.first.empty()) f.push_back(Z3_mk_numeral(C, kv.second.get_str().c_str(), sReal));
    for (auto& ve : kv.first)
      for (unsigned e = 0; e < ve.second; e++) f.push_back(g_polyVar.at(ve.first));
    sum.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(C, f.size(), f.data()));
  }
  return sum.size() == 1 ? sum[0] : Z3_mk_add(C, sum.size(), sum.data());
}
Norm& theNorm() { static Norm n; return n; }
void cancelAll(RF& r) {
  std::vector<unsigned> ids;
  for (auto& f : r.d) ids.push_back(f.first);
  for (unsigned f : ids)
    while (r.d.count(f)) {
      Poly q;
      if (!polyDiv(r.n, facPoly[f], q)) break;
      r.n = q;
      if (--r.d[f] == 0) r.d.erase(f);
    }
}
}  // namespace
// sqrt(x) = |root| / |den * prod sqrt(odd_i)|, with the signs left to the caller; false if x is
// not of that form with root a perfect-square root.
bool polyRoot(Z3_ast x, RootForm& out) {
  Norm& N = theNorm();
  size_t lim = g_limit;
  g_limit = 400;
  try {
    RF r = N.rf(x);
    cancelAll(r);
    Poly root;
    if (r.n.t.size() > 40 || !polySqrt(r.n, root) || root.t.empty()) { g_limit = lim; return false; }
    Poly den = pc_(1);
    for (auto& f : r.d) {
      if (f.second % 2) out.odd.push_back(polyAst(facPoly[f.first]));
      for (unsigned k = 0; k < f.second / 2; k++) den = pmul(den, facPoly[f.first]);
    }
    out.root = polyAst(root);
    out.den = polyAst(den);
    out.trivialDen = den.t.size() == 1 && den.t.begin()->first.empty() && den.t.begin()->second == 1;
    g_limit = lim;
    return true;
  } catch (TooBig&) {
    g_limit = lim;
    return false;
  }
}
// x / y as a short polynomial, if it is one.
Z3_ast polyQuot(Z3_ast x, Z3_ast y) {
  Norm& N = theNorm();
  size_t lim = g_limit;
  g_limit = 400;
  Z3_ast res = nullptr;
  try {
    RF a = N.rf(x), b = N.rf(y);
    if (!a.n.t.empty() && !b.n.t.empty()) {
      RF r = N.mul(a, N.inv(b));
      cancelAll(r);
      if (r.d.empty() && r.n.t.size() <= 4) res = polyAst(r.n);
    }
  } catch (TooBig&) {
  }
  g_limit = lim;
  return res;
}
Z3_ast polyProd(Z3_ast x, Z3_ast y) {
  Norm& N = theNorm();
  size_t lim = g_limit;
  g_limit = 400;
  Z3_ast res = nullptr;
  try {
    RF r = N.mul(N.rf(x), N.rf(y));
    cancelAll(r);
    if (r.d.empty() && r.n.t.size() <= 6) res = polyAst(r.n);
  } catch (TooBig&) {
  }
  g_limit = lim;
  return res;
}
// A key that is equal for arguments that are equal as polynomials.
std::string polyKey(Z3_ast x) {
  Norm& N = theNorm();
  size_t lim = g_limit;
  g_limit = 400;
  std::string k;
  try {
    RF r = N.rf(x);
    cancelAll(r);
    if (r.d.empty() && r.n.t.size() <= 40)
      for (auto& kv : r.n.t) {
        k += kv.second.get_str() + ":";
        for (auto& ve : kv.first) k += std::to_string(ve.first) + "^" + std::to_string(ve.second) + ",";
        k += ";";
      }
  } catch (TooBig&) { k.clear(); }
  g_limit = lim;
  return k;
}
int polyEqual(Z3_ast a, Z3_ast b) {
  Norm& N = theNorm();
  try {
    RF r = N.add(N.rf(a), N.rf(b), -1);
    if (getenv("SYMX_POLY") && !r.n.t.empty()) { fprintf(stderr, "[poly] %zu terms\n", r.n.t.size()); int k = 0; for (auto& kv : r.n.t) { if (k++ > 8) break; fprintf(stderr, "  %s", kv.second.get_str().c_str()); for (auto& v : kv.first) fprintf(stderr, " %s^%u", Z3_ast_to_string(C, g_polyVar[v.first]), v.second); fprintf(stderr, "\n"); } }
    return r.n.t.empty() ? 1 : 0;
  } catch (TooBig&) {
    if (getenv("SYMX_POLY")) fprintf(stderr, "[poly] too big\n");
    return 0;
  }
}
// ---------------------------------------------------------------- reals that are integer values of bit-vectors
static std::unordered_map<unsigned, Z3_ast> g_irBV;  // real variable -> signed bit-vector
static std::unordered_map<unsigned, Z3_ast> g_irOf;  // bit-vector -> real variable
Z3_ast irVar(Z3_ast bv) {
  auto it = g_irOf.find(aid(bv));
  if (it != g_irOf.end()) return it->second;
  Z3_inc_ref(C, bv);
  Z3_ast v = freshVar("ir!" + std::to_string(g_irOf.size()), sReal);
  Z3_inc_ref(C, v);
  g_irBV[aid(v)] = bv;
  g_irOf[aid(bv)] = v;
  return v;
}
namespace {
struct IrForm { std::vector<std::pair<mpq_class, Z3_ast>> t; mpq_class c; };
bool irForm(Z3_ast e, IrForm& f) {
  if (g_irBV.empty()) return false;
  try {
    RF r = theNorm().rf(e);
    cancelAll(r);
    if (!r.d.empty() || r.n.t.size() > 40) return false;
    for (auto& kv : r.n.t) {
      if (kv.first.empty()) { f.c = kv.second; continue; }
      if (kv.first.size() != 1 || kv.first[0].second != 1) return false;
      auto it = g_irBV.find(kv.first[0].first);
      if (it == g_irBV.end()) return false;
      f.t.push_back({kv.second, it->second});
    }
    return true;
  } catch (TooBig&) { return false; }
}
mpz_class floorq(const mpq_class& q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
// greatest rational g such that every coefficient is an integer multiple of it
mpq_class ratGcd(const IrForm& f, const mpq_class* extra = nullptr) {
  mpz_class l = 1, g = 0;
  for (auto& t : f.t) l = lcm(l, t.first.get_den());
  if (extra) l = lcm(l, extra->get_den());
  for (auto& t : f.t) g = gcd(g, mpz_class(t.first.get_num() * (l / t.first.get_den())));
  if (extra) g = gcd(g, mpz_class(extra->get_num() * (l / extra->get_den())));
  mpq_class r(g, l);
  r.canonicalize();
  return r;
}
Z3_ast bvz(const mpz_class& z, unsigned w) { return Z3_mk_numeral(C, z.get_str().c_str(), Z3_mk_bv_sort(C, w)); }
// bit-vector of sum t_i/g * I_i + add, wide enough not to wrap
Z3_ast irSumOf(const IrForm& f, const mpq_class& g, const mpz_class& add, unsigned& W) {
  unsigned mw = 1;
  mpz_class tot = abs(add);
  for (auto& t : f.t) { mw = std::max(mw, Z3_get_bv_sort_size(C, Z3_get_sort(C, t.second))); tot += abs(floorq(t.first / g)); }
  W = std::max(W, mw + (unsigned)mpz_sizeinbase(tot.get_mpz_t(), 2) + 2);
  Z3_ast sum = nullptr;
  if (add != 0) sum = bvz(add, W);
  for (auto& t : f.t) {
    mpz_class k = floorq(t.first / g);
    unsigned wi = Z3_get_bv_sort_size(C, Z3_get_sort(C, t.second));
    Z3_ast x = wi < W ? Z3_mk_sign_ext(C, W - wi, t.second) : t.second;
    Z3_ast y = k == 1 ? x : Z3_mk_bvmul(C, bvz(k, W), x);
    sum = sum ? Z3_mk_bvadd(C, sum, y) : y;
  }
  return sum ? sum : bvz(0, W);
}
}  // namespace
// x op y (2 >, 3 >=, 4 <, 5 <=, 1 ==, 6 !=) as a bit-vector condition, if x - y is linear in integer-valued reals
Z3_ast irCompare(unsigned op, Z3_ast x, Z3_ast y) {
  if (g_irBV.empty()) return nullptr;
  Z3_ast v[2] = {x, y};
  IrForm f;
  if (!irForm(Z3_mk_sub(C, 2, v), f)) return nullptr;
  if (f.t.empty()) {
    bool r = op == 1 ? f.c == 0 : op == 2 ? f.c > 0 : op == 3 ? f.c >= 0 : op == 4 ? f.c < 0 : op == 5 ? f.c <= 0 : f.c != 0;
    return r ? Z3_mk_true(C) : Z3_mk_false(C);
  }
  mpq_class g = ratGcd(f);
  mpq_class r = -f.c / g;
  mpz_class fl = floorq(r);
  bool exact = r == fl;
  unsigned W = mpz_sizeinbase(mpz_class(abs(fl)).get_mpz_t(), 2) + 3;
  Z3_ast sum = irSumOf(f, g, 0, W), c = bvz(fl, W);
  switch (op) {
    case 1: return exact ? Z3_mk_eq(C, sum, c) : Z3_mk_false(C);
    case 6: return exact ? mkNot(Z3_mk_eq(C, sum, c)) : Z3_mk_true(C);
    case 2: return Z3_mk_bvsgt(C, sum, c);
    case 3: return exact ? Z3_mk_bvsge(C, sum, c) : Z3_mk_bvsgt(C, sum, c);
    case 4: return exact ? Z3_mk_bvslt(C, sum, c) : Z3_mk_bvsle(C, sum, c);
    case 5: return Z3_mk_bvsle(C, sum, c);
  }
  return nullptr;
}
// the value of an integer-valued form as a bit-vector (of whatever width holds it), else null
Z3_ast irInteger(Z3_ast e) {
  IrForm f;
  if (!irForm(e, f) || f.c.get_den() != 1) return nullptr;
  for (auto& t : f.t) if (t.first.get_den() != 1) return nullptr;
  unsigned W = 0;
  return irSumOf(f, 1, f.c.get_num(), W);
}
// floor(e) of a form with rational coefficients, or of a quotient of two forms, as a bit-vector; else null
Z3_ast irFloor(Z3_ast e) {
  if (g_irBV.empty()) return nullptr;
  if (Z3_ast i = irInteger(e)) return i;
  auto fdiv = [](Z3_ast a, Z3_ast b) {
    Z3_ast q = Z3_mk_bvsdiv(C, a, b), r = Z3_mk_bvsrem(C, a, b);
    unsigned w = Z3_get_bv_sort_size(C, Z3_get_sort(C, a));
    Z3_ast z = bvz(0, w);
    Z3_ast adj = mkAnd(mkNot(mkEq(r, z)), Z3_mk_xor(C, Z3_mk_bvslt(C, r, z), Z3_mk_bvslt(C, b, z)));
    return mkIte(adj, Z3_mk_bvsub(C, q, bvz(1, w)), q);
  };
  IrForm f;
  if (irForm(e, f)) {  // sum = (g * S) with g = p/q : floor(S*p/q)
    mpq_class g = ratGcd(f, &f.c);
    unsigned W = mpz_sizeinbase(g.get_den_mpz_t(), 2) + 3;
    Z3_ast s = irSumOf(f, g, floorq(f.c / g), W);
    unsigned w2 = W + mpz_sizeinbase(g.get_num_mpz_t(), 2) + 2;
    s = Z3_mk_bvmul(C, Z3_mk_sign_ext(C, w2 - W, s), bvz(g.get_num(), w2));
    return fdiv(s, bvz(g.get_den(), w2));
  }
  auto it = defs.find(aid(e));
  if (it == defs.end() || it->second.kind != Def::Div) return nullptr;
  IrForm a, b;
  if (!irForm(it->second.a, a) || !irForm(it->second.b, b)) return nullptr;
  mpq_class ga = ratGcd(a, &a.c), gb = ratGcd(b, &b.c);
  mpq_class r = ga / gb;  // a/b = (A/B) * r
  unsigned W = 0;
  irSumOf(a, ga, floorq(a.c / ga), W);
  irSumOf(b, gb, floorq(b.c / gb), W);
  W += std::max(mpz_sizeinbase(r.get_num_mpz_t(), 2), mpz_sizeinbase(r.get_den_mpz_t(), 2)) + 2;
  Z3_ast A = irSumOf(a, ga, floorq(a.c / ga), W), B = irSumOf(b, gb, floorq(b.c / gb), W);
  if (r.get_num() != 1) A = Z3_mk_bvmul(C, A, bvz(r.get_num(), W));
  if (r.get_den() != 1) B = Z3_mk_bvmul(C, B, bvz(r.get_den(), W));
  return fdiv(A, B);
}
