// Built-in functions: harness API, C/C++ runtime, libm, LLVM intrinsics, environment stubs.
#include "exec.h"
using namespace llvm;

static Z3_ast rAdd(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return Z3_mk_add(C, 2, v); }
static Z3_ast rSub(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return Z3_mk_sub(C, 2, v); }
static Z3_ast rMul(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return Z3_mk_mul(C, 2, v); }
static Z3_ast rNeg(Z3_ast a) { return Z3_mk_unary_minus(C, a); }
static Z3_ast rN(const char* q) { return Z3_mk_numeral(C, q, sReal); }
static Z3_ast imp(Z3_ast a, Z3_ast b) { return mkOr(mkNot(a), b); }
static const char* PI_S = "3141592653589793/1000000000000000";
static const char* HPI_S = "3141592653589793/2000000000000000";
static bool isNum(Z3_ast a) { return Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST; }
static double num(Z3_ast a) { return atof(Z3_get_numeral_decimal_string(C, a, 20)); }

// records for function instances so that relations between instances can be stated
struct Inst { Z3_ast x, v; };
static std::map<std::string, std::vector<Inst>> g_inst;
static std::unordered_map<unsigned, std::pair<std::string, std::vector<Z3_ast>>> g_fdef;  // var id -> (function, args)
struct SC { Z3_ast x, s, c; };
static std::vector<SC> g_sc;

static void monotone(Def& d, const std::string& f, Z3_ast x, bool increasing) {
  for (auto& i : g_inst[f]) {
    Z3_ast lt = Z3_mk_lt(C, i.x, x), vl = increasing ? Z3_mk_lt(C, i.v, d.var) : Z3_mk_gt(C, i.v, d.var);
    d.cons.push_back(Z3_mk_iff(C, lt, vl));
    d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, i.x, x), Z3_mk_eq(C, i.v, d.var)));
  }
  g_inst[f].push_back({x, d.var});
}
void Exec::sinCos(Z3_ast x, Z3_ast& sn, Z3_ast& cs) {
  x = simp(x);
  if (isNum(x)) {
    double v = num(x);
    double sv = std::sin(v), cv = std::cos(v);
    if (std::fabs(sv) < 1e-15) sv = 0;
    if (std::fabs(cv) < 1e-15) cv = 0;
    sn = realc(sv);
    cs = realc(cv);
    return;
  }
  for (auto& e : g_sc)
    if (e.x == x) { sn = e.s; cs = e.c; return; }
  auto fd = g_fdef.find(aid(x));
  if (fd != g_fdef.end()) {
    auto& f = fd->second.first;
    auto& a = fd->second.second;
    if (f == "acos" || f == "asin") {
      Z3_ast o = fp(fsqrt(mkSF(simp(rSub(realInt(1), rMul(a[0], a[0]))))));
      if (f == "acos") { cs = a[0]; sn = o; } else { sn = a[0]; cs = o; }
      g_sc.push_back({x, sn, cs});
      return;
    }
    if (f == "atan2" || f == "atan") {
      Z3_ast yy = a[0], xx = f == "atan" ? realInt(1) : a[1];
      Val h = fsqrt(mkSF(simp(rAdd(rMul(xx, xx), rMul(yy, yy)))));
      Val sv = fbin(Instruction::FDiv, mkSF(yy), h, 64), cv = fbin(Instruction::FDiv, mkSF(xx), h, 64);
      sn = fp(sv);
      cs = fp(cv);
      g_sc.push_back({x, sn, cs});
      return;
    }
  }
  // relations to earlier arguments: x = +-e.x + k*pi/2
  for (size_t i = 0; i < g_sc.size(); i++) {
    auto e = g_sc[i];
    for (int sg : {1, -1}) {
      Z3_ast d = simp(sg > 0 ? rSub(x, e.x) : rAdd(x, e.x));
      if (!isNum(d)) continue;
      double q = num(d) / (M_PI / 2);
      double k = std::round(q);
      if (std::fabs(q - k) > 1e-9) continue;
      // x = sg*e.x + k*pi/2
      Z3_ast s0 = sg > 0 ? e.s : simp(rNeg(e.s)), c0 = e.c;
      int m = ((int)k % 4 + 4) % 4;
      if (m == 0) { sn = s0; cs = c0; }
      else if (m == 1) { sn = c0; cs = simp(rNeg(s0)); }
      else if (m == 2) { sn = simp(rNeg(s0)); cs = simp(rNeg(c0)); }
      else { sn = simp(rNeg(c0)); cs = s0; }
      g_sc.push_back({x, sn, cs});
      return;
    }
  }
  std::string k = std::to_string(aid(x));
  Z3_ast s_ = freshVar("sin!" + k, sReal), c_ = freshVar("cos!" + k, sReal);
  if (!defs.count(aid(c_))) {
    Def d;
    d.kind = Def::Cos;
    d.var = c_;
    d.a = x;
    d.b = s_;
    d.cons.push_back(Z3_mk_eq(C, rAdd(rMul(s_, s_), rMul(c_, c_)), realInt(1)));
    for (Z3_ast t : {s_, c_}) {
      d.cons.push_back(Z3_mk_le(C, t, realInt(1)));
      d.cons.push_back(Z3_mk_ge(C, t, realInt(-1)));
    }
    // sign information on the principal ranges
    Z3_ast pi = rN(PI_S), hp = rN(HPI_S);
    auto in = [&](Z3_ast lo, Z3_ast hi, bool strict) { return strict ? mkAnd(Z3_mk_gt(C, x, lo), Z3_mk_lt(C, x, hi)) : mkAnd(Z3_mk_ge(C, x, lo), Z3_mk_le(C, x, hi)); };
    d.cons.push_back(imp(in(realInt(0), pi, false), Z3_mk_ge(C, s_, realInt(0))));
    d.cons.push_back(imp(in(simp(rNeg(pi)), realInt(0), false), Z3_mk_le(C, s_, realInt(0))));
    d.cons.push_back(imp(in(pi, simp(rAdd(pi, pi)), false), Z3_mk_le(C, s_, realInt(0))));
    d.cons.push_back(imp(in(simp(rNeg(hp)), hp, false), Z3_mk_ge(C, c_, realInt(0))));
    d.cons.push_back(imp(in(hp, simp(rAdd(pi, hp)), false), Z3_mk_le(C, c_, realInt(0))));
    d.cons.push_back(imp(Z3_mk_eq(C, x, realInt(0)), mkAnd(Z3_mk_eq(C, s_, realInt(0)), Z3_mk_eq(C, c_, realInt(1)))));
    Def d2;
    d2.kind = Def::Sin;
    d2.var = s_;
    d2.a = x;
    d2.b = c_;
    d2.cons = d.cons;
    defs[aid(c_)] = d;
    defs[aid(s_)] = d2;
  }
  g_sc.push_back({x, s_, c_});
  sn = s_;
  cs = c_;
}
Val Exec::fpow(const Val& a, const Val& b) {
  if (a.k == K_FP && b.k == K_FP) return mkF(std::pow(a.d, b.d), a.w);
  if (b.k == K_FP) {
    double n = b.d;
    if (n == 0) return mkF(1);
    if (n == 1) return a;
    if (std::fabs(n) <= 12 && n == std::round(n)) {
      Val r = a;
      for (int i = 1; i < std::fabs(n); i++) r = fbin(Instruction::FMul, r, a, 64);
      if (n < 0) r = fbin(Instruction::FDiv, mkF(1), r, 64);
      return r;
    }
    if (REAL && (n == 0.5 || n == 1.5 || n == -0.5 || n == -1.5)) {
      Val q = fsqrt(a);
      Val r = q;
      if (std::fabs(n) == 1.5) r = fbin(Instruction::FMul, a, q, 64);
      if (n < 0) r = fbin(Instruction::FDiv, mkF(1), r, 64);
      return r;
    }
  }
  if (!REAL) {
    Z3_ast x = fp(a), y = fp(b);
    return mkSF(defVar("pow!" + std::to_string(aid(x)) + "!" + std::to_string(aid(y)), Def::Other, [](Def&) {}));
  }
  if (a.k == K_FP && !std::isfinite(a.d)) throw Unsupported{"pow of non-finite"};
  Z3_ast x = simp(fp(a)), y = simp(fp(b));
  if (decide(Z3_mk_lt(C, x, realInt(0)))) return mkF(NAN);
  if (decide(Z3_mk_eq(C, x, realInt(0)))) {
    if (decide(Z3_mk_eq(C, y, realInt(0)))) return mkF(1);
    return decide(Z3_mk_gt(C, y, realInt(0))) ? mkF(0) : mkF(INFINITY);
  }
  std::string key = "pow!" + std::to_string(aid(x)) + "!" + std::to_string(aid(y));
  Z3_ast v = defVar(key, Def::Other, [&](Def& d) {
    Z3_ast one = realInt(1), z = realInt(0);
    Z3_ast p = d.var;
    d.cons.push_back(Z3_mk_gt(C, p, z));
    Z3_ast up = mkOr(mkAnd(Z3_mk_gt(C, x, one), Z3_mk_gt(C, y, z)), mkAnd(Z3_mk_lt(C, x, one), Z3_mk_lt(C, y, z)));
    Z3_ast eq = mkOr(Z3_mk_eq(C, x, one), Z3_mk_eq(C, y, z));
    d.cons.push_back(Z3_mk_iff(C, up, Z3_mk_gt(C, p, one)));
    d.cons.push_back(Z3_mk_iff(C, eq, Z3_mk_eq(C, p, one)));
    d.cons.push_back(imp(Z3_mk_eq(C, y, one), Z3_mk_eq(C, p, x)));
    // x <= x^y style bounds: y in (0,1) brings values toward one
    Z3_ast y01 = mkAnd(Z3_mk_gt(C, y, z), Z3_mk_lt(C, y, one));
    d.cons.push_back(imp(mkAnd(y01, Z3_mk_lt(C, x, one)), Z3_mk_gt(C, p, x)));
    d.cons.push_back(imp(mkAnd(y01, Z3_mk_gt(C, x, one)), Z3_mk_lt(C, p, x)));
    d.cons.push_back(imp(mkAnd(Z3_mk_gt(C, y, one), Z3_mk_lt(C, x, one)), Z3_mk_lt(C, p, x)));
    d.cons.push_back(imp(mkAnd(Z3_mk_gt(C, y, one), Z3_mk_gt(C, x, one)), Z3_mk_gt(C, p, x)));
    // monotone in x for equal exponents
    std::string fam = "pow^" + std::to_string(aid(y));
    for (auto& i : g_inst[fam]) {
      Z3_ast lt = Z3_mk_lt(C, i.x, x);
      d.cons.push_back(imp(mkAnd(Z3_mk_gt(C, y, z), lt), Z3_mk_lt(C, i.v, p)));
      d.cons.push_back(imp(mkAnd(Z3_mk_lt(C, y, z), lt), Z3_mk_gt(C, i.v, p)));
      Z3_ast gt = Z3_mk_gt(C, i.x, x);
      d.cons.push_back(imp(mkAnd(Z3_mk_gt(C, y, z), gt), Z3_mk_gt(C, i.v, p)));
      d.cons.push_back(imp(mkAnd(Z3_mk_lt(C, y, z), gt), Z3_mk_lt(C, i.v, p)));
      d.cons.push_back(imp(Z3_mk_eq(C, i.x, x), Z3_mk_eq(C, i.v, p)));
    }
    g_inst[fam].push_back({x, p});
    g_fdef[aid(p)] = {"pow", {x, y}};
    // inverse powers: (z^n)^(1/n) compared to z through monotonicity
    auto fd = g_fdef.find(aid(x));
    if (fd != g_fdef.end() && fd->second.first == "pow") {
      Z3_ast n = fd->second.second[1];
      if (simp(rMul(n, y)) == realInt(1) ) d.cons.push_back(Z3_mk_eq(C, p, fd->second.second[0]));
    }
    // roots: x^(1/k), x^(-1/k)
    if (b.k == K_FP && b.d != 0) {
      double k = std::round(1 / b.d);
      if (std::fabs(k) >= 2 && std::fabs(k) <= 8 && std::fabs(1 / b.d - k) < 1e-12) {
        Z3_ast w = p;
        for (int i = 1; i < std::fabs(k); i++) w = rMul(w, p);
        d.cons.push_back(k > 0 ? Z3_mk_eq(C, w, x) : Z3_mk_eq(C, rMul(w, x), one));
      }
    }
    // p = x^y  with y = 1/n, compare with every z for which z^n is known
    Z3_ast inv = simp(Z3_mk_div(C, one, y));
    for (auto& i : g_inst["pow^" + std::to_string(aid(inv))]) {
      // z = i.x, z^n = i.v
      d.cons.push_back(imp(Z3_mk_gt(C, inv, z), mkAnd(Z3_mk_iff(C, Z3_mk_le(C, i.v, x), Z3_mk_le(C, i.x, p)), Z3_mk_iff(C, Z3_mk_ge(C, i.v, x), Z3_mk_ge(C, i.x, p)))));
      d.cons.push_back(imp(Z3_mk_lt(C, inv, z), mkAnd(Z3_mk_iff(C, Z3_mk_le(C, i.v, x), Z3_mk_ge(C, i.x, p)), Z3_mk_iff(C, Z3_mk_ge(C, i.v, x), Z3_mk_le(C, i.x, p)))));
    }
  });
  return mkSF(v);
}
Val Exec::libm(const std::string& f, std::vector<Val>& a) {
  for (auto& v : a) if (v.k == K_UNDEF) return Val();
  bool allc = true;
  for (auto& v : a) allc = allc && v.k != K_SYMF && v.k != K_SYMI;
  static const std::map<std::string, double (*)(double)> f1 = {
      {"exp", std::exp}, {"log", std::log}, {"log1p", std::log1p}, {"expm1", std::expm1}, {"sin", std::sin}, {"cos", std::cos},
      {"tan", std::tan}, {"asin", std::asin}, {"acos", std::acos}, {"atan", std::atan}, {"sinh", std::sinh}, {"cosh", std::cosh},
      {"tanh", std::tanh}, {"asinh", std::asinh}, {"acosh", std::acosh}, {"atanh", std::atanh}, {"cbrt", std::cbrt}, {"exp2", std::exp2},
      {"log2", std::log2}, {"log10", std::log10}, {"erf", std::erf}, {"erfc", std::erfc}, {"tgamma", std::tgamma}, {"lgamma", std::lgamma}};
  if (allc && a.size() == 1) {
    auto it = f1.find(f);
    if (it != f1.end()) {
      Val r = mkF(it->second(a[0].d), a[0].w);
      if (REAL && f == "atan" && std::isfinite(a[0].d)) {
        Z3_ast ax = fp(a[0]), av = fp(r);
        bool known = false;
        for (auto& i : g_inst["atan"]) known = known || i.x == ax;
        if (!known) g_inst["atan"].push_back({ax, av});
      }
      return r;
    }
  }
  if (f == "pow") return fpow(a[0], a[1]);
  if (allc) {
    if (f == "atan2") return mkF(std::atan2(a[0].d, a[1].d));
    if (f == "fmod") return mkF(std::fmod(a[0].d, a[1].d));
    if (f == "remainder") return mkF(std::remainder(a[0].d, a[1].d));
    if (f == "hypot") return mkF(std::hypot(a[0].d, a[1].d));
    if (f == "nextafter") return mkF(std::nextafter(a[0].d, a[1].d));
  }
  if (!REAL) {
    if (f == "nextafter" && a[1].k == K_FP) {
      // on the bit pattern: towards a larger or smaller value
      Z3_ast x = fp(a[0]), t = fp(a[1]), b = bv(castv(Instruction::BitCast, a[0], TypeI{TypeI::FP, 64}, TypeI{TypeI::INT, 64}), 64);
      Z3_ast z = Z3_mk_fpa_is_zero(C, x), neg = Z3_mk_fpa_is_negative(C, x), eq = Z3_mk_fpa_eq(C, x, t), up = Z3_mk_fpa_lt(C, x, t);
      Z3_ast inc = Z3_mk_bvadd(C, b, bvc(1, 64)), dec = Z3_mk_bvsub(C, b, bvc(1, 64));
      Z3_ast r = mkIte(z, mkIte(up, bvc(1, 64), bvc(0x8000000000000001ull, 64)), mkIte(up, mkIte(neg, dec, inc), mkIte(neg, inc, dec)));
      r = mkIte(Z3_mk_fpa_is_nan(C, x), b, mkIte(eq, bvc([&] { uint64_t u; memcpy(&u, &a[1].d, 8); return u; }(), 64), r));
      return mkSF(Z3_mk_fpa_to_fp_bv(C, r, sF64));
    }
    std::string key = f;
    for (auto& v : a) key += "!" + std::to_string(aid(fp(v)));
    return mkSF(defVar(key, Def::Other, [](Def&) {}));
  }
  for (auto& v : a)
    if (v.k == K_FP && std::isnan(v.d)) return mkF(NAN);
  if (f == "hypot") {
    Z3_ast x = fp(a[0]), y = fp(a[1]);
    return fsqrt(mkSF(rAdd(rMul(x, x), rMul(y, y))));
  }
  if (a.size() == 1 && a[0].k == K_FP && !std::isfinite(a[0].d)) throw Unsupported{f + " of infinity"};
  Z3_ast x = simp(fp(a[0]));
  Z3_ast z = realInt(0), one = realInt(1), pi = rN(PI_S), hp = rN(HPI_S);
  auto key1 = f + "!" + std::to_string(aid(x));
  auto inverse = [&](const char* g) -> Z3_ast {  // f(g(y)) -> y
    auto it = g_fdef.find(aid(x));
    if (it != g_fdef.end() && it->second.first == g) return it->second.second[0];
    return nullptr;
  };
  if (f == "tan" && !g_inst["atan"].empty() && !g_fdef.count(aid(x)) &&
      decide(mkAnd(Z3_mk_gt(C, x, simp(rNeg(hp))), Z3_mk_lt(C, x, hp)))) {
    // principal branch: the increasing inverse of the arctangent
    if (Z3_ast y = inverse("atan")) return mkSF(y);
    return mkSF(defVar("tan!" + std::to_string(aid(x)), Def::Other, [&](Def& d) {
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, x, z), Z3_mk_gt(C, d.var, z)));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, x, z), Z3_mk_eq(C, d.var, z)));
      monotone(d, "tan", x, true);
      for (auto& i : g_inst["atan"]) {
        d.cons.push_back(Z3_mk_iff(C, Z3_mk_lt(C, x, i.v), Z3_mk_lt(C, d.var, i.x)));
        d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, x, i.v), Z3_mk_gt(C, d.var, i.x)));
      }
      g_fdef[aid(d.var)] = {"tan", {x}};
    }));
  }
  if (f == "sin" || f == "cos" || f == "tan") {
    Z3_ast sn, cs;
    sinCos(x, sn, cs);
    if (f == "sin") return mkSF(sn);
    if (f == "cos") return mkSF(cs);
    return fbin(Instruction::FDiv, mkSF(sn), mkSF(cs), 64);
  }
  if (f == "exp") {
    if (Z3_ast y = inverse("log")) return mkSF(y);
    return mkSF(defVar(key1, Def::Other, [&](Def& d) {
      d.cons.push_back(Z3_mk_gt(C, d.var, z));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, x, z), Z3_mk_gt(C, d.var, one)));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, x, z), Z3_mk_eq(C, d.var, one)));
      d.cons.push_back(Z3_mk_ge(C, d.var, rAdd(x, one)));
      monotone(d, "exp", x, true);
      for (auto& i : g_inst["log"]) {
        d.cons.push_back(Z3_mk_iff(C, Z3_mk_lt(C, x, i.v), Z3_mk_lt(C, d.var, i.x)));
        d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, x, i.v), Z3_mk_gt(C, d.var, i.x)));
      }
      g_fdef[aid(d.var)] = {"exp", {x}};
    }));
  }
  if (f == "log") {
    if (decide(Z3_mk_le(C, x, z))) {
      if (decide(Z3_mk_eq(C, x, z))) return mkF(-INFINITY);
      return mkF(NAN);
    }
    if (Z3_ast y = inverse("exp")) return mkSF(y);
    return mkSF(defVar(key1, Def::Other, [&](Def& d) {
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, x, one), Z3_mk_gt(C, d.var, z)));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, x, one), Z3_mk_eq(C, d.var, z)));
      d.cons.push_back(Z3_mk_le(C, d.var, rSub(x, one)));
      monotone(d, "log", x, true);
      // relate to exponentials: log x < y  <=>  x < exp y
      for (auto& i : g_inst["exp"]) {
        d.cons.push_back(Z3_mk_iff(C, Z3_mk_lt(C, d.var, i.x), Z3_mk_lt(C, x, i.v)));
        d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, d.var, i.x), Z3_mk_gt(C, x, i.v)));
      }
      g_fdef[aid(d.var)] = {"log", {x}};
    }));
  }
  if (f == "acos") {
    if (decide(mkOr(Z3_mk_gt(C, x, one), Z3_mk_lt(C, x, realInt(-1))))) return mkF(NAN);
    return mkSF(defVar(key1, Def::Other, [&](Def& d) {
      d.cons.push_back(Z3_mk_ge(C, d.var, z));
      d.cons.push_back(Z3_mk_le(C, d.var, pi));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, x, z), Z3_mk_lt(C, d.var, hp)));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, x, one), Z3_mk_eq(C, d.var, z)));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, x, realInt(-1)), Z3_mk_eq(C, d.var, pi)));
      monotone(d, "acos", x, false);
      g_fdef[aid(d.var)] = {"acos", {x}};
    }));
  }
  if (f == "asin") {
    if (decide(mkOr(Z3_mk_gt(C, x, one), Z3_mk_lt(C, x, realInt(-1))))) return mkF(NAN);
    return mkSF(defVar(key1, Def::Other, [&](Def& d) {
      d.cons.push_back(Z3_mk_ge(C, d.var, simp(rNeg(hp))));
      d.cons.push_back(Z3_mk_le(C, d.var, hp));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, x, z), Z3_mk_gt(C, d.var, z)));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, x, z), Z3_mk_eq(C, d.var, z)));
      monotone(d, "asin", x, true);
      g_fdef[aid(d.var)] = {"asin", {x}};
    }));
  }
  if (f == "atan") {
    return mkSF(defVar(key1, Def::Other, [&](Def& d) {
      d.cons.push_back(Z3_mk_gt(C, d.var, simp(rNeg(hp))));
      d.cons.push_back(Z3_mk_lt(C, d.var, hp));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, x, z), Z3_mk_gt(C, d.var, z)));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, x, z), Z3_mk_eq(C, d.var, z)));
      monotone(d, "atan", x, true);
      for (auto& i : g_inst["tan"]) {
        d.cons.push_back(Z3_mk_iff(C, Z3_mk_lt(C, d.var, i.x), Z3_mk_lt(C, x, i.v)));
        d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, d.var, i.x), Z3_mk_gt(C, x, i.v)));
      }
      g_fdef[aid(d.var)] = {"atan", {x}};
    }));
  }
  if (f == "atan2") {
    Z3_ast y = x, xx = simp(fp(a[1]));
    if (decide(mkAnd(Z3_mk_eq(C, y, z), Z3_mk_eq(C, xx, z)))) return mkF(0);
    return mkSF(defVar(key1 + "!" + std::to_string(aid(xx)), Def::Other, [&](Def& d) {
      Z3_ast p = d.var;
      d.cons.push_back(Z3_mk_gt(C, p, simp(rNeg(pi))));
      d.cons.push_back(Z3_mk_le(C, p, pi));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_lt(C, y, z), Z3_mk_lt(C, p, z)));
      d.cons.push_back(Z3_mk_iff(C, mkAnd(Z3_mk_eq(C, y, z), Z3_mk_gt(C, xx, z)), Z3_mk_eq(C, p, z)));
      d.cons.push_back(Z3_mk_iff(C, mkAnd(Z3_mk_eq(C, y, z), Z3_mk_lt(C, xx, z)), Z3_mk_eq(C, p, pi)));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, xx, z), mkAnd(Z3_mk_lt(C, p, hp), Z3_mk_gt(C, p, simp(rNeg(hp))))));
      g_fdef[aid(p)] = {"atan2", {y, xx}};
    }));
  }
  if (f == "sinh" || f == "cosh" || f == "tanh") {
    std::string k = std::to_string(aid(x));
    Z3_ast c_ = defVar("cosh!" + k, Def::Other, [&](Def& d) {
      d.cons.push_back(Z3_mk_ge(C, d.var, one));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, x, z), Z3_mk_eq(C, d.var, one)));
    });
    Z3_ast s_ = defVar("sinh!" + k, Def::Other, [&](Def& d) {
      d.cons.push_back(Z3_mk_eq(C, rMul(c_, c_), rAdd(one, rMul(d.var, d.var))));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, x, z), Z3_mk_gt(C, d.var, z)));
      d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, x, z), Z3_mk_eq(C, d.var, z)));
      monotone(d, "sinh", x, true);
    });
    if (f == "sinh") return mkSF(s_);
    if (f == "cosh") return mkSF(c_);
    if (Z3_ast y = inverse("atanh")) return mkSF(y);
    return fbin(Instruction::FDiv, mkSF(s_), mkSF(c_), 64);
  }
  if (f == "atanh") {
    if (decide(mkOr(Z3_mk_ge(C, x, one), Z3_mk_le(C, x, realInt(-1))))) {
      if (decide(Z3_mk_eq(C, x, one))) return mkF(INFINITY);
      if (decide(Z3_mk_eq(C, x, realInt(-1)))) return mkF(-INFINITY);
      return mkF(NAN);
    }
  }
  if (f == "acosh" && decide(Z3_mk_lt(C, x, one))) return mkF(NAN);
  if (f == "nextafter") {
    Z3_ast t = simp(fp(a[1]));
    if (decide(Z3_mk_eq(C, x, t))) return a[1];
    bool up = decide(Z3_mk_lt(C, x, t));
    return mkSF(defVar("next" + std::string(up ? "up!" : "down!") + std::to_string(aid(x)), Def::Other, [&](Def& d) {
      Z3_ast eps = rN("1/1000000000000000");
      Z3_ast ax = mkIte(Z3_mk_ge(C, x, z), x, rNeg(x));
      Z3_ast w = rMul(eps, rAdd(ax, one));
      if (up) {
        d.cons.push_back(Z3_mk_gt(C, d.var, x));
        d.cons.push_back(Z3_mk_le(C, d.var, rAdd(x, w)));
        d.cons.push_back(Z3_mk_le(C, d.var, t));
      } else {
        d.cons.push_back(Z3_mk_lt(C, d.var, x));
        d.cons.push_back(Z3_mk_ge(C, d.var, rSub(x, w)));
        d.cons.push_back(Z3_mk_ge(C, d.var, t));
      }
    }));
  }
  if (f == "fmod") {
    // x - trunc(x/y)*y
    Val q = fround(fbin(Instruction::FDiv, a[0], a[1], 64), 2);
    return fbin(Instruction::FSub, a[0], fbin(Instruction::FMul, q, a[1], 64), 64);
  }
  static const std::set<std::string> inc = {"log1p", "expm1", "asinh", "acosh", "atanh", "cbrt", "erf"};
  std::string key = f;
  for (auto& v : a) key += "!" + std::to_string(aid(simp(fp(v))));
  return mkSF(defVar(key, Def::Other, [&](Def& d) {
    if (inc.count(f)) {
      if (f != "acosh") {
        d.cons.push_back(Z3_mk_iff(C, Z3_mk_gt(C, x, z), Z3_mk_gt(C, d.var, z)));
        d.cons.push_back(Z3_mk_iff(C, Z3_mk_eq(C, x, z), Z3_mk_eq(C, d.var, z)));
      } else d.cons.push_back(Z3_mk_ge(C, d.var, z));
      monotone(d, f, x, true);
      if (f == "cbrt") d.cons.push_back(Z3_mk_eq(C, rMul(d.var, rMul(d.var, d.var)), x));
    }
    if (f == "exp2" || f == "erfc" || f == "tgamma") d.cons.push_back(Z3_mk_gt(C, d.var, z));
    g_fdef[aid(d.var)] = {f, {x}};
  }));
}

void Exec::initBuiltins() {
  auto I64 = [](uint64_t u) { return mkI(u, 64); };
  auto I32 = [](uint64_t u) { return mkI(u, 32); };
  // ---------------------------------------------------------- harness API
  addB("sx_f64", [this](CI&, std::vector<Val>& a, Val& o) { o = newInput(cstr(a[0].u), 'd', 64); return true; });
  addB("sx_f32", [this](CI&, std::vector<Val>& a, Val& o) { o = newInput(cstr(a[0].u), 'f', 32); return true; });
  addB("sx_i64", [this](CI&, std::vector<Val>& a, Val& o) { o = newInput(cstr(a[0].u), 'i', 64); return true; });
  addB("sx_i32", [this](CI&, std::vector<Val>& a, Val& o) { o = newInput(cstr(a[0].u), 'i', 32); return true; });
  addB("sx_i16", [this](CI&, std::vector<Val>& a, Val& o) { o = newInput(cstr(a[0].u), 'i', 16); return true; });
  addB("sx_u8", [this](CI&, std::vector<Val>& a, Val& o) { o = newInput(cstr(a[0].u), 'i', 8); return true; });
  addB("sx_bool", [this](CI&, std::vector<Val>& a, Val& o) { o = newInput(cstr(a[0].u), 'b', 1); return true; });
  addB("sx_is_conc", [](CI&, std::vector<Val>& a, Val& o) { o = mkI(a[0].k == K_INT, 1); return true; });
  addB("sx_is_real", [this](CI&, std::vector<Val>&, Val& o) { o = mkI(REAL, 1); return true; });
  addB("sx_assume", [this](CI&, std::vector<Val>& a, Val&) { assume(boolAst(a[0])); return true; });
  addB("sx_assert", [this](CI&, std::vector<Val>& a, Val&) { check(boolAst(a[0]), cstr(a[1].u), ""); return true; });
  addB("sx_choose", [this](CI&, std::vector<Val>& a, Val& o) {
    int64_t lo = sext(a[0].u, 32), hi = sext(a[1].u, 32);
    std::string base = cstr(a[2].u);
    std::string name = inputName(base);
    if (!opt.concreteFile.empty()) {
      auto it = concrete.find(name);
      o = mkI(it == concrete.end() ? lo : strtoull(it->second.c_str(), nullptr, 16), 32);
      return true;
    }
    // fork one sibling per value; the sibling resumes after the call
    for (int64_t v = hi; v > lo; v--) {
      auto sib = std::make_unique<State>(*s);
      State* cur = s;
      s = sib.get();
      Input in{name, nullptr, 'i', mkI(v, 32)};
      s->inputs.push_back(in);
      finishCall(mkI(v, 32));
      s = cur;
      S.forks++;
      work.push_back(std::move(sib));
    }
    s->inputs.push_back({name, nullptr, 'i', mkI(lo, 32)});
    o = mkI(lo, 32);
    return true;
  });
  addB("sx_conc", [this](CI&, std::vector<Val>& a, Val& o) { o = mkI(conc(a[0], 64), 64); return true; });
  addB("sx_reach", [this](CI&, std::vector<Val>& a, Val&) {
    std::string l = cstr(a[0].u);
    if (!s->maybeInfeasible) reached[l]++;
    else if (!reached.count(l)) {
      Model m;
      if (query({}, s->pc, &m, nullptr, opt.branchBudget) == Res::Sat) reached[l]++;
    }
    return true;
  });
  addB("sx_close", [this](CI&, std::vector<Val>& a, Val&) {
    std::string msg = cstr(a[3].u);
    for (int i = 0; i < 2; i++)
      if (a[i].k == K_UNDEF) { S.asserts++; violation(msg + " (uninitialised value)", nullptr); throw PathEnd{"violated"}; }
    if (a[0].k == K_FP && a[1].k == K_FP) {
      double tol = a[2].d * std::max(1., std::max(std::fabs(a[0].d), std::fabs(a[1].d)));
      check(std::fabs(a[0].d - a[1].d) <= tol || a[0].d == a[1].d ? Z3_mk_true(C) : Z3_mk_false(C), msg, "");
      return true;
    }
    for (int i = 0; i < 2; i++)
      if (a[i].k == K_FP && !std::isfinite(a[i].d)) { check(Z3_mk_false(C), msg, ""); return true; }
    Z3_ast x = fp(a[0]), y = fp(a[1]);
    if (!REAL) { check(Z3_mk_fpa_eq(C, x, y), msg, ""); return true; }
    if (x == y) { S.asserts++; S.folded++; return true; }
    if (polyEqual(x, y)) { S.asserts++; S.discharged++; S.polyZero++; return true; }
    if (opt.intReals)
      if (Z3_ast e = irCompare(1, x, y)) { check(simp(e), msg, ""); return true; }
    // exact equality first, then with tolerance
    Z3_ast ne = mkNot(mkEq(x, y));
    Model m;
    S.asserts++;
    Z3_ast sne = simp(ne);
    if (constBool(sne) == 0) { S.folded++; return true; }
    Res r = query(s->pc, {sne}, &m, s->model.get(), aBudget(), true);
    if (r == Res::Unsat) { S.discharged++; return true; }
    Z3_ast d = rSub(x, y), z = realInt(0);
    auto ab = [&](Z3_ast t) { return mkIte(Z3_mk_ge(C, t, z), t, rNeg(t)); };
    Z3_ast bound = rMul(realc(std::max(a[2].d, 1e-9)), rAdd(realInt(1), rAdd(ab(x), ab(y))));
    Z3_ast bad = simp(Z3_mk_gt(C, ab(d), bound));
    Model m2;
    r = query(s->pc, {bad}, &m2, r == Res::Sat ? &m : s->model.get(), aBudget(), true);
    if (r == Res::Unsat) { S.discharged++; return true; }
    if (r == Res::Sat) violation(msg, bad);
    else inconclusive.push_back("assertion undecided: " + msg);
    return true;
  });
  addB("sx_trace_f", [this](CI&, std::vector<Val>& a, Val&) {
    if (opt.trace) { char b[64]; if (a[0].k == K_FP) snprintf(b, 64, "%.12g\n", a[0].d); else snprintf(b, 64, "sym\n"); traceOut += b; }
    return true;
  });
  addB("sx_trace_i", [this](CI&, std::vector<Val>& a, Val&) {
    if (opt.trace) traceOut += (a[0].k == K_INT ? std::to_string((int64_t)a[0].u) : "sym") + "\n";
    return true;
  });
  addB("sx_debug_f", [this](CI&, std::vector<Val>& a, Val&) {
    if (a[0].sym()) fprintf(stderr, "debug %s: %s\n", cstr(a[1].u).c_str(), Z3_ast_to_string(C, simp(a[0].a)));
    else if (a[0].k == K_FP) fprintf(stderr, "debug %s: %.17g\n", cstr(a[1].u).c_str(), a[0].d);
    else if (a[0].k == K_INT) fprintf(stderr, "debug %s: %lld\n", cstr(a[1].u).c_str(), (long long)a[0].u);
    else fprintf(stderr, "debug %s: undef\n", cstr(a[1].u).c_str());
    return true;
  });
  builtinId["sx_debug_i"] = builtinId["sx_debug_f"];
  addB("sx_kill", [](CI&, std::vector<Val>&, Val&) -> bool { throw PathEnd{"killed"}; });
  addB("sx_fail", [this](CI&, std::vector<Val>& a, Val&) -> bool { throw Violation{cstr(a[0].u)}; });
  addB("sx_print", [this](CI&, std::vector<Val>& a, Val&) { fprintf(stderr, "%s\n", cstr(a[0].u).c_str()); return true; });
  addB("sx_live_heap", [this](CI&, std::vector<Val>&, Val& o) {
    uint64_t n = 0;
    for (auto& c : s->mem.ch) if (c) for (auto& p : *c) if (p && p->heap) n++;
    o = mkI(n, 64);
    return true;
  });
  // bits of a double as integer without demanding a bit-level model: exact mode only
  // ---------------------------------------------------------- heap
  auto mal = [this, I64](uint64_t n) { return I64(alloc(n, true, true, "heap")); };
  BF newf = [this, mal](CI&, std::vector<Val>& a, Val& o) { o = mal(conc(a[0], 64)); return true; };
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) addB(n, newf);
  addB("calloc", [this](CI&, std::vector<Val>& a, Val& o) { o = mkI(alloc(conc(a[0], 64) * conc(a[1], 64), true, false, "heap"), 64); return true; });
  addB("aligned_alloc", [this, mal](CI&, std::vector<Val>& a, Val& o) { o = mal(conc(a[1], 64)); return true; });
  addB("posix_memalign", [this, mal](CI&, std::vector<Val>& a, Val& o) {
    Val p = mal(conc(a[2], 64));
    storeAt(a[0].u, p, TypeI{TypeI::PTR, 64});
    o = mkI(0, 32);
    return true;
  });
  BF freef = [this](CI&, std::vector<Val>& a, Val&) {
    uint64_t p = conc(a[0], 64);
    if (!p) return true;
    uint32_t off;
    const Obj* o = robj(p, 0, off, "free");
    if (!o->heap || off != 0) throw Violation{"memory: free of a pointer that was not allocated"};
    freeObj(p >> IDSHIFT);
    return true;
  };
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) addB(n, freef);
  addB("realloc", [this, mal](CI&, std::vector<Val>& a, Val& o) {
    uint64_t p = a[0].u, n = conc(a[1], 64);
    o = mal(n);
    if (p) {
      uint32_t off;
      const Obj* ob = robj(p, 0, off, "realloc");
      copyMem(o.u, p, std::min<uint64_t>(n, ob->size));
      freeObj(p >> IDSHIFT);
    }
    return true;
  });
  // ---------------------------------------------------------- memory/strings
  BF mcpy = [this](CI&, std::vector<Val>& a, Val& o) { uint64_t n = conc(a[2], 64); if (n) copyMem(conc(a[0], 64), conc(a[1], 64), n); o = a[0]; return true; };
  BF mset = [this](CI&, std::vector<Val>& a, Val& o) {
    Val b = a[1];
    if (b.w > 8 && b.k != K_UNDEF) b = castv(Instruction::Trunc, b, TypeI{TypeI::INT, b.w}, TypeI{TypeI::INT, 8});
    setMem(conc(a[0], 64), b, conc(a[2], 64));
    o = a[0];
    return true;
  };
  addB("memcpy", mcpy);
  addB("memmove", mcpy);
  addB("memset", mset);
  addB("llvm.memcpy.p0.p0.i64", mcpy);
  addB("llvm.memmove.p0.p0.i64", mcpy);
  addB("llvm.memcpy.inline.p0.p0.i64", mcpy);
  addB("llvm.memset.p0.i64", mset);
  BF mcmp = [this](CI&, std::vector<Val>& a, Val& o) {
    uint64_t p = conc(a[0], 64), q = conc(a[1], 64), n = conc(a[2], 64);
    Val r = mkI(0, 32);
    TypeI t{TypeI::INT, 32};
    for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
      Val x = byteAt(p + i), y = byteAt(q + i);
      Val lt = icmp(CmpInst::ICMP_ULT, x, y, 8), eq = icmp(CmpInst::ICMP_EQ, x, y, 8);
      r = selectv(eq, r, selectv(lt, mkI(0xffffffffu, 32), mkI(1, 32), t), t);
    }
    o = r;
    return true;
  };
  addB("memcmp", mcmp);
  addB("bcmp", mcmp);
  addB("strlen", [this](CI&, std::vector<Val>& a, Val& o) {
    uint64_t p = conc(a[0], 64), n = 0;
    for (;; n++) {
      Val b = byteAt(p + n);
      if (b.k == K_UNDEF) throw Violation{"memory: strlen of uninitialised memory"};
      if (b.k == K_INT ? b.u == 0 : decide(Z3_mk_eq(C, b.a, bvc(0, 8)))) break;
    }
    o = mkI(n, 64);
    return true;
  });
  BF scmp = [this](CI& ci, std::vector<Val>& a, Val& o) {
    uint64_t p = conc(a[0], 64), q = conc(a[1], 64);
    uint64_t lim = a.size() > 2 ? conc(a[2], 64) : ~0ull;
    (void)ci;
    for (uint64_t i = 0; i < lim; i++) {
      Val x = byteAt(p + i), y = byteAt(q + i);
      Val eq = icmp(CmpInst::ICMP_EQ, x, y, 8);
      if (!(eq.k == K_INT ? eq.u : decide(boolAst(eq)))) {
        Val lt = icmp(CmpInst::ICMP_ULT, x, y, 8);
        o = selectv(lt, mkI(0xffffffffu, 32), mkI(1, 32), TypeI{TypeI::INT, 32});
        return true;
      }
      if (x.k == K_INT ? x.u == 0 : decide(Z3_mk_eq(C, bv(x, 8), bvc(0, 8)))) break;
    }
    o = mkI(0, 32);
    return true;
  };
  addB("strcmp", scmp);
  addB("strncmp", scmp);
  addB("memchr", [this](CI&, std::vector<Val>& a, Val& o) {
    uint64_t p = conc(a[0], 64), n = conc(a[2], 64);
    Val c = castv(Instruction::Trunc, a[1], TypeI{TypeI::INT, 32}, TypeI{TypeI::INT, 8});
    for (uint64_t i = 0; i < n; i++) {
      Val eq = icmp(CmpInst::ICMP_EQ, byteAt(p + i), c, 8);
      if (eq.k == K_INT ? eq.u : decide(boolAst(eq))) { o = mkI(p + i, 64); return true; }
    }
    o = mkI(0, 64);
    return true;
  });
  // character classes (C locale)
  auto cls = [this](const char* n, std::function<bool(int)> f) {
    addB(n, [this, f](CI&, std::vector<Val>& a, Val& o) {
      if (a[0].k == K_INT) { o = mkI(f((int)a[0].u), 32); return true; }
      Z3_ast r = Z3_mk_false(C), x = bv(a[0], 32);
      for (int i = 0; i < 256;) {
        if (!f(i)) { i++; continue; }
        int j = i;
        while (j + 1 < 256 && f(j + 1)) j++;
        r = mkOr(r, mkAnd(Z3_mk_bvuge(C, x, bvc(i, 32)), Z3_mk_bvule(C, x, bvc(j, 32))));
        i = j + 1;
      }
      o = selectv(fromBool(r), mkI(1, 32), mkI(0, 32), TypeI{TypeI::INT, 32});
      return true;
    });
  };
  cls("isdigit", [](int c) { return c >= '0' && c <= '9'; });
  cls("isspace", [](int c) { return c == ' ' || (c >= 9 && c <= 13); });
  cls("isalpha", [](int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); });
  cls("isalnum", [](int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); });
  cls("isupper", [](int c) { return c >= 'A' && c <= 'Z'; });
  cls("islower", [](int c) { return c >= 'a' && c <= 'z'; });
  cls("isxdigit", [](int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); });
  for (int up = 0; up < 2; up++)
    addB(up ? "toupper" : "tolower", [this, up](CI&, std::vector<Val>& a, Val& o) {
      Val lo = mkI(up ? 'a' : 'A', 32), hi = mkI(up ? 'z' : 'Z', 32);
      Val in = ibin(Instruction::And, icmp(CmpInst::ICMP_UGE, a[0], lo, 32), icmp(CmpInst::ICMP_ULE, a[0], hi, 32), 1);
      o = selectv(in, ibin(Instruction::Add, a[0], mkI(up ? -32 : 32, 32), 32), a[0], TypeI{TypeI::INT, 32});
      return true;
    });
  // ---------------------------------------------------------- libm
  for (auto n : {"exp", "log", "log1p", "expm1", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
                 "cbrt", "exp2", "log2", "log10", "erf", "erfc", "tgamma", "lgamma", "pow", "atan2", "fmod", "remainder", "hypot", "nextafter"}) {
    std::string fn = n;
    BF f = [this, fn](CI&, std::vector<Val>& a, Val& o) { o = libm(fn, a); return true; };
    addB(fn, f);
    addB("llvm." + fn + ".f64", f);
  }
  addB("llvm.powi.f64.i32", [this](CI&, std::vector<Val>& a, Val& o) {
    o = fpow(a[0], mkF((double)sext(conc(a[1], 32), 32)));
    return true;
  });
  BF fmodf_ = [this](CI&, std::vector<Val>& a, Val& o) { o = mkF(std::fmod(a[0].d, a[1].d), a[0].w); return true; };
  addB("fmodl", fmodf_);
  for (auto sfx : {"f64", "f32", "f80"}) {
    std::string q = sfx;
    addB("llvm.sqrt." + q, [this](CI&, std::vector<Val>& a, Val& o) { o = fsqrt(a[0]); return true; });
    addB("llvm.fabs." + q, [this](CI&, std::vector<Val>& a, Val& o) { o = fabsv(a[0]); return true; });
    const char* rn[] = {"floor", "ceil", "trunc", "round", "rint", "nearbyint", "roundeven"};
    for (int i = 0; i < 7; i++)
      addB(std::string("llvm.") + rn[i] + "." + q, [this, i](CI&, std::vector<Val>& a, Val& o) { o = fround(a[0], std::min(i, 4)); return true; });
    addB("llvm.fmuladd." + q, [this](CI&, std::vector<Val>& a, Val& o) { o = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], a[0].w), a[2], a[0].w); return true; });
    addB("llvm.fma." + q, [this](CI&, std::vector<Val>& a, Val& o) {
      if (a[0].k == K_FP && a[1].k == K_FP && a[2].k == K_FP) o = mkF(std::fma(a[0].d, a[1].d, a[2].d), a[0].w);
      else if (REAL) o = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], a[0].w), a[2], a[0].w);
      else o = mkSF(Z3_mk_fpa_fma(C, rRNE, fp(a[0]), fp(a[1]), fp(a[2])), a[0].w);
      return true;
    });
    for (int mx = 0; mx < 2; mx++) {
      BF f = [this, mx](CI&, std::vector<Val>& a, Val& o) { o = fminmax(a[0], a[1], mx); return true; };
      addB(std::string(mx ? "llvm.maxnum." : "llvm.minnum.") + q, f);
      addB(std::string(mx ? "llvm.maximum." : "llvm.minimum.") + q, f);
    }
    addB("llvm.copysign." + q, [this](CI&, std::vector<Val>& a, Val& o) {
      if (a[0].k == K_FP && a[1].k == K_FP) { o = mkF(std::copysign(a[0].d, a[1].d), a[0].w); return true; }
      Val m = fabsv(a[0]);
      if (a[1].k == K_FP) { o = std::signbit(a[1].d) ? fneg(m) : m; return true; }
      Z3_ast neg = REAL ? Z3_mk_lt(C, fp(a[1]), realInt(0)) : Z3_mk_fpa_is_negative(C, fp(a[1]));
      o = selectv(fromBool(neg), fneg(m), m, TypeI{TypeI::FP, a[0].w});
      return true;
    });
    addB("llvm.is.fpclass." + q, [this](CI&, std::vector<Val>& a, Val& o) {
      unsigned mask = a[1].u;
      if (a[0].k == K_UNDEF) { o = Val(); return true; }
      if (a[0].k == K_FP) {
        double d = a[0].d;
        unsigned c;
        if (std::isnan(d)) c = 2;
        else if (std::isinf(d)) c = d < 0 ? 4 : 512;
        else if (d == 0) c = std::signbit(d) ? 32 : 64;
        else if (std::fpclassify(d) == FP_SUBNORMAL) c = d < 0 ? 16 : 128;
        else c = d < 0 ? 8 : 256;
        o = mkI((c & mask) != 0, 1);
        return true;
      }
      Z3_ast x = fp(a[0]), r = Z3_mk_false(C);
      if (REAL) {
        if (mask & (8 | 16)) r = mkOr(r, Z3_mk_lt(C, x, realInt(0)));
        if (mask & (32 | 64)) r = mkOr(r, Z3_mk_eq(C, x, realInt(0)));
        if (mask & (128 | 256)) r = mkOr(r, Z3_mk_gt(C, x, realInt(0)));
      } else {
        Z3_ast ng = Z3_mk_fpa_is_negative(C, x), ps = Z3_mk_fpa_is_positive(C, x);
        if (mask & 3) r = mkOr(r, Z3_mk_fpa_is_nan(C, x));
        if (mask & 4) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_infinite(C, x)));
        if (mask & 8) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_normal(C, x)));
        if (mask & 16) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_subnormal(C, x)));
        if (mask & 32) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_zero(C, x)));
        if (mask & 64) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_zero(C, x)));
        if (mask & 128) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_subnormal(C, x)));
        if (mask & 256) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_normal(C, x)));
        if (mask & 512) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_infinite(C, x)));
      }
      o = fromBool(r);
      return true;
    });
  }
  auto alias = [this](const char* n, const char* t) { builtinId[n] = builtinId.at(t); };
  alias("sqrt", "llvm.sqrt.f64"); alias("sqrtf", "llvm.sqrt.f32"); alias("fabs", "llvm.fabs.f64"); alias("floor", "llvm.floor.f64"); alias("ceil", "llvm.ceil.f64");
  alias("ceill", "llvm.ceil.f80"); alias("floorl", "llvm.floor.f80"); alias("trunc", "llvm.trunc.f64"); alias("round", "llvm.round.f64");
  alias("rint", "llvm.rint.f64"); alias("nearbyint", "llvm.rint.f64"); alias("fmax", "llvm.maxnum.f64"); alias("fmin", "llvm.minnum.f64");
  alias("copysign", "llvm.copysign.f64"); alias("fma", "llvm.fma.f64");
  for (auto n : {"lround", "llround", "lrint", "llrint"}) {
    int mode = std::string(n).find("round") != std::string::npos ? 3 : 4;
    addB(n, [this, mode](CI&, std::vector<Val>& a, Val& o) { o = castv(Instruction::FPToSI, fround(a[0], mode), TypeI{TypeI::FP, 64}, TypeI{TypeI::INT, 64}); return true; });
  }
  alias("llvm.lround.i64.f64", "lround"); alias("llvm.lrint.i64.f64", "lrint"); alias("llvm.llround.i64.f64", "llround"); alias("llvm.llrint.i64.f64", "llrint");
  addB("sincos", [this](CI&, std::vector<Val>& a, Val&) {
    std::vector<Val> x{a[0]};
    Val sn = libm("sin", x), cs = libm("cos", x);
    storeAt(a[1].u, sn, TypeI{TypeI::FP, 64});
    storeAt(a[2].u, cs, TypeI{TypeI::FP, 64});
    return true;
  });
  addB("modf", [this](CI&, std::vector<Val>& a, Val& o) {
    Val t = fround(a[0], 2);
    storeAt(a[1].u, t, TypeI{TypeI::FP, 64});
    o = fbin(Instruction::FSub, a[0], t, 64);
    return true;
  });
  addB("ldexp", [this](CI&, std::vector<Val>& a, Val& o) { int e = (int)sext(conc(a[1], 32), 32); o = fbin(Instruction::FMul, a[0], mkF(std::ldexp(1., e)), 64); return true; });
  alias("llvm.ldexp.f64.i32", "ldexp");
  // ---------------------------------------------------------- integer intrinsics
  for (unsigned w : {1u, 8u, 16u, 32u, 64u, 128u}) {
    std::string q = ".i" + std::to_string(w);
    TypeI t{TypeI::INT, w};
    struct MM { const char* n; unsigned p; };
    for (MM m : {MM{"llvm.umin", CmpInst::ICMP_ULT}, MM{"llvm.umax", CmpInst::ICMP_UGT}, MM{"llvm.smin", CmpInst::ICMP_SLT}, MM{"llvm.smax", CmpInst::ICMP_SGT}})
      addB(m.n + q, [this, m, w, t](CI&, std::vector<Val>& a, Val& o) { o = selectv(icmp(m.p, a[0], a[1], w), a[0], a[1], t); return true; });
    addB("llvm.abs" + q, [this, w, t](CI&, std::vector<Val>& a, Val& o) { o = selectv(icmp(CmpInst::ICMP_SLT, a[0], mkI(0, w), w), ibin(Instruction::Sub, mkI(0, w), a[0], w), a[0], t); return true; });
    addB("llvm.ctpop" + q, [this, w](CI&, std::vector<Val>& a, Val& o) {
      if (a[0].k == K_INT) { o = mkI(__builtin_popcountll(a[0].u), w); return true; }
      Val r = mkI(0, w);
      for (unsigned i = 0; i < w; i++) r = ibin(Instruction::Add, r, ibin(Instruction::And, ibin(Instruction::LShr, a[0], mkI(i, w), w), mkI(1, w), w), w);
      o = r;
      return true;
    });
    for (int lead = 0; lead < 2; lead++)
      addB((lead ? "llvm.ctlz" : "llvm.cttz") + q, [this, w, t, lead](CI&, std::vector<Val>& a, Val& o) {
        Val r = mkI(w, w);
        for (unsigned k = 0; k < w; k++) {
          unsigned i = lead ? k : w - 1 - k;
          Val bit = icmp(CmpInst::ICMP_NE, ibin(Instruction::And, a[0], mkI(1ull << i, w), w), mkI(0, w), w);
          r = selectv(bit, mkI(lead ? w - 1 - i : i, w), r, t);
        }
        o = r;
        return true;
      });
    for (int left = 0; left < 2; left++)
      addB((left ? "llvm.fshl" : "llvm.fshr") + q, [this, w, left](CI&, std::vector<Val>& a, Val& o) {
        uint64_t k = conc(a[2], w) % w;
        if (k == 0) { o = left ? a[0] : a[1]; return true; }
        unsigned l = left ? k : w - k;
        o = ibin(Instruction::Or, ibin(Instruction::Shl, a[0], mkI(l, w), w), ibin(Instruction::LShr, a[1], mkI(w - l, w), w), w);
        return true;
      });
    addB("llvm.bswap" + q, [this, w](CI&, std::vector<Val>& a, Val& o) {
      Val r = mkI(0, w);
      for (unsigned i = 0; i < w / 8; i++)
        r = ibin(Instruction::Or, r, ibin(Instruction::Shl, ibin(Instruction::And, ibin(Instruction::LShr, a[0], mkI(8 * i, w), w), mkI(255, w), w), mkI(w - 8 - 8 * i, w), w), w);
      o = r;
      return true;
    });
    struct OV { const char* n; unsigned op; bool sg; };
    for (OV v : {OV{"llvm.uadd.with.overflow", Instruction::Add, false}, OV{"llvm.sadd.with.overflow", Instruction::Add, true}, OV{"llvm.usub.with.overflow", Instruction::Sub, false},
                 OV{"llvm.ssub.with.overflow", Instruction::Sub, true}, OV{"llvm.umul.with.overflow", Instruction::Mul, false}, OV{"llvm.smul.with.overflow", Instruction::Mul, true}})
      addB(v.n + q, [this, v, w](CI&, std::vector<Val>& a, Val& o) {
        if (w > 64) throw Unsupported{"wide overflow arithmetic"};
        Val r = ibin(v.op, a[0], a[1], w), ov;
        if (a[0].k == K_INT && a[1].k == K_INT) {
          __int128 x = v.sg ? (__int128)sext(a[0].u, w) : (__int128)a[0].u, y = v.sg ? (__int128)sext(a[1].u, w) : (__int128)a[1].u;
          __int128 z = v.op == Instruction::Add ? x + y : v.op == Instruction::Sub ? x - y : x * y;
          __int128 back = v.sg ? (__int128)sext(r.u, w) : (__int128)r.u;
          ov = mkI(z != back, 1);
        } else {
          Z3_ast x = bv(a[0], w), y = bv(a[1], w), ok;
          if (v.op == Instruction::Add) { ok = Z3_mk_bvadd_no_overflow(C, x, y, v.sg); if (v.sg) ok = mkAnd(ok, Z3_mk_bvadd_no_underflow(C, x, y)); }
          else if (v.op == Instruction::Sub) { ok = Z3_mk_bvsub_no_underflow(C, x, y, v.sg); if (v.sg) ok = mkAnd(ok, Z3_mk_bvsub_no_overflow(C, x, y)); }
          else { ok = Z3_mk_bvmul_no_overflow(C, x, y, v.sg); if (v.sg) ok = mkAnd(ok, Z3_mk_bvmul_no_underflow(C, x, y)); }
          ov = fromBool(mkNot(simp(ok)));
        }
        o = mkAgg({r, ov});
        return true;
      });
    addB("llvm.usub.sat" + q, [this, w, t](CI&, std::vector<Val>& a, Val& o) { o = selectv(icmp(CmpInst::ICMP_ULT, a[0], a[1], w), mkI(0, w), ibin(Instruction::Sub, a[0], a[1], w), t); return true; });
    addB("llvm.uadd.sat" + q, [this, w, t](CI&, std::vector<Val>& a, Val& o) { Val r = ibin(Instruction::Add, a[0], a[1], w); o = selectv(icmp(CmpInst::ICMP_ULT, r, a[0], w), mkI(~0ull, w), r, t); return true; });
    addB("llvm.expect" + q, [](CI&, std::vector<Val>& a, Val& o) { o = a[0]; return true; });
    addB("llvm.ssa.copy" + q, [](CI&, std::vector<Val>& a, Val& o) { o = a[0]; return true; });
    addB("llvm.is.constant" + q, [](CI&, std::vector<Val>& a, Val& o) { o = mkI(a[0].k == K_INT, 1); return true; });
  }
  // ---------------------------------------------------------- no-op intrinsics and runtime
  BF nop = [](CI&, std::vector<Val>&, Val& o) { o = mkI(0, 64); return true; };
  for (auto n : {"llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.assume", "llvm.donothing", "llvm.experimental.noalias.scope.decl", "llvm.dbg.declare",
                 "llvm.dbg.value", "llvm.dbg.label", "llvm.invariant.start.p0", "llvm.invariant.end.p0", "llvm.stackrestore.p0", "llvm.stackrestore", "llvm.var.annotation.p0.p0", "llvm.prefetch.p0", "llvm.va_end",
                 "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_atexit", "__cxa_thread_atexit", "atexit", "__cxa_free_exception_dummy", "llvm.sideeffect"})
    addB(n, [](CI&, std::vector<Val>&, Val& o) { o = mkI(0, 32); return true; });
  addB("llvm.stacksave.p0", nop);
  addB("llvm.stacksave", nop);
  addB("llvm.launder.invariant.group.p0", [](CI&, std::vector<Val>& a, Val& o) { o = a[0]; return true; });
  alias("llvm.strip.invariant.group.p0", "llvm.launder.invariant.group.p0");
  alias("llvm.threadlocal.address.p0", "llvm.launder.invariant.group.p0");
  addB("llvm.objectsize.i64.p0", [](CI&, std::vector<Val>&, Val& o) { o = mkI(~0ull, 64); return true; });
  addB("llvm.load.relative.i64", [this](CI&, std::vector<Val>& a, Val& o) {
    uint64_t p = conc(a[0], 64);
    Val off = loadAt(p + conc(a[1], 64), TypeI{TypeI::INT, 32});
    o = mkI(p + sext(conc(off, 32), 32), 64);
    return true;
  });
  addB("llvm.trap", [](CI&, std::vector<Val>&, Val&) -> bool { throw Violation{"trap"}; });
  for (auto n : {"abort", "_ZSt9terminatev", "__assert_fail", "__stack_chk_fail", "__cxa_pure_virtual", "_ZSt10unexpectedv"}) {
    std::string nm = n;
    addB(n, [nm](CI&, std::vector<Val>&, Val&) -> bool { throw Violation{"program terminated by " + nm}; });
  }
  addB("exit", [](CI&, std::vector<Val>&, Val&) -> bool { throw PathEnd{"exit"}; });
  addB("_exit", [](CI&, std::vector<Val>&, Val&) -> bool { throw PathEnd{"exit"}; });
  // ---------------------------------------------------------- C++ ABI
  addB("__cxa_allocate_exception", [this](CI&, std::vector<Val>& a, Val& o) { o = mkI(alloc(std::max<uint64_t>(conc(a[0], 64), 16), true, false, "exception"), 64); return true; });
  addB("__cxa_free_exception", [](CI&, std::vector<Val>&, Val&) { return true; });
  addB("__cxa_init_primary_exception", [this](CI&, std::vector<Val>& a, Val& o) { s->excTI[a[0].u] = a[1].u; o = a[0]; return true; });
  addB("__cxa_throw", [this](CI&, std::vector<Val>& a, Val&) {
    s->excTI[a[0].u] = a[1].u;
    s->uncaught++;
    unwind(a[0].u);
    return false;
  });
  addB("__cxa_begin_catch", [this](CI&, std::vector<Val>& a, Val& o) {
    uint64_t e = a[0].u;
    s->caught.push_back(e);
    if (s->uncaught > 0) s->uncaught--;
    o = a[0];
    return true;
  });
  addB("__cxa_get_exception_ptr", [](CI&, std::vector<Val>& a, Val& o) { o = a[0]; return true; });
  addB("__cxa_end_catch", [this](CI&, std::vector<Val>&, Val&) { if (!s->caught.empty()) s->caught.pop_back(); return true; });
  addB("__cxa_rethrow", [this](CI&, std::vector<Val>&, Val&) {
    if (s->caught.empty()) throw Violation{"rethrow without exception"};
    uint64_t e = s->caught.back();
    s->uncaught++;
    unwind(e);
    return false;
  });
  addB("_ZSt19uncaught_exceptionsv", [this](CI&, std::vector<Val>&, Val& o) { o = mkI(s->uncaught, 32); return true; });
  addB("_ZSt18uncaught_exceptionv", [this](CI&, std::vector<Val>&, Val& o) { o = mkI(s->uncaught > 0, 1); return true; });
  addB("__clang_call_terminate", [this](CI&, std::vector<Val>& a, Val&) -> bool {
    throw Violation{"exception " + tiName(s->excTI[a[0].u]) + " escapes a noexcept function (std::terminate)"};
  });
  addB("llvm.eh.typeid.for", [this](CI&, std::vector<Val>& a, Val& o) { o = mkI(typeId(a[0].u), 32); return true; });
  builtinId["llvm.eh.typeid.for.p0"] = builtinId["llvm.eh.typeid.for"];
  addB("__cxa_guard_acquire", [this](CI&, std::vector<Val>& a, Val& o) { Val b = byteAt(a[0].u); o = mkI(b.u == 0, 32); return true; });
  addB("__cxa_guard_release", [this](CI&, std::vector<Val>& a, Val&) { storeAt(a[0].u, mkI(1, 8), TypeI{TypeI::INT, 8}); return true; });
  addB("__cxa_guard_abort", [](CI&, std::vector<Val>&, Val&) { return true; });
  addB("__dynamic_cast", [this](CI&, std::vector<Val>& a, Val& o) {
    uint64_t src = a[0].u;
    if (!src) { o = mkI(0, 64); return true; }
    uint64_t vt = conc(loadAt(src, TypeI{TypeI::PTR, 64}), 64);
    uint64_t ti = conc(loadAt(vt - 8, TypeI{TypeI::PTR, 64}), 64);
    int64_t ott = (int64_t)conc(loadAt(vt - 16, TypeI{TypeI::INT, 64}), 64);
    int64_t off = 0;
    uint64_t whole = src + ott;
    o = typeMatch(ti, a[2].u, &off) ? mkI(whole + off, 64) : mkI(0, 64);
    return true;
  });
  addB("__cxa_bad_cast", [](CI&, std::vector<Val>&, Val&) -> bool { throw Violation{"std::bad_cast"}; });
  addB("__cxa_throw_bad_array_new_length", [](CI&, std::vector<Val>&, Val&) -> bool { throw Violation{"bad array new length"}; });
  addB("_ZNKSt9type_info4nameEv", [this](CI&, std::vector<Val>& a, Val& o) { o = loadAt(a[0].u + 8, TypeI{TypeI::PTR, 64}); return true; });
  addB("sx_type_name_is", [this](CI&, std::vector<Val>& a, Val& o) {  // dynamic type of *a[0] has mangled type-info name a[1]
    uint64_t vt = conc(loadAt(a[0].u, TypeI{TypeI::PTR, 64}), 64);
    uint64_t ti = conc(loadAt(vt - 8, TypeI{TypeI::PTR, 64}), 64);
    o = mkI(tiName(ti) == "_ZTI" + cstr(a[1].u), 1);
    return true;
  });
  addB("__errno_location", [this](CI&, std::vector<Val>&, Val& o) {
    auto it = s->kv.find("errno");
    if (it == s->kv.end()) { uint64_t p = alloc(8, false, false, "errno"); s->kv["errno"] = p; }
    o = mkI(s->kv["errno"], 64);
    return true;
  });
  addB("sched_yield", [](CI&, std::vector<Val>&, Val& o) { o = mkI(0, 32); return true; });
  addB("pthread_mutex_lock", [](CI&, std::vector<Val>&, Val& o) { o = mkI(0, 32); return true; });
  addB("pthread_mutex_unlock", [](CI&, std::vector<Val>&, Val& o) { o = mkI(0, 32); return true; });
  (void)I32;
}
