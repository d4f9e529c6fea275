// Bit-vector rewrites: linear normal forms and small value sets (division by constants, equalities).
#include "solver.h"
#include <algorithm>
namespace {
using I128 = __int128;
struct Term { Z3_ast a; uint64_t max; I128 k; };
struct Lin { std::map<unsigned, Term> t; I128 c = 0; };
Z3_decl_kind kind(Z3_ast a) { return Z3_get_ast_kind(C, a) == Z3_APP_AST ? Z3_get_decl_kind(C, Z3_get_app_decl(C, (Z3_app)a)) : Z3_OP_UNINTERPRETED; }
unsigned nargs(Z3_ast a) { return Z3_get_app_num_args(C, (Z3_app)a); }
Z3_ast arg(Z3_ast a, unsigned i) { return Z3_get_app_arg(C, (Z3_app)a, i); }
unsigned width(Z3_ast a) { return Z3_get_bv_sort_size(C, Z3_get_sort(C, a)); }
bool numeral(Z3_ast a, uint64_t& u) { return Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(C, a, &u); }
I128 centre(I128 k, unsigned w) {
  unsigned __int128 u = (unsigned __int128)k & (((unsigned __int128)1 << w) - 1);
  if (u >> (w - 1)) return (I128)u - ((I128)1 << w);
  return (I128)u;
}
void addTerm(Lin& l, Z3_ast a, uint64_t max, I128 k, unsigned w) {
  auto& t = l.t[aid(a)];
  if (!t.a) t = Term{a, max, 0};
  t.k = centre(t.k + k, w);
  t.max = std::min(t.max, max);
  if (t.k == 0) l.t.erase(aid(a));
}
// accumulates k * a (a of width wa <= w, zero-extended) into l modulo 2^w
bool collect(Z3_ast a, I128 k, unsigned w, Lin& l, int depth) {
  if (l.t.size() > 200 || depth > 60) return false;
  const unsigned wa = width(a);
  uint64_t u;
  if (numeral(a, u)) { l.c = centre(l.c + k * (I128)u, w); return true; }
  auto dk = kind(a);
  // arithmetic modulo 2^wa is linear modulo 2^w if wa >= w or the factor shifts the wrapped part out
  const bool full = wa == w || (wa < w && k % ((I128)1 << (w - wa)) == 0);
  if (dk == Z3_OP_CONCAT) {
    unsigned off = 0;
    for (int i = (int)nargs(a) - 1; i >= 0; i--) {
      Z3_ast p = arg(a, i);
      if (off < w && !collect(p, centre(k * ((I128)1 << off), w), w, l, depth + 1)) return false;
      off += width(p);
    }
    return true;
  }
  if (full || wa > w) {
    if (dk == Z3_OP_BADD) {
      for (unsigned i = 0; i < nargs(a); i++) if (!collect(arg(a, i), k, w, l, depth + 1)) return false;
      return true;
    }
    if (dk == Z3_OP_BSUB && nargs(a) == 2) return collect(arg(a, 0), k, w, l, depth + 1) && collect(arg(a, 1), -k, w, l, depth + 1);
    if (dk == Z3_OP_BNEG) return collect(arg(a, 0), -k, w, l, depth + 1);
    if (dk == Z3_OP_BMUL && nargs(a) == 2) {
      for (int i = 0; i < 2; i++)
        if (numeral(arg(a, i), u)) return collect(arg(a, 1 - i), centre(k * centre(u, std::min(wa, w)), w), w, l, depth + 1);
    }
    if (dk == Z3_OP_BSHL && numeral(arg(a, 1), u)) {
      if (u >= wa) return true;
      return collect(arg(a, 0), centre(k * ((I128)1 << u), w), w, l, depth + 1);
    }
    if (dk == Z3_OP_ZERO_EXT) return collect(arg(a, 0), k, w, l, depth + 1);
  } else if (wa < 63 && (dk == Z3_OP_BADD || dk == Z3_OP_BMUL || dk == Z3_OP_BNEG || dk == Z3_OP_BSUB)) {
    // narrow arithmetic: linear only when it cannot wrap
    Lin n;
    if (collect(a, 1, wa, n, depth + 1)) {
      I128 lo = n.c < 0 ? n.c : n.c, hi = lo;
      for (auto& kv : n.t) {
        if (kv.second.k > 0) hi += kv.second.k * (I128)kv.second.max; else lo += kv.second.k * (I128)kv.second.max;
      }
      if (lo >= 0 && hi < ((I128)1 << wa)) {
        l.c = centre(l.c + k * n.c, w);
        for (auto& kv : n.t) addTerm(l, kv.second.a, kv.second.max, centre(k * kv.second.k, w), w);
        return true;
      }
    }
  }
  if (dk == Z3_OP_EXTRACT) {
    unsigned hi = Z3_get_decl_int_parameter(C, Z3_get_app_decl(C, (Z3_app)a), 0), lo = Z3_get_decl_int_parameter(C, Z3_get_app_decl(C, (Z3_app)a), 1);
    Z3_ast x = arg(a, 0);
    auto xk = kind(x);
    if (lo == 0 && hi < 62 && (xk == Z3_OP_BADD || xk == Z3_OP_BMUL || xk == Z3_OP_CONCAT)) {
      Lin n;
      if (collect(x, 1, hi + 1, n, depth + 1)) {
        I128 l0 = n.c, h0 = n.c;
        for (auto& kv : n.t) { if (kv.second.k > 0) h0 += kv.second.k * (I128)kv.second.max; else l0 += kv.second.k * (I128)kv.second.max; }
        if (hi + 1 >= w || (l0 >= 0 && h0 < ((I128)1 << (hi + 1)))) {
          l.c = centre(l.c + k * n.c, w);
          for (auto& kv : n.t) addTerm(l, kv.second.a, kv.second.max, centre(k * kv.second.k, w), w);
          return true;
        }
      }
    }
  }
  addTerm(l, a, wa >= 64 ? ~0ull : ((1ull << wa) - 1), k, w);
  return true;
}
// set of values a term can take, judging by its ite/constant structure only
bool values(Z3_ast a, std::set<uint64_t>& out, int depth, std::unordered_map<unsigned, std::set<uint64_t>>& memo) {
  auto it = memo.find(aid(a));
  if (it != memo.end()) { out = it->second; return true; }
  if (depth > 40 || memo.size() > 400) return false;
  const unsigned w = width(a);
  if (w > 64) return false;
  uint64_t u;
  out.clear();
  if (numeral(a, u)) { out.insert(u); return true; }
  auto dk = kind(a);
  std::set<uint64_t> p, q;
  if (dk == Z3_OP_ITE) {
    if (!values(arg(a, 1), p, depth + 1, memo) || !values(arg(a, 2), q, depth + 1, memo)) return false;
    out = p;
    out.insert(q.begin(), q.end());
  } else if (dk == Z3_OP_BADD || dk == Z3_OP_BMUL || dk == Z3_OP_CONCAT) {
    if (!values(arg(a, 0), out, depth + 1, memo)) return false;
    for (unsigned i = 1; i < nargs(a); i++) {
      if (!values(arg(a, i), p, depth + 1, memo)) return false;
      q.clear();
      const unsigned wi = width(arg(a, i));
      for (uint64_t x : out) for (uint64_t y : p) q.insert((dk == Z3_OP_BADD ? x + y : dk == Z3_OP_BMUL ? x * y : (wi >= 64 ? 0 : x << wi) | y) & maskw(w));
      if (q.size() > 64) return false;
      out = q;
    }
  } else if (dk == Z3_OP_BNEG) {
    if (!values(arg(a, 0), p, depth + 1, memo)) return false;
    for (uint64_t x : p) out.insert((0 - x) & maskw(w));
  } else if (w == 1) {
    out = {0, 1};
  } else return false;
  if (out.size() > 64) return false;
  memo[aid(a)] = out;
  return true;
}
}  // namespace

// 1: equal for all values; -1: different for all values; 0: unknown
int linEqual(Z3_ast a, Z3_ast b) {
  const unsigned w = width(a);
  if (w > 64 || w < 2) return 0;
  Lin l;
  if (!collect(a, 1, w, l, 0) || !collect(b, -1, w, l, 0)) return 0;
  if (l.t.empty()) return l.c == 0 ? 1 : -1;
  return 0;
}

// x op c for a division-like operation; nullptr when no rewrite applies
Z3_ast divRewrite(char op, bool sgn, Z3_ast x, uint64_t c, unsigned w, int depth) {
  if (w > 64 || w < 2) return nullptr;
  const int64_t sc = sext(c, w);
  auto ev = [&](uint64_t v) -> uint64_t {
    if (!sgn) return op == '/' ? v / c : v % c;
    int64_t s = sext(v, w);
    if (sc == -1) return op == '/' ? (0 - v) & maskw(w) : 0;
    return (uint64_t)(op == '/' ? s / sc : s % sc) & maskw(w);
  };
  std::set<uint64_t> vs;
  std::unordered_map<unsigned, std::set<uint64_t>> memo;
  if (values(x, vs, 0, memo)) {
    std::map<uint64_t, Z3_ast> by;  // result -> condition
    Z3_ast r = nullptr;
    for (uint64_t v : vs) {
      Z3_ast e = bvc(ev(v), w);
      r = r ? mkIte(mkEq(x, bvc(v, w)), e, r) : e;
    }
    return r;
  }
  Lin l;
  if (collect(x, 1, w, l, 0)) {
    I128 lo = l.c, hi = l.c;
    for (auto& kv : l.t) { if (kv.second.k > 0) hi += kv.second.k * (I128)kv.second.max; else lo += kv.second.k * (I128)kv.second.max; }
    const I128 lim = (I128)1 << (sgn ? w - 1 : w);
    const I128 d = sgn ? (I128)sc : (I128)c;
    bool inRange = hi < lim && lo >= (sgn ? -lim : 0), divisible = l.c % d == 0;
    for (auto& kv : l.t) divisible &= kv.second.k % d == 0;
    if (inRange && divisible) {
      if (op == '%') return bvc(0, w);
      Z3_ast r = bvc((uint64_t)(l.c / d), w);
      for (auto& kv : l.t) {
        Z3_ast t = kv.second.a;
        unsigned wt = width(t);
        if (wt > w) return nullptr;
        if (wt < w) t = Z3_mk_zero_ext(C, w - wt, t);
        r = Z3_mk_bvadd(C, r, Z3_mk_bvmul(C, bvc((uint64_t)(kv.second.k / d), w), t));
      }
      return simp(r);
    }
    // remainder or quotient splits off the divisible part when everything is non-negative
    if (inRange && d > 1 && l.c >= 0) {
      bool pos = true;
      I128 rest = l.c % d;
      Z3_ast q = bvc((uint64_t)(l.c / d), w), m = bvc((uint64_t)(l.c % d), w);
      for (auto& kv : l.t) {
        if (kv.second.k < 0) { pos = false; break; }
        Z3_ast t = kv.second.a;
        unsigned wt = width(t);
        if (wt > w) { pos = false; break; }
        if (wt < w) t = Z3_mk_zero_ext(C, w - wt, t);
        I128 kq = kv.second.k / d, km = kv.second.k % d;
        rest += km * (I128)kv.second.max;
        if (kq) q = Z3_mk_bvadd(C, q, Z3_mk_bvmul(C, bvc((uint64_t)kq, w), t));
        if (km) m = Z3_mk_bvadd(C, m, Z3_mk_bvmul(C, bvc((uint64_t)km, w), t));
      }
      if (pos && rest < d) return simp(op == '/' ? q : m);
    }
  }
  if (kind(x) == Z3_OP_ITE && depth < 3) {
    Z3_ast p = divRewrite(op, sgn, arg(x, 1), c, w, depth + 1), q = divRewrite(op, sgn, arg(x, 2), c, w, depth + 1);
    if (p && q) return mkIte(arg(x, 0), p, q);
  }
  return nullptr;
}

// structural unsigned range of a bit-vector term
void bvRange(Z3_ast a, uint64_t& lo, uint64_t& hi, int depth) {
  const unsigned w = width(a);
  lo = 0;
  hi = maskw(w);
  uint64_t u;
  if (w > 64 || depth > 12) return;
  if (numeral(a, u)) { lo = hi = u; return; }
  auto dk = kind(a);
  if (dk == Z3_OP_CONCAT) {
    lo = hi = 0;
    for (unsigned i = 0; i < nargs(a); i++) {
      uint64_t l, h;
      const unsigned wi = width(arg(a, i));
      bvRange(arg(a, i), l, h, depth + 1);
      lo = (wi >= 64 ? 0 : lo << wi) | l;
      hi = (wi >= 64 ? 0 : hi << wi) | h;
    }
  } else if (dk == Z3_OP_ITE) {
    uint64_t l1, h1, l2, h2;
    bvRange(arg(a, 1), l1, h1, depth + 1);
    bvRange(arg(a, 2), l2, h2, depth + 1);
    lo = std::min(l1, l2);
    hi = std::max(h1, h2);
  } else if (dk == Z3_OP_ZERO_EXT) {
    bvRange(arg(a, 0), lo, hi, depth + 1);
  } else if (dk == Z3_OP_BADD && w <= 62) {
    uint64_t L = 0, H = 0;
    for (unsigned i = 0; i < nargs(a); i++) {
      uint64_t l, h;
      bvRange(arg(a, i), l, h, depth + 1);
      L += l;
      H += h;
      if (H > maskw(w)) return;
    }
    lo = L;
    hi = H;
  }
}

// values of a small-range integer term with the condition of each
bool bvCases(Z3_ast x, std::vector<std::pair<Z3_ast, uint64_t>>& out, size_t limit) {
  std::set<uint64_t> vs;
  std::unordered_map<unsigned, std::set<uint64_t>> memo;
  if (!values(x, vs, 0, memo) || vs.size() > limit) return false;
  for (uint64_t v : vs) out.push_back({mkEq(x, bvc(v, width(x))), v});
  return true;
}
