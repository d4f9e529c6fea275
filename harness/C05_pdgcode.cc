// PDG codes: hexadecimal, decimal and text construction.
// @src pdgcode.cc
// @entry c05_hex exact reach=accepted,rejected,hadron,lepton
// @entry c05_decimal exact reach=accepted,rejected time=400 ab=120
// @entry c05_string exact reach=accepted,rejected,highspin,hexj time=250 ab=60
// @entry c05_nucleus exact reach=accepted,rejected time=200 ab=60
// @entry c05_nucleus_decimal exact reach=done
// @entry c05_decimal_digits exact reach=accepted,rejected time=300 ab=60
// @entry c05_order exact reach=done
// @bound all signed hexadecimal codes of up to 7 digits, all decimal codes below 40000 (thorough: below 10^7); texts of optional sign plus 1..8 or 10 bytes, of which all but one at any position are decimal digits and that one is any byte
// @assume streams inserting a symbolic number are abstracted (only used for error messages)
#include "sx.h"
#include "smash/pdgcode.h"
using namespace smash;
#ifdef SX_THOROUGH
static const int top_decimal = 9999999;
#else
static const int top_decimal = 39999;
#endif
struct Digits { unsigned d[7]; bool neg; };  // n_J q3 q2 q1 L R n
// Independent statement of which digit combinations are particle codes.
static bool valid(const Digits &x) {
  const unsigned J = x.d[0], q3 = x.d[1], q2 = x.d[2], q1 = x.d[3];
  if ((q1 > 6) | (q2 > 6) | (q3 > 6) | (x.d[4] > 9) | (x.d[5] > 9) | (x.d[6] > 9) | (J > 15)) return false;
  const bool hadron = (q3 != 0) & (q2 != 0), baryon = hadron & (q1 != 0);
  bool zero = true;
  for (int i = 0; i < 7; i++) zero &= x.d[i] == 0;
  bool k0 = (J == 0) & (q1 == 0) & (((q2 == 1) & (q3 == 3)) | ((q2 == 3) & (q3 == 1)));
  for (int i = 4; i < 7; i++) k0 &= x.d[i] == 0;
  bool ok = true, anti = true;
  if (baryon) {
    ok = (J % 2 == 0) & (J != 0);
  } else if (hadron) {
    ok = (J % 2 == 1) | (k0 & !x.neg);
    anti = q2 != q3;
  } else {
    ok = (J != 0) | (zero & !x.neg);
    anti = q3 == 1;
  }
  return ok & (!x.neg | anti);
}
static void check_fields(const PdgCode &p, const Digits &x, bool decimal) {
  unsigned h = 0;
  int dec = 0, pw = 1;
  for (int i = 0; i < 7; i++) {
    h |= x.d[i] << (4 * i);
    if (i > 0) dec += x.d[i] * pw;
    pw *= 10;
  }
  const int sgn = x.neg ? -1 : 1;
  CHECK(p.code() == sgn * static_cast<int>(h));
  CHECK(p.dump() == (h | (x.neg ? 0x80000000u : 0u)));
  CHECK(p.antiparticle_sign() == sgn);
  CHECK(p.is_nucleus() == false);
  if (!decimal) return;
  const int J = x.d[0];
  const int got = p.get_decimal();
  if (J > 9)
    dec += 9 + 10000000 * (J - 9);
  else
    dec += J;
  if (x.neg)
    CHECK(got == -dec);
  else
    CHECK(got == dec);
}
ENTRY(c05_hex) {
  int c = sx_i32("code");
  sx_assume((c > -0x10000000) & (c < 0x10000000));
  Digits x;
  x.neg = c < 0;
  unsigned a = x.neg ? -c : c;
  for (int i = 0; i < 7; i++) x.d[i] = (a >> (4 * i)) & 15;
  bool ok = true, ok2 = true, ok3 = true;
  try {
    PdgCode p(c);
    check_fields(p, x, true);
    CHECK(PdgCode(p.dump()) == p);
    sx_reach("accepted");
    if (p.is_hadron()) sx_reach("hadron");
    if (p.is_lepton()) sx_reach("lepton");
  } catch (PdgCode::InvalidPdgCode &) {
    ok = false;
    sx_reach("rejected");
  }
  CHECK(ok == valid(x));
  (void)ok2;
  (void)ok3;
}
ENTRY(c05_decimal) {
  int d = sx_i32("decimal");
  sx_assume((d >= -top_decimal) & (d <= top_decimal));
  Digits x;
  x.neg = d < 0;
  unsigned a = x.neg ? -d : d;
  for (int i = 0; i < 7; i++) {
    x.d[i] = a % 10;
    a /= 10;
  }
  bool ok = true;
  try {
    PdgCode p = PdgCode::from_decimal(d);
    CHECK(p.get_decimal() == d);
    CHECK(p.antiparticle_sign() == (x.neg ? -1 : 1));
    CHECK(((p.dump() >> 4) & 15) == x.d[1]);
    CHECK(((p.dump() >> 12) & 15) == x.d[3]);
    sx_reach("accepted");
  } catch (PdgCode::InvalidPdgCode &) {
    ok = false;
    sx_reach("rejected");
  }
  CHECK(ok == valid(x));
}
static unsigned digit_of(unsigned char b) {
  const unsigned dec = (unsigned)b - 48, up = (unsigned)b - 65, lo = (unsigned)b - 97;
  return dec < 10 ? dec : up < 6 ? up + 10 : lo < 6 ? lo + 10 : 99u;
}
ENTRY(c05_string) {
  const int n = sx_choose(1, 8, "len");
  const int sgn = sx_choose(0, 2, "sign");
  std::string s;
  if (sgn == 1) s += '+';
  if (sgn == 2) s += '-';
  unsigned dig[8];
  const int wild = sx_choose(0, n - 1, "wild");
  for (int i = 0; i < n; i++) {
    unsigned char b = sx_u8("b");
    if (i != wild) sx_assume((b >= '0') & (b <= '9'));
    // an unsigned text does not start with a sign itself
    if (i == 0 && sgn == 0) sx_assume((b != '+') & (b != '-'));
    s += static_cast<char>(b);
    dig[n - 1 - i] = digit_of(b);
  }
  Digits x;
  x.neg = sgn == 2;
  bool wf = true;
  for (int i = 0; i < n; i++) wf &= dig[i] != 99u;
  for (int i = 0; i < 7; i++) x.d[i] = i < n ? dig[i] : 0;
  if (n == 8) {
    x.d[0] += dig[7];
  }
  bool ok = true;
  try {
    PdgCode p(s);
    CHECK(wf);
    check_fields(p, x, false);
    if ((n == 8) & (x.d[0] > 9)) sx_reach("highspin");
    if ((n < 8) & (x.d[0] > 9)) sx_reach("hexj");
    sx_reach("accepted");
  } catch (PdgCode::InvalidPdgCode &) {
    ok = false;
    sx_reach("rejected");
  }
  CHECK(ok == (wf && valid(x)));
}
ENTRY(c05_nucleus) {
  const int sgn = sx_choose(0, 2, "sign");
  std::string s;
  if (sgn == 1) s += '+';
  if (sgn == 2) s += '-';
  int dig[10];
  bool wf = true;
  const int wild = sx_choose(0, 9, "wild");
  for (int i = 0; i < 10; i++) {
    unsigned char b = sx_u8("b");
    if (i != wild) sx_assume((b >= '0') & (b <= '9'));
    if (i == 0 && sgn == 0) sx_assume((b != '+') & (b != '-'));
    s += static_cast<char>(b);
    wf &= (b >= '0') & (b <= '9');
    dig[i] = b - 48;
  }
  wf &= (dig[0] == 1) & (dig[1] == 0);
  bool ok = true;
  try {
    PdgCode p(s);
    CHECK(wf);
    CHECK(p.is_nucleus());
    CHECK(p.antiparticle_sign() == (sgn == 2 ? -1 : 1));
    CHECK((sgn == 2 ? p.nucleus_ap() : p.nucleus_p()) == 100 * dig[3] + 10 * dig[4] + dig[5]);
    CHECK((sgn == 2 ? p.nucleus_aLa() : p.nucleus_La()) == dig[2]);
    CHECK(p.nucleus_.I_ == dig[9]);
    CHECK(p.nucleus_A() == 100 * dig[6] + 10 * dig[7] + dig[8]);
    CHECK(!p.is_hadron() & !p.is_lepton());
    sx_reach("accepted");
  } catch (PdgCode::InvalidPdgCode &) {
    ok = false;
    sx_reach("rejected");
  }
  CHECK(ok == wf);
}
ENTRY(c05_nucleus_decimal) {
  // every content of the nucleus fields whose digits are decimal
  const unsigned raw = sx_i32("fields") & 0x3fffffff;
  const int L = raw & 63, Z = (raw >> 6) & 1023, A = (raw >> 16) & 1023, I = raw >> 26;
  sx_assume((L <= 9) & (Z <= 999) & (A <= 999) & (I <= 9));
  PdgCode p;
  p.dump_ = raw | 0x40000000u;
  const bool anti = sx_bool("anti");
  if (anti) p = p.get_antiparticle();
  const int dec = 1000000000 + L * 10000000 + Z * 10000 + A * 10 + I;
  if (anti)
    CHECK(p.get_decimal() == -dec);
  else
    CHECK(p.get_decimal() == dec);
  sx_reach("done");
}
ENTRY(c05_decimal_digits) {
  int d = sx_i32("decimal");
  sx_assume((d >= -top_decimal) & (d <= top_decimal));
  try {
    PdgCode p = PdgCode::from_decimal(d);
    int a = d;
    for (int i = 0; i < 7; i++) {
      const int q = a % 10;
      CHECK(((p.dump() >> (4 * i)) & 15) == (unsigned)(d < 0 ? -q : q));
      a /= 10;
    }
    sx_reach("accepted");
  } catch (PdgCode::InvalidPdgCode &) {
    sx_reach("rejected");
  }
}
ENTRY(c05_order) {
  int c[3];
  PdgCode p[3];
  for (int i = 0; i < 3; i++) {
    c[i] = sx_i32("code");
    sx_assume((c[i] > -0x10000000) & (c[i] < 0x10000000));
    p[i].dump_ = (c[i] < 0 ? (0x80000000u | -c[i]) : c[i]);
  }
  CHECK((p[0] == p[1]) == (c[0] == c[1]));
  CHECK((p[0] != p[1]) == (c[0] != c[1]));
  CHECK(!(p[0] < p[0]));
  CHECK((int)(p[0] < p[1]) + (int)(p[1] < p[0]) + (int)(p[0] == p[1]) == 1);
  CHECK(!((p[0] < p[1]) & (p[1] < p[2])) | (p[0] < p[2]));
  sx_reach("done");
}
