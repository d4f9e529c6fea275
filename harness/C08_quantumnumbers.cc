// Total quantum numbers: additivity, order independence, detection of deviations.
// @src pdgcode.cc particles.cc particledata.cc quantumnumbers.cc fourvector.cc threevector.cc
// @prep --merge
// @entry c08_sum real reach=done time=200
// @entry c08_store real reach=done time=200
// @entry c08_detect real reach=same,momentum,charge,other time=200
// @entry c08_detect_all real reach=same,differ time=200
// @entry c08_difference real reach=done
// @bound sets of 3 particles drawn from ten species covering every flavour and both signs of every quantum number, all real momenta; totals with |value| <= 10^6
// @assume doubles are encoded as reals (rounding abstracted)
#include "sx.h"
#include "smash_env.h"
#include "smash/quantumnumbers.h"
using namespace smash;
static const int kCodes[] = {0x211, -0x211, 0x2212, -0x2212, 0x3122, -0x3312, 0x411, 0x511, 0x2224, 0x321, 0x22};
static void setup() {
  for (int c : {0x211, 0x2212, 0x3122, 0x3312, 0x411, 0x511, 0x2224, 0x321, 0x22}) sx_add_type("t", 1., 0., PdgCode(c));
  sx_types_done();
}
static FourVector mom(const char *n) {
  FourVector v;
  for (int i = 0; i < 4; i++) v[i] = sx_range(n, -1e6, 1e6);
  return v;
}
struct Ref { FourVector p; int q = 0, i3 = 0, s = 0, c = 0, b = 0, B = 0; };
static void add(Ref &r, const FourVector &p, PdgCode c) {
  for (int i = 0; i < 4; i++) r.p[i] += p[i];
  r.q += c.charge(); r.i3 += c.isospin3(); r.s += c.strangeness(); r.c += c.charmness(); r.b += c.bottomness(); r.B += c.baryon_number();
}
static void agree(const QuantumNumbers &x, const Ref &r) {
  for (int i = 0; i < 4; i++) CLOSE(x.momentum()[i], r.p[i]);
  CHECK(x.charge() == r.q); CHECK(x.isospin3() == r.i3); CHECK(x.strangeness() == r.s);
  CHECK(x.charmness() == r.c); CHECK(x.bottomness() == r.b); CHECK(x.baryon_number() == r.B);
}
static ParticleData pick(Ref &r) {
  PdgCode c(kCodes[sx_choose(0, 10, "species")]);
  ParticleData p = sx_particle(c);
  p.set_4momentum(mom("p"));
  add(r, p.momentum(), c);
  return p;
}
ENTRY(c08_sum) {
  setup();
  Ref r;
  ParticleList l;
  const int n = sx_choose(0, 3, "n");
  for (int i = 0; i < n; i++) l.push_back(pick(r));
  QuantumNumbers q(l);
  agree(q, r);
  ParticleList rev(l.rbegin(), l.rend());
  agree(QuantumNumbers(rev), r);
  CHECK(QuantumNumbers(rev) == q);
  sx_reach("done");
}
ENTRY(c08_store) {
  setup();
  Ref r;
  std::vector<Particles> ens(2);
  int k = sx_choose(0, 2, "in_first");
  Ref first;
  ParticleData last = pick(r);
  first = r;
  ens[0].insert(last);
  ParticleData second = pick(r);
  ens[k != 0].insert(second);
  if (k == 0) first = r;
  if (k == 2) ens[0].remove(ens[0].front()), agree(QuantumNumbers(ens[0]), Ref());
  else {
    agree(QuantumNumbers(ens[0]), first);
    agree(QuantumNumbers(ens), r);
    CHECK(QuantumNumbers(ens).report_deviations(ens).empty());
  }
  sx_reach("done");
}
static QuantumNumbers sym(FourVector &p, int *v, const char *n) {
  p = mom("p");
  for (int i = 0; i < 6; i++) v[i] = sx_int(n, -1000000, 1000000);
  return {p, v[0], v[1], v[2], v[3], v[4], v[5]};
}
static bool has(const std::string &s, const char *w) { return s.find(w) != std::string::npos; }
ENTRY(c08_detect) {
  FourVector pa;
  int a[6];
  QuantumNumbers x = sym(pa, a, "a");
  const int which = sx_choose(-1, 9, "changed");
  FourVector pb = pa;
  int b[6];
  for (int i = 0; i < 6; i++) b[i] = a[i];
  if (which >= 6) {
    // anything beyond the documented tolerance (1e-6 absolute and 1e-4 relative) counts
    const double d = sx_range("d", -1e6, 1e6), A = std::abs(pa[which - 6]), D = std::abs(d), M = std::max(A, std::abs(pa[which - 6] + d));
    sx_assume((D > 1.1e-4) & (D > 1.1e-4 * M));
    pb[which - 6] += d;
  } else if (which >= 0) {
    b[which] = sx_int("b", -1000000, 1000000);
    sx_assume(b[which] != a[which]);
  }
  QuantumNumbers y(pb, b[0], b[1], b[2], b[3], b[4], b[5]);
  const std::string r = x.report_deviations(y);
  if (which < 0) {
    CHECK(x == y); CHECK(!(x != y)); CHECK(r.empty());
    sx_reach("same");
    return;
  }
  CHECK(!(x == y)); CHECK(x != y);
  CHECK(!(y == x));
  const char *const names[] = {"Charge", "Isospin 3", "Strangeness", "Charmness", "Bottomness", "Baryon Number"};
  for (int i = 0; i < 6; i++) CHECK(has(r, names[i]) == (i == which));
  CHECK(has(r, "Momentum") == (which >= 6));
  CHECK(has(r, "P_0") == (which == 6)); CHECK(has(r, "P_1") == (which == 7)); CHECK(has(r, "P_2") == (which == 8)); CHECK(has(r, "P_3") == (which == 9));
  sx_reach(which >= 6 ? "momentum" : which == 0 ? "charge" : "other");
}
// Several quantum numbers off at the same time are all reported.
ENTRY(c08_detect_all) {
  FourVector p;
  int a[6], b[6];
  QuantumNumbers x = sym(p, a, "a");
  bool same = true;
  for (int i = 0; i < 6; i++) {
    b[i] = sx_int("b", -1000000, 1000000);
    same = same & (a[i] == b[i]);
  }
  QuantumNumbers y(p, b[0], b[1], b[2], b[3], b[4], b[5]);
  CHECK((x == y) == same);
  CHECK((x != y) == !same);
  const std::string r = x.report_deviations(y);
  CHECK(r.empty() == same);
  const char *const names[] = {"Charge", "Isospin 3", "Strangeness", "Charmness", "Bottomness", "Baryon Number"};
  for (int i = 0; i < 6; i++) CHECK(has(r, names[i]) == (a[i] != b[i]));
  sx_reach(same ? "same" : "differ");
}
ENTRY(c08_difference) {
  FourVector pa, pb;
  int a[6], b[6];
  QuantumNumbers x = sym(pa, a, "a"), y = sym(pb, b, "b"), d = x - y;
  for (int i = 0; i < 4; i++) CLOSE(d.momentum()[i], pa[i] - pb[i]);
  CHECK(d.charge() == a[0] - b[0]); CHECK(d.isospin3() == a[1] - b[1]); CHECK(d.strangeness() == a[2] - b[2]);
  CHECK(d.charmness() == a[3] - b[3]); CHECK(d.bottomness() == a[4] - b[4]); CHECK(d.baryon_number() == a[5] - b[5]);
  sx_reach("done");
}
