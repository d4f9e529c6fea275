// Violations of conservation laws are reported for every process that has to obey them.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc action.cc quantumnumbers.cc processbranch.cc
// @entry c13_momentum real reach=accepted,reported time=200
// @entry c13_charges real reach=accepted,reported time=250
// @entry c13_perform real reach=accepted,reported time=150
// @bound one or two incoming and one to three outgoing particles, every process type, all real momenta in [-100, 100] GeV with any momentum deviation larger than the comparison tolerance (0.05 GeV), every combination of 14 species covering each flavour
// @assume doubles are encoded as reals (rounding abstracted)
#include "sx.h"
#include "smash_env.h"
#include "mock_action.h"
#include "smash/quantumnumbers.h"
using namespace smash;
static const int kCodes[] = {0x211, 0x111, 0x2212, 0x2112, -0x2112, 0x3122, 0x3212, 0x3312, 0x411, 0x421, 0x511, 0x321, 0x311, 0x22};
static const PdgCode kStable(0x221), kUnstable(0x113);
static void setup() {
  for (int c : {0x211, 0x111, 0x2212, 0x2112, 0x3122, 0x3212, 0x3312, 0x411, 0x421, 0x511, 0x321, 0x311, 0x22}) sx_add_type("t", 1., 0., PdgCode(c));
  sx_add_type("stable", 0.5, 1e-6, kStable);
  sx_add_type("unstable", 0.8, 0.1, kUnstable);
  sx_types_done();
}
static const ProcessType kMust[] = {ProcessType::Elastic, ProcessType::TwoToOne, ProcessType::TwoToTwo, ProcessType::TwoToThree, ProcessType::TwoToFour, ProcessType::TwoToFive,
                                    ProcessType::Wall, ProcessType::Thermalization, ProcessType::Bremsstrahlung, ProcessType::MultiParticleThreeMesonsToOne,
                                    ProcessType::MultiParticleThreeToTwo, ProcessType::MultiParticleFourToTwo, ProcessType::MultiParticleFiveToTwo, ProcessType::FailedString};
static const ProcessType kMay[] = {ProcessType::StringSoftSingleDiffractiveAX, ProcessType::StringSoftSingleDiffractiveXB, ProcessType::StringSoftDoubleDiffractive,
                                   ProcessType::StringSoftAnnihilation, ProcessType::StringSoftNonDiffractive, ProcessType::StringHard, ProcessType::Freeforall};
static FourVector sym4(const char *n) {
  FourVector v;
  for (int i = 0; i < 4; i++) v[i] = sx_range(n, -100, 100);
  return v;
}
static ParticleData part(int code, const FourVector &p) {
  ParticleData d = sx_particle(PdgCode(code));
  d.set_4momentum(p);
  return d;
}
static int charges(const ParticleList &l, int which) {
  int r = 0;
  for (const auto &p : l) {
    const PdgCode c = p.pdgcode();
    r += which == 0 ? c.charge() : which == 1 ? c.baryon_number() : which == 2 ? c.strangeness() : which == 3 ? c.charmness() : which == 4 ? c.bottomness() : c.isospin3();
  }
  return r;
}
static bool check(Action &a, unsigned id, double &viol) {
  try { viol = a.check_conservation(id); } catch (std::runtime_error &) { return true; }
  return false;
}
// one momentum component off by an arbitrary amount
ENTRY(c13_momentum) {
  setup();
  const int kind = sx_choose(0, 3, "kind");
  ParticleList in{part(0x2212, sym4("p1")), part(0x211, sym4("p2"))};
  const bool one = sx_choose(0, 1, "one") == 1;
  ProcessType type = ProcessType::TwoToTwo;
  if (kind == 0) type = kMust[sx_choose(0, 13, "must")];
  if (kind == 1) type = kMay[sx_choose(0, 6, "may")];
  if (kind >= 2) type = ProcessType::Decay;
  if (kind == 2) in = {part(0x113, sym4("p"))};
  if (kind == 3) in = {part(0x221, sym4("p"))};
  FourVector tot;
  for (const auto &p : in) tot += p.momentum();
  ParticleList out;
  if (kind <= 1) {
    if (one) out = {part(0x211, tot), part(0x2212, FourVector())};
    else { const FourVector q = sym4("q"); out = {part(0x2212, tot - q), part(0x211, q)}; }
  } else {
    const FourVector q = sym4("q");
    out = {part(0x211, tot - q), part(-0x211, q)};
  }
  MockAction a(in, out, 0., type);
  const unsigned id = sx_choose(0, 1, "photon") ? ID_PROCESS_PHOTON : 5u;
  double viol = 1;
  CHECK(!check(a, id, viol) & (viol == 0.));
  CHECK((sx_log_count[einhard::ERROR] == 0) & (sx_log_count[einhard::WARN] == 0));
  sx_reach("accepted");
  const int comp = sx_choose(0, 3, "component");
  const double d = sx_range("d", -100, 100);
  sx_assume((d > 0.05) | (d < -0.05));
  FourVector m = out[0].momentum();
  m[comp] += d;
  out[0].set_4momentum(m);
  MockAction b(in, out, 0., type);
  const bool thrown = check(b, id, viol);
  if (kind == 0 || kind == 2) {
    CHECK(thrown);
    CHECK(sx_log_count[einhard::ERROR] == 1);
    sx_reach("reported");
  } else {
    CHECK(!thrown);
    CHECK(sx_log_count[einhard::ERROR] == 0);
    if (kind == 3 || type != ProcessType::Freeforall) CHECK(sx_log_count[einhard::WARN] == 1);
    if (kind == 1 && type != ProcessType::Freeforall) CLOSE(viol, comp == 0 ? d : 0.);
  }
}
// any species with momenta that balance
ENTRY(c13_charges) {
  setup();
  const ParticleList in{part(kCodes[sx_choose(0, 13, "a")], FourVector(sx_range("e", 1, 100), 0, 0, 1.)), part(0x2112, FourVector(3, 0, 0, -1.))};
  ParticleList out{part(kCodes[sx_choose(0, 13, "b")], FourVector(2, 1, 0, 0.)), part(sx_choose(0, 1, "c") ? -0x3312 : 0x2112, FourVector(in[0].momentum().x0() + 1, -1, 0, 0.))};
  MockAction a(in, out, 0., ProcessType::TwoToTwo);
  bool same = true;
  for (int i = 0; i < 6; i++) same &= charges(in, i) == charges(out, i);
  double viol = 1;
  const bool thrown = check(a, 5, viol);
  CHECK(thrown == !same);
  CHECK(sx_log_count[einhard::ERROR] == (same ? 0 : 1));
  if (same) sx_reach("accepted"); else sx_reach("reported");
}
// performing an action runs the check
ENTRY(c13_perform) {
  setup();
  Particles store;
  for (int i = 0; i < 2; i++) store.insert(part(i ? 0x211 : 0x2212, sym4("p")));
  const ParticleList in = store.copy_to_vector();
  const FourVector tot = in[0].momentum() + in[1].momentum();
  const bool swap = sx_choose(0, 1, "species");
  const double d = sx_range("d", -100, 100);
  sx_assume((d > 0.05) | (d < -0.05) | (d == 0));
  const int n = sx_choose(0, 1, "n");
  ParticleList out{part(swap ? 0x2112 : 0x2212, tot + FourVector(0, 0, d, 0) - in[1].momentum()), part(0x211, in[1].momentum())};
  if (n) out.push_back(part(0x111, FourVector(0, 0, 0, 0)));
  MockAction a(in, out, 1., ProcessType::TwoToThree);
  bool thrown = false;
  try { a.perform(&store, 3); } catch (std::runtime_error &) { thrown = true; }
  CHECK(thrown == (swap | (d != 0)));
  if (thrown) sx_reach("reported"); else sx_reach("accepted");
}
