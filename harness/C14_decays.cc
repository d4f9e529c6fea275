// Decays are found once per unstable particle, within the time step.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc action.cc processbranch.cc decayaction.cc decayactionsfinder.cc stringfunctions.cc
// @entry c14_single real reach=decays,later,cannot,initial time=250
// @entry c14_list real reach=done time=250
// @entry c14_final real reach=done time=100
// @entry c14_perform real reach=done time=200
// @bound up to 3 particles of 4 species (stable, unstable with up to two channels of any mass-dependent width in [0, 10] GeV, one of them into dileptons), any momentum (mass in [0.3, 5] GeV, energy in [m, 20] GeV), position, formation state, draw, step and lifetime factor
// @assume doubles are encoded as reals (rounding abstracted); the logarithm of the draw enters as any non-negative lifetime with its defining inequality
#include "sx.h"
#include "smash_env.h"
#include "smash/decayaction.h"
#include "smash/decayactionsfinder.h"
#include "smash/decaymodes.h"
namespace smash {
Potentials *pot_pointer = nullptr;
RectangularLattice<FourVector> *UB_lat_pointer = nullptr, *UI3_lat_pointer = nullptr;
std::vector<DecayModes> *DecayModes::all_decay_modes = nullptr;
}
using namespace smash;
static const PdgCode kPi(0x211), kRho(0x113), kStable(0x223), kE(0x11);
// A decay whose width at the actual mass is whatever the harness says.
struct Channel : DecayType {
  Channel(ParticleTypePtrList l, double w, bool dil) : DecayType(l, 1), w_(w), dil_(dil) {}
  unsigned int particle_number() const override { return 2; }
  bool has_particles(ParticleTypePtrList) const override { return true; }
  double width(double, double, double) const override { return w_; }
  double in_width(double, double, double, double, double) const override { return w_; }
  bool is_dilepton_decay() const override { return dil_; }
  double w_;
  bool dil_;
};
static double W[2];
static Channel *hadronic_channel;
static void setup() {
  sx_add_type("pi", 0.138, 0., kPi);
  sx_add_type("e", 0.0005, 0., kE);
  sx_add_type("omega", 0.783, 1e-6, kStable);
  sx_add_type("rho", 0.776, 0.149, kRho);
  sx_types_done();
  static std::vector<DecayModes> modes(ParticleType::list_all().size());
  DecayModes::all_decay_modes = &modes;
  const ParticleTypePtr pi = &ParticleType::find(kPi), an = &ParticleType::find(kPi.get_antiparticle()), e = &ParticleType::find(kE), ae = &ParticleType::find(kE.get_antiparticle());
  W[0] = sx_range("width", 0, 10);
  W[1] = sx_range("width", 0, 10);
  static Channel hadronic({pi, an}, W[0], false), dilepton({e, ae}, W[1], true), stable({pi, an}, 1e-6, false);
  hadronic_channel = &hadronic;
  for (size_t i = 0; i < modes.size(); i++) {
    const PdgCode c = ParticleType::list_all()[i].pdgcode();
    if (c == kRho) {
      modes[i].add_mode(std::make_unique<DecayBranch>(hadronic, 0.75));
      modes[i].add_mode(std::make_unique<DecayBranch>(dilepton, 0.25));
    } else if (c == kStable) modes[i].add_mode(std::make_unique<DecayBranch>(stable, 1.));
  }
}
static double t0, mass, energy;
static ParticleData particle(PdgCode c, int id) {
  ParticleData p = sx_particle(c, id);
  mass = sx_range("m", 0.3, 5);
  energy = sx_range("E", 0.3, 20);
  const double pz = std::sqrt(energy * energy - mass * mass);
  sx_assume(energy >= mass);
  p.set_4momentum(FourVector(energy, 0, 0, pz));
  p.set_4position(FourVector(t0, sx_range("x", -100, 100), sx_range("x", -100, 100), sx_range("x", -100, 100)));
  return p;
}
ENTRY(c14_single) {
  setup();
  t0 = sx_range("t0", -100, 100);
  const double dt = sx_range("dt", 0, 10), factor = sx_range("factor", 0, 100), u = sx_rand01();
  sx_rq[0] = u; sx_rq_n = 1;
  static const PdgCode kinds[] = {kRho, kStable, kPi};
  const int kind = sx_choose(0, 2, "species");
  ParticleData p = particle(kinds[kind], 7);
  double shift = 0;
  if (sx_choose(0, 1, "unformed")) {
    const double tf = sx_range("formed", -100, 100), f = sx_range("xsec", 0, 1);
    p.set_formation_time(tf);
    p.set_cross_section_scaling_factor(f);
    if (t0 < tf && f < 1) shift = tf - t0;
  }
  const bool collided = sx_choose(0, 1, "collided"), keep = sx_choose(0, 1, "keep_initial");
  if (collided) p.set_history(2, 1, ProcessType::Elastic, 0., ParticleList());
  const DecayActionsFinder finder(factor, true, true, SpinInteractionType::Off, !keep);
  const ActionList l = finder.find_actions_in_cell({p}, dt, 0., {});
  CHECK(l.size() <= 1);
  if (kind || !(W[0] > 0)) { CHECK(l.empty()); sx_reach("cannot"); return; }
  if (keep && !collided) { CHECK(l.empty()); sx_reach("initial"); return; }
  // the same draw for a particle of unit width at rest gives the time unit of the exponential law;
  // larger widths decay faster, the clock of a moving particle goes slower
  ParticleData ref = sx_particle(kRho, 8);
  ref.set_4momentum(FourVector(1, 0, 0, 0));
  ref.set_4position(FourVector(0, 0, 0, 0));
  hadronic_channel->w_ = 1;
  sx_rq_i = 0;
  sx_assume(-std::log(std::nextafter(u, 1.)) < 745);
  const ActionList lr = DecayActionsFinder(1., true, true).find_actions_in_cell({ref}, 1e9, 0., {});
  CHECK(lr.size() == 1);
  const double unit = lr[0]->time_of_execution();
  CHECK((unit >= 0) & (unit < 1e3));
  const double lifetime = factor * unit / W[0] * energy / mass;
  if (l.empty()) { CHECK(lifetime + shift > dt - 1e-6 * dt - 1e-6); sx_reach("later"); return; }
  CLOSE(l[0]->time_of_execution(), t0 + lifetime + shift);
  CHECK(l[0]->time_of_execution() >= t0 + shift);
  CHECK(l[0]->time_of_execution() < t0 + dt);
  CHECK(l[0]->incoming_particles().size() == 1 && l[0]->incoming_particles()[0].id() == 7);
  // only hadronic channels are decided upon
  CLOSE(l[0]->get_total_weight(), W[0]);
  sx_reach("decays");
}
// Every particle is considered once and on its own.
ENTRY(c14_list) {
  setup();
  t0 = 0;
  static const PdgCode kinds[] = {kRho, kStable, kPi};
  const double dt = 1e6;
  sx_assume(W[0] > 1e-3);
  ParticleList ps;
  const int n = sx_choose(0, 3, "n");
  int unstable = 0;
  for (int i = 0; i < n; i++) {
    const int k = sx_choose(0, 2, "species");
    unstable += k == 0;
    ParticleData p = sx_particle(kinds[k], 10 + i);
    p.set_4momentum(FourVector(2, 0, 0, 1));
    p.set_4position(FourVector(sx_range("t", 0, 100), 0, 0, 0));
    ps.push_back(p);
    sx_rq[i] = 0.5;
  }
  sx_rq_n = 3;
  const DecayActionsFinder finder(1., true, true);
  const ActionList l = finder.find_actions_in_cell(ps, dt, 0., {});
  CHECK(int(l.size()) == unstable);
  int j = 0;
  for (const auto &p : ps)
    if (p.pdgcode() == kRho) {
      CHECK(l[j]->incoming_particles()[0].id() == p.id());
      CHECK(l[j]->time_of_execution() >= p.position().x0());
      j++;
    }
  CHECK(finder.find_actions_with_neighbors(ps, ps, dt, {}).empty());
  sx_reach("done");
}
// At the end of the event everything that can decay does, if asked to.
ENTRY(c14_final) {
  setup();
  sx_assume(W[0] > 0);
  const bool weak = sx_choose(0, 1, "weak"), force = sx_choose(0, 1, "force");
  Particles ps;
  static const PdgCode kinds[] = {kRho, kStable, kPi};
  int expect = 0;
  const int n = sx_choose(0, 3, "n");
  for (int i = 0; i < n; i++) {
    const int k = sx_choose(0, 2, "species");
    ParticleData p = sx_particle(kinds[k]);
    p.set_4momentum(FourVector(2, 0, 0, 1));
    p.set_4position(FourVector(sx_range("t", 0, 100), 0, 0, 0));
    ps.insert(p);
    expect += k == 0 || (k == 1 && weak);
  }
  const DecayActionsFinder finder(1., weak, force);
  const ActionList l = finder.find_final_actions(ps);
  CHECK(int(l.size()) == (force ? expect : 0));
  for (const auto &a : l) {
    const ParticleData &p = a->incoming_particles()[0];
    CHECK(p.pdgcode() != kPi);
    CHECK(weak || p.pdgcode() == kRho);
    CLOSE(a->time_of_execution(), p.position().x0());
    if (p.pdgcode() == kRho) CLOSE(a->get_total_weight(), W[0] + W[1]);
  }
  sx_reach("done");
}
// Performing a decay: products start where and when the particle decayed.
ENTRY(c14_perform) {
  setup();
  sx_assume((W[0] > 0) & (W[1] > 0));
  t0 = sx_range("t0", -100, 100);
  ParticleData p = sx_particle(kRho, 0);
  const double v = sx_range("v", -0.9, 0.9), m = sx_range("m", 0.3, 5), g = 1 / std::sqrt(1 - v * v);
  p.set_4momentum(FourVector(m * g, 0, 0, m * g * v));
  p.set_4position(FourVector(t0, sx_range("x", -100, 100), sx_range("x", -100, 100), sx_range("x", -100, 100)));
  const double dt = sx_range("dt", 0, 10);
  DecayAction a(p, dt);
  DecayBranchList l = p.type().get_partial_widths(p.momentum(), ThreeVector(), WhichDecaymodes::Hadronic);
  CHECK(l.size() == 1);
  a.add_decays(std::move(l));
  a.generate_final_state();
  const ParticleList &out = a.outgoing_particles();
  CHECK(out.size() == 2);
  CHECK(out[0].pdgcode() == kPi && out[1].pdgcode() == kPi.get_antiparticle());
  const FourVector x = a.get_interaction_point();
  for (int i = 0; i < 2; i++) {
    CLOSE(out[i].formation_time(), t0 + dt);
    for (int k = 0; k < 4; k++) CLOSE(out[i].position()[k], p.position()[k]);
  }
  const FourVector sum = out[0].momentum() + out[1].momentum();
  for (int k = 0; k < 4; k++) { CLOSE(sum[k], p.momentum()[k]); CLOSE(x[k], p.position()[k] + dt * (k == 0 ? 1 : k == 3 ? v : 0)); }
  CLOSE(a.get_total_weight(), W[0]);
  CLOSE(a.get_partial_weight(), W[0]);
  sx_reach("done");
}
