// Free propagation, backpropagation and expansion of space-time.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc propagation.cc
// @entry c16_forward real reach=done,late time=100
// @entry c16_compose real reach=done time=100
// @entry c16_backward real reach=done time=100
// @entry c16_expand real reach=done time=150 ab=30 --fork-select
// @entry c16_hubble real reach=done time=60
// @bound lists of two particles (one of them possibly an initial nucleon with frozen Fermi motion, as beam momentum list or by history), all positions, momenta with any subluminal velocity and times in [-1000, 1000] fm; every expansion mode with b in [0, 10]
// @assume doubles are encoded as reals (rounding abstracted)
#include "sx.h"
#include "smash_env.h"
#include "smash/experimentparameters.h"
#include "smash/propagation.h"
using namespace smash;
static const PdgCode kPi(0x111), kP(0x2212);
static double mp;
static void setup() {
  sx_add_type("pi", 0.138, 0., kPi);
  mp = sx_range("mp", 0.1, 5);
  sx_add_type("p", mp, 0., kP);
  sx_types_done();
}
static FourVector sym4(const char *n) {
  FourVector v;
  for (int i = 0; i < 4; i++) v[i] = sx_range(n, -1e3, 1e3);
  return v;
}
static ParticleData sym(PdgCode c) {
  ParticleData p = sx_particle(c);
  FourVector m = sym4("mom");
  sx_assume(m[0] > 0.01);
  p.set_4momentum(m);
  p.set_4position(sym4("pos"));
  HistoryData h;
  h.collisions_per_particle = sx_choose(0, 1, "collided");
  h.id_process = 4;
  p.set_history(std::move(h));
  p.set_formation_time(sx_range("form", -1e3, 1e3));
  p.set_cross_section_scaling_factor(sx_range("sc", 0, 1));
  return p;
}
static void same_but_position(const ParticleData &a, const ParticleData &b) {
  for (int i = 0; i < 4; i++) CHECK(a.momentum()[i] == b.momentum()[i]);
  CHECK((a.id() == b.id()) & (a.pdgcode() == b.pdgcode()));
  CHECK((a.id_process() == b.id_process()) & (a.get_history().collisions_per_particle == b.get_history().collisions_per_particle));
}
ENTRY(c16_forward) {
  setup();
  Particles store;
  store.insert(sym(kPi));
  store.insert(sym(kP));
  const ParticleList before = store.copy_to_vector();
  const double to = sx_range("to", -1e3, 1e3);
  const bool late = (before[0].position().x0() > to) | (before[1].position().x0() > to);
  std::vector<FourVector> beam;
  const int nbeam = sx_choose(0, 2, "nbeam");
  for (int i = 0; i < nbeam; i++) {
    beam.push_back(sym4("beam"));
    sx_assume(beam[i][0] > 0.01);
  }
  const double dt = propagate_straight_line(&store, to, beam);
  CHECK(store.size() == 2);
  int k = 0;
  for (const auto &p : store) {
    const ParticleData &b = before[k];
    same_but_position(p, b);
    CHECK(p.formation_time() == b.formation_time());
    CHECK(p.initial_xsec_scaling_factor() == b.initial_xsec_scaling_factor());
    CHECK(p.position()[0] == to);
    const bool frozen = k < nbeam && b.get_history().collisions_per_particle == 0;
    const FourVector &m = frozen ? beam[k] : b.momentum();
    for (int i = 1; i < 4; i++) CLOSE((p.position()[i] - b.position()[i]) * m[0], m[i] * (to - b.position()[0]));
    k++;
  }
  CHECK(k == 2);
  CLOSE(dt, to - before[1].position().x0());
  if (late) { CHECK(sx_log_count[einhard::ERROR] == 1); sx_reach("late"); }
  else { CHECK(sx_log_count[einhard::ERROR] == 0); sx_reach("done"); }
}
// stopping on the way makes no difference
ENTRY(c16_compose) {
  setup();
  Particles one, two;
  const ParticleData p = sym(kP);
  one.insert(p);
  two.insert(p);
  const double mid = sx_range("mid", -1e3, 1e3), to = sx_range("to", -1e3, 1e3);
  sx_assume((mid >= p.position().x0()) & (to >= mid));
  propagate_straight_line(&one, to, {});
  propagate_straight_line(&two, mid, {});
  propagate_straight_line(&two, to, {});
  for (int i = 0; i < 4; i++) CLOSE(one.front().position()[i], two.front().position()[i]);
  sx_reach("done");
}
ENTRY(c16_backward) {
  setup();
  Particles store;
  store.insert(sym(kPi));
  store.insert(sym(kP));
  const ParticleList before = store.copy_to_vector();
  const double to = sx_range("to", -1e3, 1e3);
  sx_assume((to <= before[0].position().x0()) & (to <= before[1].position().x0()));
  backpropagate_straight_line(&store, to);
  int k = 0;
  for (const auto &p : store) {
    const ParticleData &b = before[k++];
    same_but_position(p, b);
    CHECK(p.position()[0] == to);
    for (int i = 1; i < 4; i++) CLOSE((p.position()[i] - b.position()[i]) * b.momentum()[0], b.momentum()[i] * (to - b.position()[0]));
    // not interacting before the time it was given for
    CHECK(p.formation_time() == b.position()[0]);
    CHECK(p.initial_xsec_scaling_factor() == 0.);
  }
  CHECK(k == 2);
  CHECK(sx_log_count[einhard::ERROR] == 0);
  sx_reach("done");
}
static const ExpansionMode kModes[] = {ExpansionMode::NoExpansion, ExpansionMode::MasslessFRW, ExpansionMode::MassiveFRW, ExpansionMode::Exponential};
ENTRY(c16_expand) {
  setup();
  const double b = sx_range("b", 0, 10), t = sx_range("t", 0, 1e3), dt = sx_range("dt", 0.001, 1);
  const ExpansionMode mode = kModes[sx_choose(0, 3, "mode")];
  struct TestClock : public Clock {
    double t, dt;
    double current_time() const override { return t; }
    double next_time() const override { return t + dt; }
    double timestep_duration() const override { return dt; }
    void reset(double, bool) override {}
    void remove_times_in_past(double) override {}
    double present_internal_time() const override { return t; }
  };
  ExperimentParameters par{};
  auto clk = std::make_unique<TestClock>();
  clk->t = t; clk->dt = dt;
  par.labclock = std::move(clk);
  Particles store;
  store.insert(sym(kP));
  store.insert(sym(kPi));
  const ParticleList before = store.copy_to_vector();
  const ExpansionProperties metric(mode, b);
  expand_space_time(&store, par, metric);
  const double h = calc_hubble(t, metric);
  int k = 0;
  for (const auto &p : store) {
    const ParticleData &o = before[k++];
    const double m = p.type().mass();
    CHECK((p.id() == o.id()) & (p.pdgcode() == o.pdgcode()));
    CHECK(p.position()[0] == o.position()[0]);
    double p2 = 0;
    for (int i = 1; i < 4; i++) {
      CLOSE(p.momentum()[i], o.momentum()[i] * (1 - h * dt));
      CLOSE(p.position()[i], o.position()[i] * (1 + h * dt));
      p2 += p.momentum()[i] * p.momentum()[i];
    }
    CHECK(p.momentum()[0] > 0);
    CLOSE(p.momentum()[0] * p.momentum()[0], m * m + p2);
  }
  CHECK(k == 2);
  par.labclock.reset();
  sx_reach("done");
}
ENTRY(c16_hubble) {
  const double b = sx_range("b", 0, 10), t = sx_range("t", 0, 1e3);
  CHECK(calc_hubble(t, ExpansionProperties(ExpansionMode::NoExpansion, b)) == 0.);
  CLOSE(calc_hubble(t, ExpansionProperties(ExpansionMode::MasslessFRW, b)) * 2 * (b * t + 1), b);
  CLOSE(calc_hubble(t, ExpansionProperties(ExpansionMode::MassiveFRW, b)) * 3 * (b * t + 1), 2 * b);
  for (auto m : kModes) CHECK(calc_hubble(t, ExpansionProperties(m, b)) >= 0);
  CHECK(calc_hubble(t, ExpansionProperties(ExpansionMode::Exponential, 2 * b)) == 2 * calc_hubble(t, ExpansionProperties(ExpansionMode::Exponential, b)));
  sx_reach("done");
}
