// Crossing of the hypersurface of constant proper time.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc action.cc quantumnumbers.cc hypersurfacecrossingfinder.cc fluidizationaction.cc
// @entry c17_cross real reach=crosses,stays time=100 ab=30 --fork-select
// @entry c17_frozen real reach=crosses,stays time=100 ab=30 --fork-select
// @entry c17_cuts real reach=inside,outside time=100 ab=30 --fork-select
// @entry c17_perform real reach=removed,kept time=60
// @bound one particle (plus a second one for bookkeeping) at any position with any velocity below light, any start time in [-10, 100] fm, any step in (0, 20] fm, any proper time in [0.1, 20] fm, any cuts; initial nucleons with frozen Fermi motion at any beam velocity
// @assume doubles are encoded as reals (rounding abstracted); the inverse hyperbolic tangent is a monotone function
#include "sx.h"
#include "smash_env.h"
#include "mock_action.h"
#include "smash/fluidizationaction.h"
#include "smash/hypersurfacecrossingfinder.h"
using namespace smash;
static const PdgCode kPi(0x111);
static double tau, dt;
// momentum with arbitrary velocity
static FourVector symmom(const char *n) {
  const double e = sx_range(n, 0.05, 100), vx = sx_range(n, -1, 1), vy = sx_range(n, -1, 1), vz = sx_range(n, -0.999999, 0.999999);
  return FourVector(e, vx * e, vy * e, vz * e);
}
static ParticleData sym() {
  ParticleData p = sx_particle(kPi, 0);
  p.set_4momentum(symmom("mom"));
  p.set_4position(FourVector(sx_range("t", -10, 100), sx_range("x", -100, 100), sx_range("y", -100, 100), sx_range("z", -100, 100)));
  return p;
}
static void setup() {
  sx_add_type("pi", 0.138, 0., kPi);
  sx_types_done();
  tau = sx_range("tau", 0.1, 20);
  dt = sx_range("dt", 0.001, 20);
}
// is (t, z) on or after the hypersurface (in its future), or strictly after it
static bool reached(double t, double z, bool strictly) {
  const double s = t * t - z * z;
  return (t > 0) & (t > z) & (t > -z) & (strictly ? s > tau * tau : s >= tau * tau);
}
static void judge(const ParticleData &p, const FourVector &m, const ActionList &acts) {
  const double t0 = p.position()[0], z0 = p.position()[3], vz = m[3] / m[0];
  const bool want = !reached(t0, z0, true) & reached(t0 + dt, z0 + vz * dt, false);
  CHECK(acts.size() == (want ? 1u : 0u));
  if (acts.empty()) { sx_reach("stays"); return; }
  const Action &a = *acts[0];
  const double t = a.time_of_execution();
  // Being on the forward hyperbola and on the (timelike) trajectory fixes the time uniquely, so it
  // lies within the step because "want" says the hyperbola is crossed within the step.
  CHECK((a.incoming_particles().size() == 1) & (a.outgoing_particles().size() == 1));
  const FourVector x = a.outgoing_particles()[0].position();
  CHECK(a.outgoing_particles()[0].id() == p.id());
  CLOSE(x[0], t);
  CHECK(x[0] > 0);
  CLOSE(x[0] * x[0] - x[3] * x[3], tau * tau);
  for (int i = 1; i < 4; i++) CLOSE((x[i] - p.position()[i]) * m[0], m[i] * (t - t0));
  for (int i = 0; i < 4; i++) CHECK(a.outgoing_particles()[0].momentum()[i] == p.momentum()[i]);
  sx_reach("crosses");
}
ENTRY(c17_cross) {
  setup();
  const ParticleData p = sym();
  HyperSurfaceCrossActionsFinder f(tau, 0., 0.);
  judge(p, p.momentum(), f.find_actions_in_cell({p}, dt, 1., {}));
}
ENTRY(c17_frozen) {
  setup();
  ParticleData p = sym();
  const bool collided = sx_choose(0, 1, "collided");
  HistoryData h;
  h.collisions_per_particle = collided;
  p.set_history(std::move(h));
  const FourVector beam = symmom("beam");
  HyperSurfaceCrossActionsFinder f(tau, 0., 0.);
  judge(p, collided ? p.momentum() : beam, f.find_actions_in_cell({p}, dt, 1., {beam}));
}
ENTRY(c17_cuts) {
  setup();
  ParticleData p = sx_particle(kPi, 0);
  p.set_4momentum(symmom("mom"));
  p.set_4position(FourVector(0, 1, 2, 0));
  sx_assume(dt > 10 * tau);  // crosses certainly when it is slow along the beam
  sx_assume((p.momentum()[3] <= 0.5 * p.momentum()[0]) & (p.momentum()[3] >= -0.5 * p.momentum()[0]));
  double y = sx_range("ycut", 0, 5), pt = sx_range("ptcut", 0, 50);
  ParticleData core = p;
  core.fluidize();
  HyperSurfaceCrossActionsFinder f(tau, y, pt);
  const ActionList acts = f.find_actions_in_cell({core, p}, dt, 1., {});
  const FourVector m = p.momentum();
  const double rap = std::atanh(m[3] / m[0]);
  const bool in = (y == 0 || ((rap <= y) & (rap >= -y))) && (pt == 0 || (m[1] * m[1] + m[2] * m[2] <= pt * pt));
  CHECK(acts.size() == (in ? 1u : 0u));
  if (in) sx_reach("inside"); else sx_reach("outside");
}
ENTRY(c17_perform) {
  setup();
  Particles store;
  store.insert(sym());
  store.insert(sym());
  const ParticleList before = store.copy_to_vector();
  const bool remove = sx_choose(0, 1, "remove");
  FluidizationAction::remove_particle_ = remove;
  ParticleData out = before[0];
  FluidizationAction a(before[0], out, 0.5);
  a.generate_final_state();
  a.perform(&store, 5);
  CHECK(store.size() == (remove ? 1u : 2u));
  for (const auto &p : store) {
    const bool first = p.id() == before[0].id();
    if (remove) CHECK(!first);
    CHECK(p.is_core() == (first & !remove));
    for (int i = 0; i < 4; i++) CHECK(p.momentum()[i] == before[first ? 0 : 1].momentum()[i]);
  }
  if (remove) sx_reach("removed"); else sx_reach("kept");
}
