// Sampled final states conserve four-momentum on the mass shell.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc action.cc quantumnumbers.cc decayaction.cc decaytype.cc processbranch.cc angles.cc
// @libs gsl gslcblas
// @entry c12_two_cm real reach=done time=60 ab=30 --fork-select
// @entry c12_three_cm real reach=done time=90 ab=30 --fork-select
// @entry c12_threshold real reach=done
// @entry c12_decay2 real reach=done time=90 ab=30 --fork-select
// @bound every pair / triple of stable masses in [0.001, 10], every total energy above threshold up to 100, every random draw (first accepted draw of the rejection loop); decaying particles at any position with any velocity
// @assume doubles are encoded as reals (rounding abstracted); sine and cosine are arbitrary values on the unit circle
#include "sx.h"
#include "smash_env.h"
#include "mock_action.h"
#include "smash/decayaction.h"
#include "smash/decaytype.h"
using namespace smash;
namespace smash { struct Potentials; Potentials *pot_pointer = nullptr; RectangularLattice<FourVector> *UB_lat_pointer = nullptr, *UI3_lat_pointer = nullptr; }
static const PdgCode kA(0x211), kB(0x2212), kC(0x22), kR(0x2224);
static double ma, mb, mc;
static void setup() {
  ma = sx_range("ma", 0.001, 10); mb = sx_range("mb", 0.001, 10); mc = sx_range("mc", 0.001, 10);
  sx_add_type("a", ma, 0., kA);
  sx_add_type("b", mb, 0., kB);
  sx_add_type("c", mc, 0., kC);
  sx_add_type("r", 1.232, 0.1, kR);
  sx_types_done();
}
ENTRY(c12_two_cm) {
  setup();
  const double E = sx_range("sqrts", 0.002, 100);
  sx_assume(E > ma + mb);
  ParticleData in = sx_particle(kR, 0);
  in.set_4momentum(FourVector(E, 0, 0, 0));
  MockAction a({in}, {sx_particle(kA), sx_particle(kB)}, 1., ProcessType::Decay);
  a.sample_2body_phasespace();
  const FourVector p = a.outgoing_particles()[0].momentum(), q = a.outgoing_particles()[1].momentum();
  for (int i = 1; i < 4; i++) CLOSE(p[i] + q[i], 0.);
  CLOSE(p[0] + q[0], E);
  CLOSE(p.sqr(), ma * ma);
  CLOSE(q.sqr(), mb * mb);
  CHECK((p[0] > 0) & (q[0] > 0));
  sx_reach("done");
}
ENTRY(c12_three_cm) {
  setup();
  const double E = sx_range("sqrts", 0.003, 100);
  // the first draw fixes the invariant mass of the first two particles, so make that the input
  const double M12 = sx_range("M12", 0.002, 100);
  sx_assume((M12 > ma + mb) & (M12 + mc < E) & (E > ma + mb + mc));
  sx_rq[0] = (M12 - (ma + mb)) / (E - (ma + mb + mc));
  sx_rq[1] = 0;  // acceptance draw: 0 accepts every configuration any other draw accepts
  sx_rq_n = 2;
  sx_rcap = 6;  // first round of the rejection loop
  std::vector<FourVector> p;
  Action::sample_manybody_phasespace_impl(E, {ma, mb, mc}, p);
  CHECK(p.size() == 3);
  CLOSE(p[0].sqr(), ma * ma);
  CLOSE(p[1].sqr(), mb * mb);
  CLOSE(p[2].sqr(), mc * mc);
  for (int i = 1; i < 4; i++) CLOSE(p[0][i] + p[1][i] + p[2][i], 0.);
  CLOSE(p[0][0] + p[1][0] + p[2][0], E);
  sx_reach("done");
}
ENTRY(c12_threshold) {
  setup();
  const double E = sx_range("sqrts", 0.001, 100);
  sx_assume(E <= ma + mb + mc);
  std::vector<FourVector> p;
  bool threw = false;
  try { Action::sample_manybody_phasespace_impl(E, {ma, mb, mc}, p); } catch (Action::StochasticBelowEnergyThreshold &) { threw = true; }
  CHECK(threw);
  sx_assume(E < ma + mb);
  ParticleData in = sx_particle(kR, 0);
  in.set_4momentum(FourVector(E, 0, 0, 0));
  threw = false;
  ParticleList l{in, in};
  DecayAction d(in, 0.);
  d.outgoing_particles_ = {sx_particle(kA), sx_particle(kB)};
  try { d.sample_2body_phasespace(); } catch (Action::InvalidResonanceFormation &) { threw = true; }
  CHECK(threw);
  sx_reach("done");
}
ENTRY(c12_decay2) {
  setup();
  ParticleData in = sx_particle(kR, 0);
  const double M = sx_range("M", 0.002, 100), px = sx_range("px", -100, 100), py = sx_range("py", -100, 100), pz = sx_range("pz", -100, 100);
  sx_assume(M > ma + mb);
  in.set_4momentum(M, px, py, pz);
  in.set_4position(FourVector(sx_range("t", -1e3, 1e3), sx_range("x", -1e3, 1e3), sx_range("y", -1e3, 1e3), sx_range("z", -1e3, 1e3)));
  const double dt = sx_range("dt", 0, 10);
  DecayAction a(in, dt);
  TwoBodyDecayStable type({&ParticleType::find(kA), &ParticleType::find(kB)}, 1);
  a.add_decay(std::make_unique<DecayBranch>(type, sx_range("w", 0.001, 1)));
  a.generate_final_state();
  const ParticleList &out = a.outgoing_particles();
  CHECK(out.size() == 2);
  const FourVector p = out[0].momentum(), q = out[1].momentum(), P = in.momentum();
  for (int i = 0; i < 4; i++) CLOSE(p[i] + q[i], P[i]);
  CLOSE(p.sqr(), ma * ma);
  CLOSE(q.sqr(), mb * mb);
  for (const auto &o : out) {
    for (int i = 0; i < 4; i++) CHECK(o.position()[i] == in.position()[i]);
    CHECK(o.formation_time() == a.time_of_execution());
  }
  sx_reach("done");
}
