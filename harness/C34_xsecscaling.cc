// Cross-section scaling of particles that are still forming.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc
// @entry c34_values real reach=before,during,formed time=100
// @entry c34_monotone real reach=both time=150
// @entry c34_simple real reach=done time=60
// @bound any initial factor in [0,1], formation times, times and time shifts within 10^4 fm, any formation power in [-5,5]; two times compared for monotonicity
// @assume doubles are encoded as reals (rounding abstracted); pow enters through its monotonicity and its values at 0 and 1
#include "sx.h"
#include "smash_env.h"
#include "smash/particles.h"
using namespace smash;
static double f0, tb, tf;
static ParticleData unformed(const char *name) {
  ParticleData p = sx_particle(PdgCode(0x211));
  f0 = sx_range("factor", 0, 1);
  tb = sx_range("begin", -1e4, 1e4);
  tf = sx_range("formed", -1e4, 1e4);
  sx_assume(tb <= tf);
  ParticleData::formation_power_ = sx_range(name, -5, 5);
  p.set_slow_formation_times(tb, tf);
  p.set_cross_section_scaling_factor(f0);
  return p;
}
static void setup() { sx_add_type("pi", 0.138, 0., PdgCode(0x211)); sx_types_done(); }
ENTRY(c34_values) {
  setup();
  ParticleData p = unformed("power");
  const double x0 = sx_range("x0", -1e4, 1e4), dt = sx_range("dt", -1e4, 1e4), t = x0 + dt;
  p.set_4position(FourVector(x0, 1, 2, 3));
  CHECK(p.initial_xsec_scaling_factor() == f0);
  CHECK(p.formation_time() == tf);
  CHECK(p.begin_formation_time() == tb);
  const double f = p.xsec_scaling_factor(dt);
  CHECK((f >= f0) & (f <= 1));
  if (t >= tf) { CHECK(f == 1); sx_reach("formed"); }
  else if (t <= tb) { CHECK(f == f0); sx_reach("before"); }
  else {
    const double n = ParticleData::formation_power_;
    if (n <= 0) CHECK(f == f0);
    else {
      // strictly in between, linear for power one, below (above) linear for larger (smaller) powers
      const double x = (t - tb) / (tf - tb), lin = f0 + (1 - f0) * x;
      if (f0 < 1) CHECK((f > f0) & (f < 1));
      if (n == 1) CLOSE(f, lin);
      if (n > 1) CHECK(f < lin + 1e-9);
      if (n < 1) CHECK(f > lin - 1e-9);
    }
    sx_reach("during");
  }
  // the position of the particle in time is all that counts
  ParticleData q = p;
  q.set_4position(FourVector(t, 7, 8, 9));
  CLOSE(q.xsec_scaling_factor(), f);
}
ENTRY(c34_monotone) {
  setup();
  ParticleData p = unformed("power");
  const double t1 = sx_range("t1", -1e4, 1e4), t2 = sx_range("t2", -1e4, 1e4);
  sx_assume(t1 <= t2);
  p.set_4position(FourVector(t1, 0, 0, 0));
  const double f1 = p.xsec_scaling_factor();
  p.set_4position(FourVector(t2, 0, 0, 0));
  const double f2 = p.xsec_scaling_factor();
  CHECK(f1 <= f2);
  sx_reach("both");
}
// Particles set up with one formation time, and particles without any.
ENTRY(c34_simple) {
  setup();
  ParticleData p = sx_particle(PdgCode(0x211));
  const double t = sx_range("t", -1e4, 1e4);
  ParticleData::formation_power_ = sx_range("power", -5, 5);
  p.set_formation_time(tf = sx_range("formed", -1e4, 1e4));
  CHECK((p.formation_time() == tf) & (p.begin_formation_time() == tf));
  p.set_4position(FourVector(t, 0, 0, 0));
  CHECK(p.xsec_scaling_factor() == 1);
  p.set_cross_section_scaling_factor(f0 = sx_range("factor", 0, 1));
  CHECK(p.xsec_scaling_factor() == (t < tf ? f0 : 1));
  // copies inside the particle store keep the whole formation state
  Particles store;
  const ParticleData c = store.insert(p);
  CHECK((c.formation_time() == tf) & (c.begin_formation_time() == tf) & (c.initial_xsec_scaling_factor() == f0));
  CHECK(c.xsec_scaling_factor() == (t < tf ? f0 : 1));
  sx_reach("done");
}
