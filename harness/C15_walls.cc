// Wall crossings in a periodic box and wrapping of positions.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc action.cc quantumnumbers.cc wallcrossingaction.cc
// @entry c15_find real reach=crosses,stays time=200 ab=30 --fork-select
// @entry c15_perform real reach=done time=100 --fork-select
// @entry c15_wrap exact reach=done time=200 ab=60
// @bound one or two particles at any position in the box, any momentum with any velocity below light (components above the zero-velocity cut), any box length in [0.1, 1000], any step in (0, 100]; wrapping: all doubles up to one length outside, bit-exact
// @assume for the crossings doubles are encoded as reals (rounding abstracted)
#include "sx.h"
#include "smash_env.h"
#include "mock_action.h"
#include "smash/algorithms.h"
#include "smash/wallcrossingaction.h"
using namespace smash;
static const PdgCode kPi(0x111);
static double L, tmax;
static ParticleData sym(const char *) {
  ParticleData p = sx_particle(kPi, 3);
  const double e = sx_range("e", 0.01, 100);
  FourVector m(e, sx_range("px", -100, 100), sx_range("py", -100, 100), sx_range("pz", -100, 100));
  sx_assume((m[1] <= e) & (m[1] >= -e) & (m[2] <= e) & (m[2] >= -e) & (m[3] <= e) & (m[3] >= -e));
  p.set_4momentum(m);
  const double t = sx_range("t", -1e3, 1e3), x = sx_range("x", 0, 1e3), y = sx_range("y", 0, 1e3), z = sx_range("z", 0, 1e3);
  sx_assume((x <= L) & (y <= L) & (z <= L));
  p.set_4position(FourVector(t, x, y, z));
  HistoryData h;
  h.collisions_per_particle = 2; h.id_process = 9;
  p.set_history(std::move(h));
  p.set_formation_time(sx_range("form", -10, 10));
  return p;
}
static void setup() {
  sx_add_type("pi", 0.138, 0., kPi);
  sx_types_done();
  L = sx_range("L", 0.1, 1e3);
  tmax = sx_range("tmax", 0, 100);
}
ENTRY(c15_find) {
  setup();
  sx_assume(tmax > 0);
  const ParticleData p = sym("");
  const ThreeVector v = p.velocity(), r = p.position().threevec();
  for (int i = 0; i < 3; i++) sx_assume((v[i] > 2 * really_small) | (v[i] < -2 * really_small) | (v[i] == 0));
  WallCrossActionsFinder f(L);
  const ActionList acts = f.find_actions_in_cell({p}, tmax, 1., {});
  // position at the end of the step
  bool out = false, edge = false;
  for (int i = 0; i < 3; i++) {
    const double x = r[i] + v[i] * tmax;
    out |= (x > L) | (x < 0);
    edge |= (x == L) | (x == 0);
  }
  CHECK(acts.size() <= 1);
  if (acts.empty()) {
    CHECK(!out);
    sx_reach("stays");
    return;
  }
  CHECK(out | edge);
  const Action &a = *acts[0];
  CHECK(a.get_type() == ProcessType::Wall);
  const double dt = a.time_of_execution() - p.position().x0();
  CHECK((dt >= 0) & (dt <= tmax));
  CHECK(a.incoming_particles().size() == 1);
  CHECK(a.outgoing_particles().size() == 1);
  const ParticleData &o = a.outgoing_particles()[0];
  CLOSE(o.position()[0], p.position().x0() + dt);
  int crossed = 0;
  bool at_wall = false;
  for (int i = 0; i < 3; i++) {
    const double hit = r[i] + v[i] * dt, got = o.position()[i + 1];
    const double tol = 1e-7 * (1 + L);
    const bool same = (got - hit <= tol) & (hit - got <= tol);
    // moved to the opposite wall in flight direction
    const bool up = (v[i] > 0) & (hit - L <= tol) & (L - hit <= tol) & (got == 0);
    const bool down = (v[i] < 0) & (hit <= tol) & (hit >= -tol) & (got == L);
    CHECK(same | up | down);
    CHECK((hit <= L + tol) & (hit >= -tol));
    at_wall |= up | down;
    crossed += !same;
  }
  CHECK(at_wall);
  CHECK(crossed <= 1);
  for (int i = 0; i < 4; i++) CHECK(o.momentum()[i] == p.momentum()[i]);
  CHECK((o.id() == p.id()) & (o.pdgcode() == p.pdgcode()));
  CHECK(o.get_history().collisions_per_particle == 2);
  CHECK(o.formation_time() == p.formation_time());
  sx_reach("crosses");
}
ENTRY(c15_perform) {
  setup();
  ParticleData p = sym("");
  Particles store;
  store.insert(p);
  store.insert(p);
  const ParticleList before = store.copy_to_vector();
  ParticleData q = before[0];
  const FourVector np(sx_range("t2", -1e3, 1e3), sx_range("x2", 0, 1e3), 0, 1);
  q.set_4position(np);
  WallcrossingAction a(before[0], q, 0.5);
  CHECK(a.is_valid(store));
  a.generate_final_state();
  a.perform(&store, 12);
  CHECK(store.size() == 2);
  int seen = 0;
  for (const auto &s : store) {
    CHECK((s.id() == before[0].id()) | (s.id() == before[1].id()));
    const bool moved = s.id() == before[0].id();
    seen += moved ? 1 : 10;
    for (int i = 0; i < 4; i++) {
      CHECK(s.momentum()[i] == p.momentum()[i]);
      CHECK(s.position()[i] == (moved ? np[i] : p.position()[i]));
    }
    CHECK(s.get_history().collisions_per_particle == 2);
    CHECK(s.id_process() == 9u);
  }
  CHECK(seen == 11);
  sx_reach("done");
}
ENTRY(c15_wrap) {
  const double len = sx_f64("len");
  sx_assume((len >= 1e-3) & (len <= 1e6));
  double x[2] = {sx_f64("x"), 0.};
  sx_assume((x[0] >= -len) & (x[0] < 2 * len));
  const double x0 = x[0];
  const bool moved = enforce_periodic_boundaries(x, x + 2, len);
  CHECK((x[0] >= 0) & (x[0] < len));
  CHECK(moved == ((x0 < 0) | (x0 >= len)));
  if (!moved) CHECK(x[0] == x0);
  CHECK(x[1] == 0.);
  if (x0 >= len) CHECK(x[0] == x0 - len);
  if ((x0 < 0) & (x0 + len < len)) CHECK(x[0] == x0 + len);
  sx_reach("done");
}
