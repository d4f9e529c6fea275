// Selection of reaction and decay channels.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc action.cc processbranch.cc
// @entry c27_list real reach=kept,dropped time=100
// @entry c27_choose real reach=first,middle,last time=150
// @entry c27_rounding exact reach=chosen time=250
// @entry c27_outgoing real reach=done time=60
// @bound up to 5 channels (3 in c27_rounding) with any weights in [0, 10^6] and any draw
// @assume c27_list and c27_choose encode doubles as reals; c27_rounding is bit-exact but takes the largest draw, the total itself
#include "sx.h"
#include "smash_env.h"
#include "mock_action.h"
#include "smash/processbranch.h"
namespace smash {
Potentials *pot_pointer = nullptr;
RectangularLattice<FourVector> *UB_lat_pointer = nullptr, *UI3_lat_pointer = nullptr;
}
using namespace smash;
static void setup() {
  sx_add_type("pi", 0.138, 0., PdgCode(0x211));
  sx_add_type("rho", 0.776, 0., PdgCode(0x213));
  sx_types_done();
}
struct Chooser : MockAction {
  using MockAction::MockAction;
  CollisionBranchList list;
  double total = 0;
  const CollisionBranch *choose(double w) { return choose_channel<CollisionBranch>(list, w); }
};
static CollisionBranchPtr branch(double w) { return std::make_unique<CollisionBranch>(ParticleType::find(PdgCode(0x213)), w, ProcessType::TwoToOne); }
static Chooser action() { ParticleList l{sx_particle(PdgCode(0x211), 0), sx_particle(PdgCode(0x211), 1)}; return Chooser(l, 0.); }
// Channels of no weight are dropped, the others kept in order, and the total counts exactly them.
ENTRY(c27_list) {
  setup();
  Chooser a(action());
  const int n = sx_choose(0, 4, "n"), how = sx_choose(0, 1, "how");
  double w[4], sum = 0;
  std::vector<double> kept;
  CollisionBranchList in;
  for (int i = 0; i < n; i++) {
    w[i] = sx_range("w", -1, 1e6);
    auto b = branch(w[i]);
    CHECK(b->weight() == w[i]);
    if (w[i] > 0) { kept.push_back(w[i]); sum += w[i]; sx_reach("kept"); } else sx_reach("dropped");
    if (how) a.add_process<CollisionBranch>(b, a.list, a.total);
    else in.push_back(std::move(b));
  }
  if (!how) a.add_processes<CollisionBranch>(std::move(in), a.list, a.total);
  CLOSE(a.total, sum);
  CLOSE(total_weight<CollisionBranch>(a.list), sum);
  CHECK(a.list.size() == kept.size());
  for (size_t i = 0; i < kept.size(); i++) CHECK(a.list[i]->weight() == kept[i]);
}
ENTRY(c27_choose) {
  setup();
  Chooser a(action());
  const int n = sx_choose(1, 5, "n");
  double cum[6] = {0};
  CollisionBranchList in;
  for (int i = 0; i < n; i++) {
    const double w = sx_range("w", 0, 1e6);
    sx_assume(w > 0);
    in.push_back(branch(w));
    cum[i + 1] = cum[i] + w;
  }
  a.add_processes<CollisionBranch>(std::move(in), a.list, a.total);
  const double x = sx_rand01();
  sx_rq[0] = x; sx_rq_n = 1;
  const CollisionBranch *c = a.choose(a.total);
  int k = -1;
  for (int i = 0; i < n; i++) if (a.list[i].get() == c) k = i;
  CHECK(k >= 0);
  const double draw = x * cum[n];
  CHECK((cum[k] <= draw) & (draw <= cum[k + 1]));
  sx_reach(k == 0 ? "first" : k == n - 1 ? "last" : "middle");
}
// With rounding of the sums, the list is never exhausted, whatever the weights.
ENTRY(c27_rounding) {
  setup();
  Chooser a(action());
  const int n = sx_choose(1, 3, "n");
  for (int i = 0; i < n; i++) {
    const double w = sx_f64("w");
    sx_assume((w >= 0.) & (w <= 1e6));
    auto b = branch(w);
    a.add_process<CollisionBranch>(b, a.list, a.total);
  }
  if (a.list.empty()) return;
  sx_rq[0] = 1.; sx_rq_n = 1;
  const CollisionBranch *c = a.choose(a.total);
  CHECK(c->weight() > 0.);
  sx_reach("chosen");
}
ENTRY(c27_outgoing) {
  setup();
  const double w = sx_range("w", 0, 1e6);
  const ParticleType &rho = ParticleType::find(PdgCode(0x213)), &pi = ParticleType::find(PdgCode(0x211));
  CollisionBranch one(rho, w, ProcessType::TwoToOne), two(rho, pi, w, ProcessType::TwoToTwo);
  CHECK((one.particle_number() == 1) & (two.particle_number() == 2));
  CHECK((one.get_type() == ProcessType::TwoToOne) & (two.get_type() == ProcessType::TwoToTwo));
  ParticleList l = two.particle_list();
  CHECK(l.size() == 2 && l[0].type() == rho && l[1].type() == pi);
  l = one.particle_list();
  CHECK(l.size() == 1 && l[0].type() == rho);
  CLOSE(two.threshold(), rho.min_mass_kinematic() + pi.mass());
  two.set_weight(2 * w);
  CLOSE(two.weight(), 2 * w);
  sx_reach("done");
}
