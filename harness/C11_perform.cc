// Validity of actions and the effect of performing them on the particle list.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc action.cc quantumnumbers.cc
// @entry c11_perform real reach=replaced,updated,moved time=250
// @entry c11_invalidate real reach=stale,valid time=250
// @entry c11_interaction_point real reach=done
// @entry c11_update real reach=done
// @bound one to three incoming and zero to three outgoing particles (as many as go in where particles are only updated) out of a list of four (with and without holes), each process type class, all momenta, positions and times; then any second action on any of the particles
// @assume doubles are encoded as reals (rounding abstracted); final states conserve all quantum numbers
#include "sx.h"
#include "smash_env.h"
#include "mock_action.h"
#include "smash/quantumnumbers.h"
using namespace smash;
static const PdgCode kPi0(0x111), kRho0(0x113), kN(0x2112);
static void setup() {
  sx_add_type("pi", 0.138, 0., kPi0);
  sx_add_type("rho", 0.776, 0., kRho0);
  sx_add_type("n", 0.938, 0., kN);
  sx_types_done();
}
static FourVector sym4(const char *n) {
  FourVector v;
  for (int i = 0; i < 4; i++) v[i] = sx_range(n, -1e3, 1e3);
  return v;
}
static FourVector symmom() {
  FourVector v = sym4("mom");
  sx_assume(v[0] > 0.1);
  return v;
}
struct World {
  Particles store;
  ParticleList before;
  std::vector<int> in, others;
  void fill() {
    const int n = 5;
    for (int i = 0; i < n; i++) {
      ParticleData p = sx_particle(kPi0);
      p.set_4momentum(symmom());
      p.set_4position(sym4("pos"));
      HistoryData h;
      h.id_process = 3 + i;
      h.collisions_per_particle = i;
      h.time_last_collision = -1;
      p.set_history(std::move(h));
      store.insert(p);
    }
    const int drop = sx_choose(0, 2, "drop") * 2;  // first, middle or last
    store.remove(store.copy_to_vector()[drop]);
    before = store.copy_to_vector();
  }
  ParticleList incoming(int n, int first) {
    ParticleList l;
    for (int i = 0; i < 4; i++) {
      bool used = false;
      for (int j = 0; j < n; j++) used |= (first + j) % 4 == i;
      (used ? in : others).push_back(i);
    }
    for (int j = 0; j < n; j++) l.push_back(before[(first + j) % 4]);
    return l;
  }
};
static bool same4(const FourVector &a, const FourVector &b) { return (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3]); }
// a final state of n particles with the same total momentum
static ParticleList final_state(const ParticleList &in, int n, bool keep) {
  ParticleList out;
  FourVector rest;
  for (const auto &p : in) rest += p.momentum();
  for (int i = 0; i < n; i++) {
    ParticleData p = keep ? in[i] : sx_particle(i == 1 ? kRho0 : kPi0);
    FourVector m = rest;
    if (i + 1 < n) { m = sym4("out"); rest -= m; }
    p.set_4momentum(m);
    p.set_4position(sym4("newpos"));
    if (!keep) {
      HistoryData h = in[0].get_history();
      p.set_history(std::move(h));
    }
    out.push_back(p);
  }
  return out;
}
static void untouched(const World &w) {
  for (int i : w.others) {
    int n = 0;
    for (const auto &q : w.store)
      if (q.id() == w.before[i].id()) {
        n++;
        CHECK(same4(q.momentum(), w.before[i].momentum()));
        CHECK(same4(q.position(), w.before[i].position()));
        CHECK(q.id_process() == w.before[i].id_process());
        CHECK(q.get_history().collisions_per_particle == w.before[i].get_history().collisions_per_particle);
        CHECK(q.pdgcode() == w.before[i].pdgcode());
      }
    CHECK(n == 1);
    CHECK(w.store.is_valid(w.before[i]));
  }
}
static int count_id(const Particles &s, int id) { int n = 0; for (const auto &q : s) n += q.id() == id; return n; }
static const ProcessType kTypes[] = {ProcessType::TwoToTwo, ProcessType::Decay, ProcessType::TwoToOne, ProcessType::StringHard, ProcessType::Elastic, ProcessType::Wall, ProcessType::FluidizationNoRemoval, ProcessType::Fluidization, ProcessType::MultiParticleThreeToTwo};
ENTRY(c11_perform) {
  setup();
  World w;
  w.fill();
  const ProcessType type = kTypes[sx_choose(0, 8, "type")];
  const bool keeps = type == ProcessType::Elastic || type == ProcessType::Wall || type == ProcessType::FluidizationNoRemoval;
  const bool two = type == ProcessType::TwoToTwo || type == ProcessType::TwoToOne || type == ProcessType::StringHard;
  const int n = two ? 2 : sx_choose(1, 3, "incoming");
  const ParticleList in = w.incoming(n, sx_choose(0, 3, "first"));
  const int m = keeps ? n : sx_choose(1, 3, "outgoing");
  const ParticleList out = final_state(in, m, keeps);
  const double t = sx_range("time", -1e3, 1e3);
  MockAction a(in, out, t, type);
  CHECK(a.is_valid(w.store));
  const unsigned pid = 77;
  const double violation = a.perform(&w.store, pid);
  CHECK(violation == 0.);
  untouched(w);
  CHECK(w.store.size() == size_t(4 - (keeps ? 0 : n) + (keeps ? 0 : m)));
  CHECK(a.incoming_particles().size() == size_t(n));
  const ParticleList &res = a.outgoing_particles();
  CHECK(res.size() == size_t(m));
  for (int i = 0; i < m; i++) {
    const ParticleData &p = res[i];
    CHECK(w.store.is_valid(p));
    CHECK(count_id(w.store, p.id()) == 1);
    const ParticleData &q = w.store.lookup(p);
    CHECK(same4(q.momentum(), out[i].momentum()));
    CHECK(same4(q.position(), out[i].position()));
    CHECK(q.pdgcode() == out[i].pdgcode());
    const HistoryData h = q.get_history(), h0 = out[i].get_history();
    if (type == ProcessType::Wall || type == ProcessType::FluidizationNoRemoval) {
      CHECK((h.id_process == h0.id_process) & (h.collisions_per_particle == h0.collisions_per_particle));
      CHECK(h.time_last_collision == h0.time_last_collision);
      CHECK(w.store.is_valid(in[i]));
    } else {
      CHECK(unsigned(h.id_process) == pid);
      CHECK(h.collisions_per_particle == h0.collisions_per_particle + 1);
      CHECK(h.time_last_collision == t);
      CHECK(h.process_type == type);
      CHECK(!w.store.is_valid(in[i < n ? i : 0]));
    }
    if (keeps) CHECK(q.id() == in[i].id());
    else {
      CHECK(q.id() > 4);
      if (type == ProcessType::Decay) CHECK((h.p1 == in[0].pdgcode()) & (h.p2 == PdgCode(0)));
      if (two) CHECK((h.p1 == in[0].pdgcode()) & (h.p2 == in[1].pdgcode()));
    }
  }
  if (!keeps)
    for (const auto &p : in) { CHECK(count_id(w.store, p.id()) == 0); CHECK(!w.store.is_valid(p)); }
  const bool redo = type == ProcessType::Wall || type == ProcessType::FluidizationNoRemoval;
  CHECK(a.is_valid(w.store) == redo);
  sx_reach(redo ? "moved" : keeps ? "updated" : "replaced");
}
// an action found earlier is valid exactly if the one performed since touched none of its particles
ENTRY(c11_invalidate) {
  setup();
  World w;
  w.fill();
  const int n = sx_choose(1, 2, "n"), m = sx_choose(1, 3, "m");
  const int f = sx_choose(0, 3, "first"), g = sx_choose(0, 3, "second");
  ParticleList early, late;
  bool overlap = false;
  for (int i = 0; i < n; i++) early.push_back(w.before[(f + i) % 4]);
  for (int j = 0; j < m; j++) late.push_back(w.before[(g + j) % 4]);
  for (auto &a : early) for (auto &b : late) overlap |= a.id() == b.id();
  MockAction pending(early, early, 1., ProcessType::TwoToTwo);
  const ProcessType type = kTypes[sx_choose(0, 6, "type")];
  const bool moves = type == ProcessType::Wall || type == ProcessType::FluidizationNoRemoval;
  const bool keeps = moves || type == ProcessType::Elastic;
  if ((type == ProcessType::TwoToTwo || type == ProcessType::TwoToOne || type == ProcessType::StringHard) && m < 2) return;
  MockAction done(late, final_state(late, keeps ? m : sx_choose(1, 2, "outgoing"), keeps), 1., type);
  CHECK(pending.is_valid(w.store));
  done.perform(&w.store, 1000);
  CHECK(pending.is_valid(w.store) == (!overlap || moves));
  // new particles may have taken the places of old ones, and others may be added
  w.store.insert(sx_particle(kPi0));
  CHECK(pending.is_valid(w.store) == (!overlap || moves));
  if (!overlap || moves) {
    pending.update_incoming(w.store);
    for (size_t i = 0; i < early.size(); i++) {
      const ParticleData &p = pending.incoming_particles()[i];
      CHECK(p.id() == early[i].id());
      CHECK(same4(p.position(), w.store.lookup(early[i]).position()));
    }
    sx_reach("valid");
  } else {
    sx_reach("stale");
  }
}
ENTRY(c11_update) {
  setup();
  World w;
  w.fill();
  const ParticleList in = w.incoming(2, sx_choose(0, 3, "first"));
  MockAction a(in, in, 1., ProcessType::Elastic);
  for (auto &p : w.store) p.set_4position(sym4("moved"));
  for (auto &p : w.store) p.set_3momentum(sym4("accelerated").threevec());
  CHECK(a.is_valid(w.store));
  a.update_incoming(w.store);
  for (int i = 0; i < 2; i++) {
    const ParticleData &p = a.incoming_particles()[i], &q = w.store.lookup(in[i]);
    CHECK(same4(p.position(), q.position()) & same4(p.momentum(), q.momentum()) & (p.id() == in[i].id()));
  }
  sx_reach("done");
}
// the interaction point is the mean of the positions on the straight trajectories at that time
ENTRY(c11_interaction_point) {
  setup();
  const int n = sx_choose(1, 3, "n");
  ParticleList in;
  for (int i = 0; i < n; i++) {
    ParticleData p = sx_particle(kPi0, i);
    p.set_4momentum(symmom());
    p.set_4position(sym4("pos"));
    in.push_back(p);
  }
  const double t = sx_range("time", -1e3, 1e3);
  MockAction a(in, in, t, ProcessType::Elastic);
  const FourVector x = a.get_interaction_point();
  CHECK(x[0] == t);
  for (int k = 1; k < 4; k++) {
    double s = 0;
    for (const auto &p : in) s += p.position()[k] + p.momentum()[k] / p.momentum()[0] * (t - p.position()[0]);
    CLOSE(x[k] * n, s);
  }
  sx_reach("done");
}
