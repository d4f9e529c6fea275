// The particle store under every bounded history of operations.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc
// @entry c09_history exact reach=done,hole,reused time=250 paths=9000000 steps=4000000000
// @entry c09_holes exact reach=done,hole time=250 paths=2000000 steps=1000000000
// @entry c09_grow exact reach=grown,done time=200 paths=2000000 steps=1000000000
// @entry c09_data exact reach=done time=120
// @entry c09_stale exact reach=done time=120
// @bound every sequence of 3 operations (4 in the thorough tier) out of insert, create one, create several, remove any, replace any one or two by none to three, update any, reset, on a store starting with 0 to 3 particles; every sequence of 8 (10) insertions and removals on a store of 0 to 3; stores of 95 to 204 particles around the growth of the underlying array; all particle data symbolic
// @assume ids start over after reset, as documented; operations are only called on particles that are present, as their documented precondition demands
#include "sx.h"
#include "smash_env.h"
#include "smash/particles.h"
using namespace smash;
#ifdef SX_THOROUGH
static const int kOps = 4, kHoleOps = 10;
#else
static const int kOps = 3, kHoleOps = 8;
#endif
static const PdgCode kPi(0x211), kP(0x2212);
static bool same(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
struct Live { int id; unsigned pid; double tag; PdgCode pdg; };
struct Model {
  Particles store;
  std::vector<Live> live;
  std::vector<ParticleData> gone;
  int max_id = -1;
  unsigned next_pid = 1;
  // a particle to be put in, recognisable by tag and process id
  ParticleData fresh(PdgCode c) {
    ParticleData p = sx_particle(c, 4711);
    p.set_4momentum(FourVector(sx_f64("tag"), 0, 0, 0));
    HistoryData h;
    h.id_process = next_pid++;
    p.set_history(std::move(h));
    return p;
  }
  ParticleData copy(int k) {
    for (const ParticleData &p : store) if (p.id() == live[k].id) return p;
    sx_fail("a live particle is not visited by iteration");
    return fresh(kPi);
  }
  void added(const ParticleData &p, double tag, unsigned pid, PdgCode c) {
    CHECK(p.id() > max_id);
    if (p.id() > max_id) max_id = p.id();
    live.push_back({p.id(), pid, tag, c});
  }
  void drop(int k) {
    gone.push_back(copy(k));
    live.erase(live.begin() + k);
  }
  // particles created by a number: the new ids are those not known yet
  void created(size_t n, PdgCode c) {
    size_t seen = 0;
    for (const ParticleData &p : store) {
      bool known = false;
      for (const Live &l : live) known |= l.id == p.id();
      if (!known) { seen++; CHECK(p.id() > max_id); live.push_back({p.id(), 0, 0, c}); }
    }
    for (const Live &l : live) if (l.id > max_id) max_id = l.id;
    CHECK(seen == n);
  }
  void check() {
    CHECK(store.size() == live.size());
    CHECK(store.is_empty() == live.empty());
    size_t n = 0;
    for (auto it = store.begin(); it != store.end(); ++it) {
      bool ok = false;
      for (const Live &l : live)
        if (l.id == it->id()) ok = it->pdgcode() == l.pdg && same(it->momentum().x0(), l.tag) && it->id_process() == l.pid;
      CHECK(ok);
      CHECK(store.is_valid(*it));
      CHECK(std::addressof(store.lookup(*it)) == std::addressof(*it));
      if (++n > live.size()) break;
    }
    CHECK(n == live.size());
    size_t back = 0;
    if (!live.empty()) {
      auto it = store.end();
      int last = -2;
      do {
        --it;
        CHECK(it->id() != last);
        last = it->id();
        back++;
      } while (it != store.begin() && back <= live.size());
      CHECK(back == live.size());
      CHECK(store.front().id() == store.begin()->id());
      CHECK(same(store.time(), store.front().position().x0()));
    }
    const ParticleList v = store.copy_to_vector();
    CHECK(v.size() == live.size());
    for (size_t i = 0; i < v.size(); i++) {
      for (size_t j = 0; j < i; j++) CHECK(v[i].id() != v[j].id());
      bool known = false;
      for (const Live &l : live) known |= l.id == v[i].id();
      CHECK(known);
    }
    for (const ParticleData &g : gone) CHECK(!store.is_valid(g));
  }
  void step(bool simple = false) {
    const int n = live.size();
    const int op = simple ? sx_choose(0, n == 0 ? 0 : 1, "op") * 4 : sx_choose(0, n == 0 ? 3 : 6, "op");
    switch (op) {
      case 0: {
        const ParticleData p = fresh(kPi);
        added(store.insert(p), p.momentum().x0(), p.id_process(), kPi);
        break;
      }
      case 1: {
        const ParticleData &p = store.create(kP);
        added(p, 0, 0, kP);
        break;
      }
      case 2: {
        const int k = sx_choose(1, 3, "count");
        if (n != (int)store.size()) sx_fail("size");
        store.create(k, kP);
        created(k, kP);
        break;
      }
      case 3:
        store.reset();
        live.clear(); gone.clear();
        max_id = -1;
        break;
      case 4: {
        const int k = sx_choose(0, n - 1, "which");
        const ParticleData p = copy(k);
        store.remove(p);
        gone.push_back(p);
        live.erase(live.begin() + k);
        sx_reach("hole");
        break;
      }
      case 5: {
        ParticleList out, in;
        const int k = sx_choose(0, n - 1, "which");
        out.push_back(copy(k));
        int k2 = -1;
        if (n > 1 && sx_choose(0, 1, "two")) {
          k2 = (k + 1) % n;
          out.push_back(copy(k2));
        }
        const int m = sx_choose(0, 3, "added");
        for (int i = 0; i < m; i++) in.push_back(fresh(i ? kP : kPi));
        const ParticleList want = in;
        store.update(out, in, true);
        for (const auto &p : out) {
          gone.push_back(p);
          for (size_t i = 0; i < live.size(); i++)
            if (live[i].id == p.id()) { live.erase(live.begin() + i); break; }
        }
        for (int i = 0; i < m; i++) {
          CHECK(store.is_valid(in[i]));
          added(in[i], want[i].momentum().x0(), want[i].id_process(), want[i].pdgcode());
        }
        sx_reach("reused");
        break;
      }
      case 6: {
        const int k = sx_choose(0, n - 1, "which");
        const ParticleData old = copy(k);
        ParticleList from{old}, to{fresh(live[k].pdg)};
        const double tag = to[0].momentum().x0();
        const unsigned pid = to[0].id_process();
        store.update(from, to, false);
        CHECK(to[0].id() == old.id());
        live[k].tag = tag;
        live[k].pid = pid;
        gone.push_back(old);
        break;
      }
    }
  }
};
static void setup() {
  sx_add_type("pi", 0.138, 0., kPi);
  sx_add_type("p", 0.938, 0., kP);
  sx_types_done();
}
static void start(Model &m) {
  const int n0 = sx_choose(0, 3, "initial");
  for (int i = 0; i < n0; i++) {
    const ParticleData p = m.fresh(kPi);
    m.added(m.store.insert(p), p.momentum().x0(), p.id_process(), kPi);
  }
}
ENTRY(c09_history) {
  setup();
  Model m;
  start(m);
  for (int i = 0; i < kOps; i++) { m.step(); m.check(); }
  sx_reach("done");
}
ENTRY(c09_holes) {
  setup();
  Model m;
  start(m);
  for (int i = 0; i < kHoleOps; i++) { m.step(true); m.check(); }
  sx_reach("done");
}
ENTRY(c09_grow) {
  setup();
  Particles s;
  const int n = sx_choose(95, 101, "n");
  s.create(n, kP);
  int i = 0;
  for (auto &p : s) p.set_4momentum(FourVector(1000. + i++, 0, 0, 0));
  CHECK(i == n);
  // two holes before the array has to grow
  const int h1 = sx_choose(0, 2, "holes");
  ParticleList copies = s.copy_to_vector();
  if (h1 >= 1) s.remove(copies[3]);
  if (h1 >= 2) s.remove(copies[n - 2]);
  const int k = sx_choose(0, 2, "how");
  int added = 0;
  if (k == 0) { s.create(104, kPi); added = 104; }
  else if (k == 1) { for (int j = 0; j < 12; j++) s.insert(sx_particle(kPi)); added = 12; }
  else { for (int j = 0; j < 12; j++) s.create(kPi); added = 12; }
  CHECK(s.size() == size_t(n - h1 + added));
  int old = 0, neu = 0, maxid = -1;
  for (const auto &p : s) {
    if (p.pdgcode() == kP) {
      CHECK(p.id() < n);
      CHECK(p.momentum().x0() == 1000. + p.id());
      CHECK(!(h1 >= 1 && p.id() == 3) && !(h1 >= 2 && p.id() == n - 2));
      old++;
    } else {
      CHECK(p.id() >= n);
      neu++;
    }
    CHECK(s.is_valid(p));
    if (p.id() > maxid) maxid = p.id();
  }
  CHECK(old == n - h1);
  CHECK(neu == added);
  CHECK(maxid == n + added - 1);
  for (int j = 0; j < n; j += 7) CHECK(s.is_valid(copies[j]) == !((h1 >= 1 && j == 3) || (h1 >= 2 && j == n - 2)));
  if (n + added > 100) sx_reach("grown");
  sx_reach("done");
}
// every datum of a particle survives insertion, replacement and update
static FourVector sym4(const char *n) { return FourVector(sx_f64(n), sx_f64(n), sx_f64(n), sx_f64(n)); }
static void full(ParticleData &p) {
  p.set_4momentum(sym4("mom"));
  p.set_4position(sym4("pos"));
  p.set_spin_vector(sym4("spin"));
  p.set_slow_formation_times(sx_f64("begin"), sx_f64("form"));
  p.set_cross_section_scaling_factor(sx_f64("scale"));
  p.set_perturbative_weight(sx_f64("weight"));
  p.set_belongs_to(static_cast<BelongsTo>(sx_choose(0, 2, "label")));
  if (sx_choose(0, 1, "core")) p.fluidize();
  HistoryData h;
  h.collisions_per_particle = sx_i32("ncoll");
  h.id_process = sx_i32("process");
  h.process_type = ProcessType::Decay;
  h.time_last_collision = sx_f64("last");
  h.p1 = kPi; h.p2 = kP;
  p.set_history(std::move(h));
}
static void equal(const ParticleData &a, const ParticleData &b) {
  for (int i = 0; i < 4; i++) {
    CHECK(same(a.momentum()[i], b.momentum()[i]));
    CHECK(same(a.position()[i], b.position()[i]));
    CHECK(same(a.spin_vector()[i], b.spin_vector()[i]));
  }
  CHECK(same(a.formation_time(), b.formation_time()));
  CHECK(same(a.begin_formation_time(), b.begin_formation_time()));
  CHECK(same(a.initial_xsec_scaling_factor(), b.initial_xsec_scaling_factor()));
  CHECK(same(a.perturbative_weight(), b.perturbative_weight()));
  CHECK(a.belongs_to() == b.belongs_to());
  CHECK(a.is_core() == b.is_core());
  CHECK(a.pdgcode() == b.pdgcode());
  const HistoryData g = a.get_history(), h = b.get_history();
  CHECK(g.collisions_per_particle == h.collisions_per_particle);
  CHECK(g.id_process == h.id_process);
  CHECK(g.process_type == h.process_type);
  CHECK(same(g.time_last_collision, h.time_last_collision));
  CHECK((g.p1 == h.p1) & (g.p2 == h.p2));
}
ENTRY(c09_data) {
  setup();
  Particles s;
  s.create(3, kP);
  const ParticleList old = s.copy_to_vector();
  ParticleData p = sx_particle(kP, 99);
  full(p);
  const ParticleData *in = nullptr;
  switch (sx_choose(0, 4, "how")) {
    case 0: in = std::addressof(s.insert(p)); break;
    case 1: s.remove(old[0]); in = std::addressof(s.insert(p)); break;
    case 2: s.remove(old[2]); in = std::addressof(s.insert(p)); break;
    case 3: { ParticleList to{p}; s.replace({old[1]}, to); in = std::addressof(s.lookup(to[0])); equal(to[0], p); break; }
    case 4: in = std::addressof(s.update_particle(old[1], p)); break;
  }
  equal(*in, p);
  CHECK(s.is_valid(*in));
  s.create(120, kPi);  // the array moves
  int found = 0;
  for (const auto &q : s) if (same(q.perturbative_weight(), p.perturbative_weight()) && q.pdgcode() == kP && q.id_process() == p.id_process() && q.get_history().p1 == kPi) { equal(q, p); found++; }
  CHECK(found == 1);
  sx_reach("done");
}
// a copy is valid exactly while id and process are those of the stored particle
ENTRY(c09_stale) {
  setup();
  Particles s;
  s.create(3, kP);
  const int k = sx_choose(0, 2, "which");
  const ParticleData old = s.copy_to_vector()[k];
  ParticleData now = old;
  HistoryData h;
  h.id_process = sx_i32("process");
  now.set_history(std::move(h));
  s.update_particle(old, now);
  CHECK(s.is_valid(old) == (now.id_process() == old.id_process()));
  ParticleData other = old;
  other.set_history(now.get_history());
  CHECK(s.is_valid(other));
  other.set_id(sx_i32("id"));
  CHECK(s.is_valid(other) == (other.id() == old.id()));
  CHECK(!s.is_valid(sx_particle(kP, old.id())));
  sx_reach("done");
}
