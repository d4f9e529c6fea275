// The queue of pending actions.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc action.cc
// @entry c10_order real reach=done,ties time=250 paths=1000000 steps=400000000
// @entry c10_interleaved real reach=done,empty time=250 paths=1000000 steps=400000000
// @entry c10_lists exact reach=done time=120
// @bound up to 5 actions (6 thorough) with arbitrary finite times (equal and negative ones included; they are only compared, so reals represent them without loss), inserted as a list, as two lists, one by one or at construction; every interleaving of 6 insertions and removals (7 thorough)
#include "sx.h"
#include "smash_env.h"
#include "smash/actions.h"
#include "mock_action.h"
using namespace smash;
#ifdef SX_THOROUGH
static const int kN = 6, kSteps = 7;
#else
static const int kN = 5, kSteps = 6;
#endif
static void setup() {
  sx_add_type("pi", 0.138, 0., PdgCode(0x211));
  sx_types_done();
}
struct Tagged : MockAction {
  Tagged(const ParticleList &in, double t, int n) : MockAction(in, in, t, ProcessType::None), no(n) { alive++; }
  ~Tagged() { alive--; }
  const int no;
  static int alive;
};
int Tagged::alive = 0;
static double when() { const double t = sx_f64("time"); sx_assume(t == t); return t; }
static ActionPtr act(const ParticleList &in, double t, int n) { return std::make_unique<Tagged>(in, t, n); }
static int no(const ActionPtr &a) { return static_cast<Tagged &>(*a).no; }
ENTRY(c10_order) {
  setup();
  const ParticleList in{sx_particle(PdgCode(0x211), 0)};
  const int n = sx_choose(0, kN, "n"), how = sx_choose(0, 3, "how");
  double t[kN];
  ActionList l;
  for (int i = 0; i < n; i++) l.push_back(act(in, t[i] = when(), i));
  {
    Actions a(how == 0 ? std::move(l) : ActionList());
    if (how == 1) a.insert(std::move(l));
    if (how == 2) for (auto &x : l) a.insert(std::move(x));
    if (how == 3) {
      // one list on top of another
      const int cut = n ? sx_choose(1, n, "cut") : 0;
      ActionList more;
      for (int i = cut; i < n; i++) more.push_back(std::move(l[i]));
      l.resize(cut);
      a.insert(std::move(l));
      a.insert(std::move(more));
    }
    CHECK(a.size() == size_t(n));
    bool seen[kN] = {};
    double last = 0;
    for (int i = 0; i < n; i++) {
      CHECK(!a.is_empty());
      const double e = a.earliest_time();
      ActionPtr x = a.pop();
      CHECK(x->time_of_execution() == e);
      CHECK(x->time_of_execution() == t[no(x)]);
      CHECK(!seen[no(x)]);
      seen[no(x)] = true;
      if (i) CHECK(last <= e);
      if (i && last == e) sx_reach("ties");
      last = e;
      CHECK(a.size() == size_t(n - 1 - i));
    }
    CHECK(a.is_empty());
    bool threw = false;
    try { a.pop(); } catch (std::runtime_error &) { threw = true; }
    CHECK(threw);
  }
  CHECK(Tagged::alive == 0);
  sx_reach("done");
}
ENTRY(c10_interleaved) {
  setup();
  const ParticleList in{sx_particle(PdgCode(0x211), 0)};
  Actions a;
  double t[kSteps];
  bool pending[kSteps] = {};
  int added = 0, count = 0;
  for (int s = 0; s < kSteps; s++) {
    if (count == 0 || sx_choose(0, 1, "insert")) {
      a.insert(act(in, t[added] = when(), added));
      pending[added++] = true;
      count++;
    } else {
      ActionPtr x = a.pop();
      const int k = no(x);
      CHECK(pending[k]);
      pending[k] = false;
      count--;
      CHECK(x->time_of_execution() == t[k]);
      bool first = true;
      for (int i = 0; i < added; i++) if (pending[i]) first &= t[k] <= t[i];
      CHECK(first);
    }
    CHECK(a.size() == size_t(count));
    CHECK(a.is_empty() == (count == 0));
    int visited = 0;
    for (const auto &x : a) { CHECK(pending[no(x)]); visited++; }
    CHECK(visited == count);
  }
  if (sx_choose(0, 1, "clear")) {
    a.clear();
    CHECK(a.is_empty());
    CHECK(Tagged::alive == 0);
    sx_reach("empty");
  }
  sx_reach("done");
}
ENTRY(c10_lists) {
  setup();
  const ParticleList in{sx_particle(PdgCode(0x211), 0)};
  const int n = sx_choose(0, 3, "n"), m = sx_choose(0, 3, "m");
  std::vector<ActionPtr> l, r;
  double t[6];
  for (int i = 0; i < n; i++) l.push_back(act(in, t[i] = when(), i));
  for (int i = 0; i < m; i++) r.push_back(act(in, t[n + i] = when(), n + i));
  l += std::move(r);
  CHECK(l.size() == size_t(n + m));
  for (int i = 0; i < n + m; i++) CHECK((no(l[i]) == i) & (l[i]->time_of_execution() == t[i]));
  if (n > 1) CHECK((*l[0] < *l[1]) == (t[0] < t[1]));
  // relative execution times count from the time of the first incoming particle
  ParticleData p = sx_particle(PdgCode(0x211), 1);
  const double t0 = sx_range("t0", -1e3, 1e3), dt = sx_range("dt", -1e3, 1e3);
  p.set_4position(FourVector(t0, 0, 0, 0));
  CHECK(MockAction({p}, dt).time_of_execution() == dt + t0);
  CHECK(MockAction(p, p, dt, ProcessType::Wall).time_of_execution() == dt + t0);
  sx_reach("done");
}
