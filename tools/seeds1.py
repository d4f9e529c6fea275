import sys; sys.path.insert(0,'/verif/tools')
from seedlib import make
ACT='''#include "smash/action.h"
#include "smash/actions.h"
#include "smash/particles.h"
#include "smash/particletype.h"
using namespace smash;
static const char *TYPES =
    "# NAME MASS[GEV] WIDTH[GEV] PARITY PDG\\n"
    "N 0.938 0.0 + 2112 2212\\n"
    "π 0.138 0.0 - 111 211\\n"
    "K 0.494 0.0 - 311 321\\n"
    "Λ 1.116 0.0 + 3122\\n";
struct TestAction : Action {
  TestAction(const ParticleList &in, const ParticleList &out, double t, ProcessType ty)
      : Action(in, out, t, ty) {}
  void generate_final_state() override {}
  double get_total_weight() const override { return 0; }
  double get_partial_weight() const override { return 0; }
  void format_debug_output(std::ostream &o) const override { o << "TestAction"; }
};
inline ParticleData mk(PdgCode c, double x, double px, double t = 0) {
  ParticleData p{ParticleType::find(c)};
  p.set_4position(FourVector(t, x, 0.3 * x, -x));
  p.set_4momentum(p.pole_mass(), px, 0.1, 0.2);
  return p;
}
'''
S=[]
def add(**k): S.append(k)
add(id='boost-ultrarelativistic',property='C01',edits=[('src/fourvector.cc','velocity_squared < 1. ? 1. / std::sqrt(1. - velocity_squared) : 0;',
'velocity_squared < 1. - really_small\n          ? 1. / std::sqrt(1. - velocity_squared)\n          : 0;'),('src/fourvector.cc','#include "smash/iomanipulators.h"','#include "smash/constants.h"\n#include "smash/iomanipulators.h"')],
needs='a boost velocity so close to the speed of light that the Lorentz factor exceeds 1000',
breaks='boosts with very large Lorentz factors (still below the speed of light) return a null vector',
demo='''#include "smash/fourvector.h"
using namespace smash;
int main() {
  const FourVector p(1.3, 0.2, -0.4, 0.5);
  for (double d : {0.5, 0.1, 1e-3, 1e-6, 1e-7, 1e-8}) {
    const ThreeVector b(0, 0, 1 - d);
    const FourVector q = p.lorentz_boost(b);
    REQUIRE(q.x0() > 0);
    REQUIRE(std::abs(q.sqr() - p.sqr()) < 1e-3 * q.x0());
  }
}
''')
add(id='angles-start-at-pole',property='C03',edits=[('src/include/smash/angles.h','''    set_theta(-theta_plus_delta);
    set_phi(phi() + M_PI);
''','''    const bool from_pole = !(sintheta() > 0.);
    set_theta(-theta_plus_delta);
    if (from_pole) {
      return true;
    }
    set_phi(phi() + M_PI);
''')],needs='a direction exactly at the north pole that is advanced by a negative polar angle',
breaks='crossing the pole from the pole itself does not flip the azimuth',
demo='''#include "smash/angles.h"
using namespace smash;
int main() {
  for (double c : {1.0, 0.9999, 0.9}) {
    Angles a(0.4, c);
    const double th = a.theta() - 0.7;
    a.add_to_theta(-0.7);
    REQUIRE(std::abs(a.x() - std::sin(th) * std::cos(0.4)) < 1e-9);
    REQUIRE(std::abs(a.y() - std::sin(th) * std::sin(0.4)) < 1e-9);
    REQUIRE(std::abs(a.z() - std::cos(th)) < 1e-9);
  }
}
''')
add(id='two-beam-target-mass',property='C04',edits=[('src/include/smash/kinematics.h','double pz_t = std::sqrt(e_tot_t * e_tot_t - m_t * m_t);','double pz_t = std::sqrt(e_tot_t * e_tot_t - m_p * m_p);')],
needs='two beams of different particle mass',breaks='the collider-energy conversion takes the target momentum with the projectile mass',
demo='''#include "smash/kinematics.h"
using namespace smash;
int main() {
  const double m1 = 0.938, m2 = 0.138, p1 = 1.7, p2 = 0.6;
  const double E1 = std::sqrt(m1 * m1 + p1 * p1), E2 = std::sqrt(m2 * m2 + p2 * p2);
  const double s = (E1 + E2) * (E1 + E2) - (p1 - p2) * (p1 - p2);
  REQUIRE(std::abs(s_from_Etot(E1, E2, m1, m2) - s) < 1e-9);
  REQUIRE(std::abs(s_from_Ekin(E1 - m1, E2 - m2, m1, m2) - s) < 1e-9);
  REQUIRE(std::abs(s_from_plab(p1, p2, m1, m2) - s) < 1e-9);
}
''')
add(id='decimal-large-spin',property='C05',edits=[('src/include/smash/pdgcode.h','''    if (n_J_2 > 9) {
      n_J_1 = n_J_2 - 9;
      n_J_2 = 9;
    }
''','''    if (n_J_2 > 10) {
      n_J_1 = n_J_2 - 9;
      n_J_2 = 9;
    }
''')],needs='a code with spin degeneracy exactly ten',breaks='the decimal form of a spin-degeneracy-10 state is that of another particle',
demo='''#include "smash/pdgcode.h"
using namespace smash;
int main() {
  for (unsigned hex : {0x2212u, 0x2218u, 0x221au, 0x221cu, 0x221eu, 0x225u, 0x22bu, 0x21fu, 0x21du}) {
    PdgCode c(hex);
    REQUIRE(PdgCode::from_decimal(c.get_decimal()) == c);
    REQUIRE(PdgCode(c.string()) == c);
  }
}
''')
add(id='bottom-charm-flavour',property='C07',edits=[('src/pdgcode.cc','''  return ((otherquark % 2 == 0) ? -1 : 1) * antiparticle_sign();''',
'''  return ((otherquark % 2 == 0 || quark > 3) ? -1 : 1) * antiparticle_sign();''')],
needs='a meson made of a charm and a bottom quark (B_c)',breaks='charmness, and with it the charge, of B_c mesons has the wrong sign',
demo='''#include "smash/pdgcode.h"
using namespace smash;
int main() {
  for (int hex : {0x541, 0x543, -0x541, 0x521, 0x511, 0x531, 0x421, 0x431, 0x411}) {
    PdgCode c(hex);
    const int s = hex > 0 ? 1 : -1;
    if (std::abs(hex) >> 4 == 0x54) {
      REQUIRE(c.charge() == s);
      REQUIRE(c.charmness() == s);
      REQUIRE(c.bottomness() == s);
    }
    REQUIRE(std::abs(c.charge()) <= 1);
  }
}
''')
add(id='compare-heavy-flavour-sum',property='C08',edits=[('src/include/smash/quantumnumbers.h','''            charmness_ == rhs.charmness_ && bottomness_ == rhs.bottomness_ &&
''','''            charmness_ + bottomness_ == rhs.charmness_ + rhs.bottomness_ &&
''')],needs='two states whose charmness and bottomness differ by opposite amounts',
breaks='a transmutation of bottom into charm compares as equal',
demo='''#include "smash/quantumnumbers.h"
using namespace smash;
int main() {
  const FourVector p(1., 0., 0., 0.);
  QuantumNumbers a(p, 1, 0, 0, 1, 0, 0), b(p, 1, 0, 0, 0, 1, 0), c(p, 1, 0, 0, 1, 1, 0);
  REQUIRE(a == a);
  REQUIRE(!(a == b));
  REQUIRE(!(a == c));
  REQUIRE(a.report_deviations(b) != "");
}
''')
add(id='store-create-in-hole',property='C09',edits=[('src/particles.cc','''    data_[offset].type_ = pd.type_;
    data_[offset].hole_ = false;
    --number;''','''    data_[offset].type_ = pd.type_;
    --number;''')],needs='removing a particle that is not the last one and then creating several at once',
breaks='a particle created into a freed slot is skipped by iteration although it counts in the size',
demo=ACT+'''int main() {
  ParticleType::create_type_list(TYPES);
  Particles ps;
  ps.create(3, 0x2212);
  ParticleList l = ps.copy_to_vector();
  ps.remove(l[1]);
  ps.create(2, 0x211);
  size_t n = 0;
  for (const auto &p : ps) { (void)p; ++n; }
  REQUIRE(ps.size() == 4);
  REQUIRE(n == 4);
}
''')
add(id='store-stale-last',property='C09',edits=[('src/include/smash/particles.h','if (data_size_ <= copy.index_) {','if (data_size_ < copy.index_) {')],
needs='a stale copy of the last particle of the list after its removal',breaks='the removed last particle is still reported valid',
demo=ACT+'''int main() {
  ParticleType::create_type_list(TYPES);
  Particles ps;
  ps.create(3, 0x2212);
  ParticleList l = ps.copy_to_vector();
  ps.remove(l[1]);
  REQUIRE(!ps.is_valid(l[1]));
  ps.remove(l[2]);
  REQUIRE(ps.is_valid(l[0]));
  REQUIRE(!ps.is_valid(l[2]));
}
''')
add(id='actions-bulk-insert',property='C10',edits=[('src/include/smash/actions.h','''    for (auto& a : new_acts) {
      insert(std::move(a));
    }
''','''    const auto n_old = data_.size();
    for (auto& a : new_acts) {
      data_.push_back(std::move(a));
    }
    if (data_.size() - n_old > 2) {
      std::make_heap(data_.begin(), data_.end(), cmp);
    } else if (data_.size() > n_old) {
      std::push_heap(data_.begin(), data_.end(), cmp);
    }
''')],needs='inserting a list of exactly two actions into a queue, the first of them earlier than what is queued',
breaks='the heap order is lost, later actions are taken before earlier ones',
demo=ACT+'''int main() {
  ParticleType::create_type_list(TYPES);
  unsigned seed = 1;
  for (int round = 0; round < 300; round++) {
    Actions q;
    size_t total = 0;
    for (int k = 0; k < 4; k++) {
      ActionList l;
      const int n = 1 + (round + k) % 3;
      for (int i = 0; i < n; i++) {
        seed = seed * 1103515245u + 12345u;
        l.push_back(std::make_unique<TestAction>(ParticleList{mk(0x2212, 0, 0)}, ParticleList{}, ((seed >> 16) % 1000) * 0.01, ProcessType::None));
        ++total;
      }
      q.insert(std::move(l));
    }
    double last = -1;
    size_t n = 0;
    while (!q.is_empty()) {
      const double t = q.pop()->time_of_execution();
      REQUIRE(t >= last);
      last = t;
      ++n;
    }
    REQUIRE(n == total);
  }
}
''')
add(id='perform-forward-elastic',property='C11',edits=[('src/action.cc','''  for (ParticleData &p : outgoing_particles_) {
    /* Store the history info.''','''  for (ParticleData &p : outgoing_particles_) {
    const auto i_out = static_cast<size_t>(&p - outgoing_particles_.data());
    if (process_type_ == ProcessType::Elastic &&
        i_out < incoming_particles_.size() &&
        p.momentum() == incoming_particles_[i_out].momentum()) {
      continue;
    }
    /* Store the history info.''')],needs='an elastic scattering that leaves the momenta unchanged (forward scattering)',
breaks='the participants keep their old history, so other actions found for them before stay valid',
demo=ACT+'''int main() {
  ParticleType::create_type_list(TYPES);
  Particles ps;
  ps.insert(mk(0x2212, 0, 0.5));
  ps.insert(mk(0x2112, 1, -0.5));
  ParticleList l = ps.copy_to_vector();
  TestAction other({l[0]}, {l[0]}, 0.2, ProcessType::Elastic);
  TestAction act(l, l, 0.1, ProcessType::Elastic);
  REQUIRE(other.is_valid(ps));
  act.perform(&ps, 7);
  REQUIRE(!other.is_valid(ps));
  for (const auto &p : ps) {
    REQUIRE(p.id_process() == 7);
    REQUIRE(p.get_history().collisions_per_particle == 1);
  }
}
''')
add(id='conservation-failed-string',property='C13',edits=[('src/processbranch.cc','''  return p == ProcessType::StringSoftSingleDiffractiveAX ||
         p == ProcessType::StringSoftSingleDiffractiveXB ||
         p == ProcessType::StringSoftDoubleDiffractive ||
         p == ProcessType::StringSoftAnnihilation ||
         p == ProcessType::StringSoftNonDiffractive;''','''  return p >= ProcessType::StringSoftSingleDiffractiveAX &&
         p <= ProcessType::FailedString && p != ProcessType::StringHard;''')],
needs='a violating action of the failed-string process type',breaks='failed-string processes count as soft strings, whose conservation violations are only warned about',
demo=ACT+'''int main() {
  ParticleType::create_type_list(TYPES);
  for (ProcessType t : {ProcessType::Elastic, ProcessType::TwoToTwo, ProcessType::FailedString, ProcessType::TwoToOne}) {
    TestAction bad({mk(0x2212, 0, 0.5)}, {mk(0x2112, 0, 0.5)}, 0.1, t);
    bool thrown = false;
    try { bad.check_conservation(3); } catch (std::runtime_error &) { thrown = true; }
    REQUIRE(thrown);
    TestAction good({mk(0x2212, 0, 0.5)}, {mk(0x2212, 0, 0.5)}, 0.1, t);
    good.check_conservation(3);
  }
}
''')
add(id='wall-slow-particle',property='C15',edits=[('src/wallcrossingaction.cc','if (v[i] > really_small) {','if (v[i] > 1e-3) {')],
needs='a particle closer to the upper wall than its slow velocity covers in the step',breaks='slow particles leave the box through the upper wall without a wall crossing',
demo=ACT.replace('#include "smash/action.h"','#include "smash/action.h"\n#include "smash/wallcrossingaction.h"')+'''int main() {
  ParticleType::create_type_list(TYPES);
  WallCrossActionsFinder f(10.);
  for (double v : {5e-4, -5e-4, 0.5, -0.5}) {
    ParticleData p{ParticleType::find(0x2212)};
    p.set_4position(FourVector(1., v > 0 ? 9.9999 : 0.0001, 5., 5.));
    p.set_4momentum(FourVector(1., v, 0., 0.));
    const auto acts = f.find_actions_in_cell({p}, 1., 0., {});
    REQUIRE(acts.size() == 1);
    REQUIRE(std::abs(acts[0]->outgoing_particles()[0].position().x1() - (v > 0 ? 0. : 10.)) < 1e-9);
  }
}
''')
add(id='propagate-common-dt',property='C16',edits=[('src/propagation.cc','    dt = to_time - t0;\n','    if (!(dt > 0.0)) {\n      dt = to_time - t0;\n    }\n')],
needs='particles at different times in the same list',breaks='every particle is moved by the time step of the first one',
demo=ACT.replace('#include "smash/action.h"','#include "smash/action.h"\n#include "smash/propagation.h"')+'''int main() {
  ParticleType::create_type_list(TYPES);
  Particles ps;
  ps.insert(mk(0x2212, 0, 0.5, 0.2));
  ps.insert(mk(0x2112, 1, -0.5, 0.7));
  ps.insert(mk(0x211, 2, 0.1, 0.2));
  ParticleList l = ps.copy_to_vector();
  propagate_straight_line(&ps, 1.0, {});
  size_t i = 0;
  for (const auto &p : ps) {
    const ThreeVector r = l[i].position().threevec() + l[i].velocity() * (1.0 - l[i].position().x0());
    REQUIRE((p.position().threevec() - r).abs() < 1e-12);
    REQUIRE(p.position().x0() == 1.0);
    ++i;
  }
}
''')
add(id='hypersurface-backward-rapidity',property='C17',edits=[('src/hypersurfacecrossingfinder.cc','if (std::fabs(rapidity) > rap_cut_) {','if (rapidity > rap_cut_) {')],
needs='a particle crossing at strongly negative rapidity with a rapidity cut set',breaks='the rapidity cut is only applied in the forward hemisphere',
demo=ACT.replace('#include "smash/action.h"','#include "smash/action.h"\n#include "smash/hypersurfacecrossingfinder.h"')+'''int main() {
  ParticleType::create_type_list(TYPES);
  HyperSurfaceCrossActionsFinder f(0.5, 1.0, 0.0);
  for (double v : {0.9, -0.9, 0.1, -0.1}) {
    ParticleData p{ParticleType::find(0x2212)};
    p.set_4position(FourVector(0.4, 0., 0., 0.));
    p.set_4momentum(p.pole_mass(), 0., 0., v / std::sqrt(1 - v * v) * p.pole_mass());
    const auto a = f.find_actions_in_cell({p}, 5., 0., {});
    REQUIRE(a.size() == (std::abs(v) < 0.5 ? 1u : 0u));
  }
}
''')
make(S)
print(' '.join(s['id'] for s in S))
