// Energy-momentum tensors.
// @src pdgcode.cc particledata.cc fourvector.cc threevector.cc energymomentumtensor.cc
// @flags -DEIGEN_DONT_VECTORIZE -DNDEBUG
// @entry c28_index real reach=inside,outside time=60
// @entry c28_particles real reach=done time=100
// @entry c28_algebra real reach=done time=100
// @entry c28_boost real reach=done time=150
// @entry c28_invariants real reach=done time=200
// @bound any tensor components, factors and momenta (|value| <= 10^3); sets of up to 3 particles; boosts with any 4-velocity whose spatial part is within 10^3
// @assume doubles are encoded as reals (rounding abstracted)
#include "sx.h"
#include "smash_env.h"
#include "smash/energymomentumtensor.h"
using namespace smash;
static void setup() { sx_add_type("pi", 0.138, 0., PdgCode(0x211)); sx_types_done(); }
static int at(int m, int n) {
  static const int I[4][4] = {{0, 1, 2, 3}, {1, 4, 5, 6}, {2, 5, 7, 8}, {3, 6, 8, 9}};
  return I[m][n];
}
ENTRY(c28_index) {
  const int8_t m = int8_t(sx_u8("mu")), n = int8_t(sx_u8("nu"));
  bool threw = false;
  try {
    const int i = EnergyMomentumTensor::tmn_index(m, n);
    CHECK((m >= 0) & (m < 4) & (n >= 0) & (n < 4));
    CHECK(i == at(m, n));
    CHECK(EnergyMomentumTensor::tmn_index(n, m) == i);
    sx_reach("inside");
  } catch (std::invalid_argument &) { threw = true; sx_reach("outside"); }
  CHECK(threw == ((m < 0) | (m > 3) | (n < 0) | (n > 3)));
}
static FourVector mom(const char *n) {
  FourVector p;
  for (int i = 1; i < 4; i++) p[i] = sx_range(n, -1e3, 1e3);
  p[0] = sx_range("E", 1e-3, 1e3);
  return p;
}
static ParticleData part(const FourVector &p) { ParticleData d = sx_particle(PdgCode(0x211)); d.set_4momentum(p); return d; }
ENTRY(c28_particles) {
  setup();
  EnergyMomentumTensor t, r;
  for (double x : t) CHECK(x == 0);
  const int n = sx_choose(1, 3, "n");
  FourVector p[3];
  double f[3];
  for (int i = 0; i < n; i++) {
    p[i] = mom("p");
    f[i] = sx_range("factor", -1e3, 1e3);
    t.add_particle(part(p[i]), f[i]);
  }
  for (int i = n; i-- > 0;) r.add_particle(part(p[i]), f[i]);
  for (int m = 0; m < 4; m++)
    for (int k = 0; k < 4; k++) {
      double ref = 0;
      for (int i = 0; i < n; i++) ref += f[i] * p[i][m] * p[i][k] / p[i][0];
      CLOSE(t[EnergyMomentumTensor::tmn_index(m, k)], ref);
      CLOSE(r[EnergyMomentumTensor::tmn_index(m, k)], ref);
    }
  // taking one particle out again
  t.add_particle(part(p[0]), -f[0]);
  EnergyMomentumTensor u;
  for (int i = 1; i < n; i++) u.add_particle(part(p[i]), f[i]);
  for (int i = 0; i < 10; i++) CLOSE(t[i], u[i]);
  sx_reach("done");
}
static EnergyMomentumTensor sym(const char *n) {
  EnergyMomentumTensor t;
  for (double &x : t) x = sx_range(n, -1e3, 1e3);
  return t;
}
ENTRY(c28_algebra) {
  const EnergyMomentumTensor a = sym("a"), b = sym("b");
  const double f = sx_range("f", -1e3, 1e3);
  EnergyMomentumTensor s = a + b, d = a - b, m = a * f, l = f * a, back = a;
  back += b;
  for (int i = 0; i < 10; i++) {
    CLOSE(s[i], a[i] + b[i]); CLOSE(d[i], a[i] - b[i]); CLOSE(m[i], f * a[i]); CLOSE(l[i], f * a[i]); CLOSE(back[i], s[i]);
  }
  back -= b;
  if (f != 0) { const EnergyMomentumTensor q = a / f; for (int i = 0; i < 10; i++) CLOSE(q[i] * f, a[i]); }
  m *= 0;
  for (int i = 0; i < 10; i++) { CLOSE(back[i], a[i]); CHECK(m[i] == 0); }
  const EnergyMomentumTensor c{std::array<double, 10>{a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]}};
  int i = 0;
  for (double x : c) { CHECK(x == a[i]); CHECK(c[i] == a[i]); i++; }
  CHECK(i == 10);
  sx_reach("done");
}
static FourVector velocity() {
  ThreeVector u;
  for (int i = 0; i < 3; i++) u[i] = sx_range("u", -1e3, 1e3);
  return FourVector(std::sqrt(1 + u.sqr()), u);
}
// Boosting the tensor of a set of particles boosts the momenta of the particles.
ENTRY(c28_boost) {
  setup();
  const FourVector u = velocity();
  const FourVector p[2] = {mom("p"), mom("p")};
  FourVector b[2];
  EnergyMomentumTensor t;
  for (int i = 0; i < 2; i++) {
    t.add_particle(p[i]);
    // u has a lower index: its spatial part points against the motion of the frame
    const double up = u[1] * p[i][1] + u[2] * p[i][2] + u[3] * p[i][3];
    b[i][0] = u[0] * p[i][0] + up;
    for (int k = 1; k < 4; k++) b[i][k] = p[i][k] + u[k] * (p[i][0] + up / (1 + u[0]));
  }
  const EnergyMomentumTensor r = t.boosted(u);
  for (int m = 0; m < 4; m++)
    for (int k = m; k < 4; k++) CLOSE(r[at(m, k)], b[0][m] * b[0][k] / p[0][0] + b[1][m] * b[1][k] / p[1][0]);
  sx_reach("done");
}
ENTRY(c28_invariants) {
  const EnergyMomentumTensor t = sym("t");
  const FourVector u = velocity();
  const EnergyMomentumTensor r = t.boosted(u);
  CLOSE(r[0] - r[4] - r[7] - r[9], t[0] - t[4] - t[7] - t[9]);
  // a frame at rest changes nothing, the opposite boost restores the tensor
  const EnergyMomentumTensor same = t.boosted(FourVector(1, 0, 0, 0)), back = r.boosted(FourVector(u[0], -u.threevec()));
  for (int i = 0; i < 10; i++) CLOSE(same[i], t[i]);
  for (int i = 0; i < 10; i++) CLOSE(back[i], t[i]);
  sx_reach("done");
}
