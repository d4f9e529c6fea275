// Random samplers stay inside their documented range and cover it.
// @src pdgcode.cc fourvector.cc threevector.cc processbranch.cc distributions.cc random.cc stringfunctions.cc
// @entry c26_uniform real reach=done time=60
// @entry c26_uniform_int exact reach=done time=60
// @entry c26_exponential real reach=done time=60
// @entry c26_expo real reach=done time=100
// @entry c26_power real reach=done,logarithmic time=100
// @entry c26_cauchy real reach=done time=100
// @entry c26_beta_a0 real reach=done time=60
// @entry c26_isotropic real reach=done time=60
// @entry c26_bessel real reach=gauss,table time=100
// @entry c26_momenta real reach=non_eq,ic1m,ic2m,thermal,es time=100
// @entry c26_mass1 real reach=done time=100
// @entry c26_mass2 real reach=done time=100
// @bound all generator outputs in [0, 1] (generators may return 1), all parameters in the documented domain of each sampler (power-law exponents chosen from 9 values, pair numbers from 10 parameter sets), the first two rounds of rejection loops
// @assume doubles are encoded as reals (rounding abstracted); exp, log, atan, tan and powers enter through their monotonicity, sign and inverse relations
#include "sx.h"
#define SX_NO_ENGINE
#include "smash_env.h"
#include "smash/angles.h"
#include "smash/decaymodes.h"
#include "smash/distributions.h"
#include "smash/kinematics.h"
namespace smash {
Potentials *pot_pointer = nullptr;
RectangularLattice<FourVector> *UB_lat_pointer = nullptr, *UI3_lat_pointer = nullptr;
std::vector<DecayModes> *DecayModes::all_decay_modes = nullptr;
}
using namespace smash;
extern "C" double gsl_sf_bessel_K1(double) { return sx_range("K1", 1e-6, 1e6); }
extern "C" double gsl_sf_bessel_Kn(int, double) { return sx_range("K2", 1e-6, 1e6); }
// Fixes the next draw.
static void draw(double u) { sx_rq[0] = u; sx_rq_n = 1; sx_rq_i = 0; }
static double unit(const char *n) { return sx_range(n, 0, 1); }
ENTRY(c26_uniform) {
  const double a = sx_range("min", -1e6, 1e6), b = sx_range("max", -1e6, 1e6);
  sx_assume(a <= b);
  const double u = unit("u");
  double x;
  if (sx_choose(0, 1, "object")) {
    auto d = random::make_uniform_distribution(a, b);
    draw(u);
    x = d();
  } else { draw(u); x = random::uniform(a, b); }
  CHECK((x >= a) & (x <= b));
  CLOSE(x - a, u * (b - a));
  draw(u);
  const double c = random::canonical();
  CHECK((c >= 0) & (c <= 1));
  draw(u);
  const double n = random::canonical_nonzero();
  CHECK((n > 0) & (n <= 1));
  sx_reach("done");
}
ENTRY(c26_uniform_int) {
  const int a = sx_i32("min"), b = sx_i32("max");
  sx_assume(a <= b);
  const int x = random::uniform_int(a, b);
  CHECK((x >= a) & (x <= b));
  sx_reach("done");
}
ENTRY(c26_exponential) {
  const double l = sx_range("lambda", 1e-6, 1e6), u = sx_range("u", 0, 1), v = sx_range("v", 0, 1);
  draw(u);
  const double x = random::exponential(l);
  CHECK(x >= 0);
  draw(u);
  const double y = random::exponential(1.);
  CLOSE(x * l, y);
  draw(v);
  const double z = random::exponential(l);
  CHECK(!(u + 1e-12 < v) | (x >= z));
  draw(1.);
  CHECK(random::exponential(l) == 0);
  sx_reach("done");
}
ENTRY(c26_expo) {
  sx_rcap = 3;
  const double A = sx_range("A", 1e-3, 100), x1 = sx_range("x1", -5, 5), x2 = sx_range("x2", -1e6, 5), u = sx_range("u", 0, 1);
  sx_assume((x1 >= x2) & (A * x1 > -700));
  draw(u);
  const double x = random::expo(A, x1, x2);
  CHECK((x <= x1) & (x > x2));
  sx_assume(sx_rcount == 1);
  // the cumulative distribution of exp(A x) is the draw itself
  if (A * x2 > -700) CLOSE(std::exp(A * x) - std::exp(A * x2), (1 - u) * (std::exp(A * x1) - std::exp(A * x2)));
  sx_reach("done");
}
ENTRY(c26_power) {
  static const double ns[] = {-1., 1., 3., 0.25, -0.5, -3., -2., 0., -0.9995};
  const int k = sx_choose(0, 8, "n");
  const bool negative = sx_choose(0, 1, "negative");
  const double a0 = sx_range("min", 1e-3, 1e3), b0 = sx_range("max", 1e-3, 1e3);
  const double a = negative ? -a0 : a0, b = negative ? -b0 : b0;
  sx_assume(a < b);
  const double u = unit("u");
  draw(u);
  const double x = random::power(ns[k], a, b);
  CHECK((x >= a - 1e-9 * a0) & (x <= b + 1e-9 * b0));
  draw(0.);
  CLOSE(random::power(ns[k], a, b), a);
  draw(1.);
  CLOSE(random::power(ns[k], a, b), b);
  if (k == 0 || k == 8) { sx_reach("logarithmic"); return; }
  // cumulative distribution: |x|^(n+1) is uniform between its end points
  const double n1 = ns[k] + 1, pa = std::pow(std::abs(a), n1), pb = std::pow(std::abs(b), n1);
  CLOSE(std::pow(std::abs(x), n1) - pa, u * (pb - pa));
  sx_reach("done");
}
ENTRY(c26_cauchy) {
  const double pole = sx_range("pole", 0.1, 5), w = sx_range("width", 1e-3, 5), a = sx_range("min", -10, 10), b = sx_range("max", -10, 10), u = unit("u");
  sx_assume(a < b);
  draw(u);
  const double x = random::cauchy(pole, w, a, b);
  CHECK((x >= a - 1e-9) & (x <= b + 1e-9));
  // cumulative distribution
  const double at = std::atan((x - pole) / w), aa = std::atan((a - pole) / w), ab = std::atan((b - pole) / w);
  CLOSE(at - aa, u * (ab - aa));
  sx_reach("done");
}
ENTRY(c26_beta_a0) {
  sx_rcap = 4;
  const double xmin = sx_range("xmin", 1e-6, 0.999999), b = sx_range("b", 0, 10);
  const double x = random::beta_a0(xmin, b);
  CHECK((x >= xmin - 1e-12) & (x <= 1));
  sx_reach("done");
}
ENTRY(c26_isotropic) {
  const double u = sx_range("u", 0, 1), v = unit("v");
  sx_assume((u < 1) & (v < 1));
  sx_rq[0] = u; sx_rq[1] = v; sx_rq_n = 2;
  Angles a;
  a.distribute_isotropically();
  CHECK((a.phi() >= 0) & (a.phi() < 2 * M_PI));
  CHECK((a.costheta() >= -1) & (a.costheta() <= 1));
  CHECK(sx_rq_i == 2);
  // one draw spans the full circle, the other one the full range of the cosine, both uniformly
  const double p = a.phi() / (2 * M_PI), c = (a.costheta() + 1) / 2;
  CHECK(((std::abs(p - u) < 1e-6) & ((std::abs(c - v) < 1e-6) | (std::abs(c - (1 - v)) < 1e-6))) |
        ((std::abs(p - v) < 1e-6) & ((std::abs(c - u) < 1e-6) | (std::abs(c - (1 - u)) < 1e-6))));
  sx_reach("done");
}
ENTRY(c26_bessel) {
  static const double m1[] = {0.5, 2., 0.01, 8., 7., 20., 9., 6.5, 100., 50.}, m2[] = {0.5, 3., 2., 1., 8., 20., 6., 6.5, 40., 60.};
  static const int ds[] = {0, 1, -1, 4, -4};
  const int k = sx_choose(0, 9, "means"), d = ds[sx_choose(0, 4, "difference")];
  random::BesselSampler s(m1[k], m2[k], d);
  const std::pair<int, int> n = s.sample();
  CHECK(n.first - n.second == d);
  CHECK((n.first >= 0) & (n.second >= 0));
  if (k < 4) sx_reach("table"); else sx_reach("gauss");
}
ENTRY(c26_momenta) {
  const int kind = sx_choose(0, 4, "sampler");
  const double T = sx_range("T", 0.01, 1), m = sx_choose(0, 1, "massless") ? 0. : sx_range("m", 0.01, 0.4);
  double p = 0;
  if (kind == 0) {
    sx_assume(m < 50 * T);
    sx_rcap = 4;
    p = sample_momenta_non_eq_mass(T, m);
    CHECK(p * p <= 2500 * T * T - m * m + 1e-9);
    sx_reach("non_eq");
  } else if (kind < 3) {
    sx_assume(m < 50 * T);
    sx_rcap = 4;
    p = kind == 1 ? sample_momenta_1M_IC(T, m) : sample_momenta_2M_IC(T, m);
    CHECK(p * p <= 2500 * T * T - m * m + 1e-9);
    if (kind == 1) sx_reach("ic1m"); else sx_reach("ic2m");
  } else if (kind == 3) {
    sx_rcap = 9;
    p = sample_momenta_from_thermal(T, m);
    sx_reach("thermal");
  } else {
    p = sample_momenta_IC_ES(T);
    sx_reach("es");
  }
  CHECK(p >= 0);
}
// Resonances with a constant width; the spectral threshold is set directly.
struct Channel : DecayType {
  Channel(ParticleTypePtrList l) : DecayType(l, 1) {}
  unsigned int particle_number() const override { return 2; }
  bool has_particles(ParticleTypePtrList) const override { return true; }
  double width(double, double G0, double) const override { return G0; }
  double in_width(double, double, double, double, double) const override { return 0; }
};
static double thr[2];
static void resonances() {
  sx_add_type("pi", 0.138, 0., PdgCode(0x211));
  sx_add_type("rho", 0.776, 0.149, PdgCode(0x113));
  sx_add_type("sigma", 0.8, 0.4, PdgCode(0x9000221));
  sx_types_done();
  static std::vector<DecayModes> modes(ParticleType::list_all().size());
  DecayModes::all_decay_modes = &modes;
  const ParticleTypePtr pi = &ParticleType::find(PdgCode(0x211));
  static Channel ch({pi, pi});
  for (size_t i = 0; i < modes.size(); i++) {
    const ParticleType &t = ParticleType::list_all()[i];
    if (t.is_stable()) continue;
    const int k = t.mass() < 0.79 ? 0 : 1;
    modes[i].add_mode(std::make_unique<DecayBranch>(ch, 1.));
    thr[k] = sx_range("threshold", 0.28, 0.6);
    t.min_mass_spectral_ = t.min_mass_kinematic_ = thr[k];
    t.norm_factor_ = 1;
  }
}
ENTRY(c26_mass1) {
  resonances();
  sx_rcap = 2;
  const ParticleType &r = ParticleType::find(PdgCode(0x113));
  const double ms = sx_range("stable", 0.1, 1), s = sx_range("srts", 0.3, 4);
  sx_assume(s > ms + thr[0] + 1e-3);
  const double m = r.sample_resonance_mass(ms, s, 0);
  CHECK((m >= thr[0] - 1e-9) & (m <= s - ms + 1e-9));
  sx_reach("done");
}
// One of the two draws and the energy are taken from a list.
ENTRY(c26_mass2) {
  resonances();
  sx_rcap = 3;
  const ParticleType &r = ParticleType::find(PdgCode(0x113)), &t = ParticleType::find(PdgCode(0x9000221));
  thr[0] = r.min_mass_spectral_ = 0.28;
  thr[1] = t.min_mass_spectral_ = 0.3;
  static const double us[] = {0., 0.5, 0.9, 1.}, ss[] = {0.6, 1.3, 3.};
  const double s = ss[sx_choose(0, 2, "srts")], q = sx_range("accept", 1e-6, 1), u = us[sx_choose(0, 3, "draw")], v = sx_range("v", 0, 0.9999);
  const bool swap = sx_choose(0, 1, "swap");
  sx_rq[0] = swap ? u : v; sx_rq[1] = swap ? v : u; sx_rq[2] = q; sx_rq_n = 3;
  const std::pair<double, double> m = r.sample_resonance_masses(t, s, 0);
  CHECK((m.first >= thr[0] - 1e-9) & (m.second >= thr[1] - 1e-9));
  CHECK(m.first + m.second <= s + 1e-9);
  sx_reach("done");
}
