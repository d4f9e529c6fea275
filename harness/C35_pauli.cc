// Phase-space densities used for Pauli blocking.
// @src pdgcode.cc particles.cc particledata.cc fourvector.cc threevector.cc stringfunctions.cc
// @entry c35_weights real reach=done time=100
// @entry c35_members real reach=counted,ignored time=200
// @entry c35_profile real reach=inner,outer time=200
// @entry c35_additive real reach=done time=200
// @bound up to 3 particles of 2 species in up to 2 ensembles, any positions and momenta, any query point; three parameter sets for the table of weights
// @assume doubles are encoded as reals (rounding abstracted); the error function and exponentials of concrete parameters are those of the C library
#include "sx_config.h"
#include "sx.h"
#include "smash_env.h"
#include "smash/experimentparameters.h"
#include "pauliblocking.cc"
using namespace smash;
static const PdgCode kP(0x2212), kN(0x2112);
static void setup() { sx_add_type("p", 0.938, 0., kP); sx_add_type("n", 0.938, 0., kN); sx_types_done(); }
static const double RR[] = {1.86, 2.5, 1.}, RC[] = {2.2, 3., 4.}, RP[] = {0.08, 0.2, 0.05}, SG[] = {1., 1.2, 0.7};
static const int NT[] = {1, 20, 7}, NE[] = {2, 1, 3};
static PauliBlocker blocker(int k) {
  Configuration c;
  c.set_value(InputKeys::collTerm_pauliBlocking_gaussianCutoff, RC[k]);
  c.set_value(InputKeys::collTerm_pauliBlocking_spatialAveragingRadius, RR[k]);
  c.set_value(InputKeys::collTerm_pauliBlocking_momentumAveragingRadius, RP[k]);
  ExperimentParameters *par = static_cast<ExperimentParameters *>(calloc(1, sizeof(ExperimentParameters)));
  par->gaussian_sigma = SG[k];
  par->testparticles = NT[k];
  par->n_ensembles = NE[k];
  return PauliBlocker(c, *par);
}
static ParticleData at(PdgCode c, const ThreeVector &r, const ThreeVector &p) {
  ParticleData d = sx_particle(c);
  d.set_4position(FourVector(0, r));
  d.set_4momentum(0.938, p);
  return d;
}
static ThreeVector sym(const char *n, double m) { return ThreeVector(sx_range(n, -m, m), sx_range(n, -m, m), sx_range(n, -m, m)); }
static std::vector<Particles> one(const ParticleData &d) { std::vector<Particles> e(1); e[0].insert(d); return e; }
// Density contributed by one particle at distance x (inside the momentum sphere).
static double profile(const PauliBlocker &b, double x) {
  return b.phasespace_dens(ThreeVector(), ThreeVector(), one(at(kP, ThreeVector(x, 0, 0), ThreeVector())), kP, ParticleList());
}
// fraction of a Gaussian cloud (truncated at rc) at distance x that lies within rr, per phase-space cell
static double exact(int k, double x) {
  const double s = SG[k], rr = RR[k], rc = RC[k], n = 4000;
  // slice the averaging sphere by distance from the centre of the cloud
  double in = 0;
  for (int i = 0; i < n; i++) {
    const double r = rc * (i + 0.5) / n;
    double frac;  // part of the shell of radius r around the cloud centre that lies inside the sphere
    if (r + x <= rr) frac = 1;
    else if (std::fabs(r - x) >= rr) frac = 0;
    else frac = x > 0 ? (rr * rr - (r - x) * (r - x)) / (4 * r * x) : 0;
    in += frac * 4 * M_PI * r * r * std::exp(-r * r / (2 * s * s)) * rc / n;
  }
  in /= std::pow(2 * M_PI * s * s, 1.5);
  const double norm = std::erf(rc / std::sqrt(2.) / s) - rc * 2 / std::sqrt(2 * M_PI) / s * std::exp(-0.5 * rc * rc / s / s);
  const double cell = 2 * (4. / 3 * M_PI * rr * rr * rr) * (4. / 3 * M_PI * std::pow(RP[k], 3)) / std::pow(2 * M_PI * 0.197327053, 3);
  return in / norm / cell / NT[k] / NE[k];
}
ENTRY(c35_weights) {
  setup();
  const int k = sx_choose(0, 2, "set");
  const PauliBlocker b = blocker(k);
  const double top = profile(b, 0);
  CHECK(std::fabs(top - exact(k, 0)) < 1e-3 * top);
  double last = top;
  for (int i = 1; i < 29; i++) {
    const double x = (RR[k] + RC[k]) / 30 * i * 1.0000001, f = profile(b, x);
    CHECK((f >= 0) & (f <= last * (1 + 1e-6)));
    CHECK(std::fabs(f - exact(k, x)) < 2e-3 * top);
    last = f;
  }
  sx_reach("done");
}
// Between support points the density is interpolated: continuous and falling with distance.
ENTRY(c35_profile) {
  setup();
  const int k = sx_choose(0, 2, "set");
  const PauliBlocker b = blocker(k);
  const double R = RR[k] + RC[k], step = R / 30;
  const double x = sx_range("x", 0, 28.5 / 30) * R;
  const int i = sx_choose(0, 28, "interval");
  sx_assume((x >= step * i) & (x < step * (i + 1)));
  if (i == 28) sx_assume(x < step * 28.5);
  const double f = profile(b, x);
  CHECK(f >= 0);
  const double lo = profile(b, step * i * (1 + 1e-9)), hi = i + 1 < 29 ? profile(b, step * (i + 1) * (1 + 1e-9)) : 0;
  CHECK(f <= lo * (1 + 1e-6));
  if (i < 28) CHECK(f >= hi * (1 - 1e-6));
  if (i < 28) CLOSET(f, lo + (hi - lo) * (x - step * i) / step, 1e-4);
  sx_reach(i < 10 ? "inner" : "outer");
}
ENTRY(c35_members) {
  setup();
  const PauliBlocker b = blocker(0);
  const ThreeVector r = sym("r", 5), p = sym("p", 1), pr = sym("x", 5), pp = sym("q", 1);
  const int c = sx_choose(0, 1, "species"), skip = sx_choose(0, 2, "disregard");
  const std::vector<Particles> e = one(at(c ? kN : kP, pr, pp));
  ParticleList dis;
  if (skip == 1) dis.push_back(e[0].front());
  if (skip == 2) { dis.push_back(e[0].front()); dis[0].set_id(77); }
  const double f = b.phasespace_dens(r, p, e, kP, dis);
  CHECK(f >= 0);
  const double dr = (r - pr).sqr(), dp = (p - pp).sqr(), R = RR[0] + RC[0];
  if (c || skip == 1 || dr >= R * R || dp > RP[0] * RP[0]) { CHECK(f == 0); sx_reach("ignored"); }
  else {
    // only the distance counts
    CLOSE(f, profile(b, std::sqrt(dr)));
    if (dr < 0.9 * R * R) CHECK(f > 0);
    sx_reach("counted");
  }
}
ENTRY(c35_additive) {
  setup();
  const PauliBlocker b = blocker(1);
  std::vector<Particles> e(2);
  double sum = 0;
  for (int i = 0; i < 3; i++) {
    const ParticleData d = at(sx_choose(0, 1, "species") ? kN : kP, ThreeVector(sx_choose(0, 2, "x") * 2.3, 0.1, 0), ThreeVector(0, 0, sx_choose(0, 1, "p") * 0.3));
    const double before = b.phasespace_dens(ThreeVector(), ThreeVector(), e, kP, ParticleList());
    sum += b.phasespace_dens(ThreeVector(), ThreeVector(), one(d), kP, ParticleList());
    e[sx_choose(0, 1, "ensemble")].insert(d);
    const double after = b.phasespace_dens(ThreeVector(), ThreeVector(), e, kP, ParticleList());
    CHECK(after >= before);
    CLOSE(after, sum);
  }
  CHECK(b.phasespace_dens(ThreeVector(), ThreeVector(), e, PdgCode(0x211), ParticleList()) == 0);
  sx_reach("done");
}
