// Directions stored as (phi, cos theta).
// @src threevector.cc
// @entry c03_phi real reach=done
// @entry c03_cost real reach=done,thrown
// @entry c03_add real reach=low,high,mid,thrown time=200
// @entry c03_add_reverse real reach=done
// @entry c03_theta real reach=done
// @entry c03_iso real reach=done
// @entry c03_phi_exact reach=done time=100 ab=60
// @bound every real angle with |phi| <= 50 (set_phi), every cosine, every increment; exact entry: every double in [-2*pi, 4*pi)
// @assume real mode abstracts rounding; trigonometric functions are constrained by Pythagoras, addition of multiples of pi/2, inverse and quadrant facts
#include "sx.h"
#include "smash/angles.h"
using namespace smash;
namespace smash { random::Engine random::engine; }
ENTRY(c03_phi) {
  double phi = sx_range("phi", -50, 50), c = sx_range("c", -1, 1);
  Angles a(phi, c);
  CHECK(a.phi() >= -1e-12);
  CHECK(a.phi() < twopi + 1e-12);
  CLOSE(a.costheta(), c);
  const double k = (phi - a.phi()) / twopi;
  CLOSE(k, std::round(k));
  CHECK(a.sintheta() >= 0);
  CLOSE(a.threevec().sqr(), 1.);
  CLOSE(a.z(), c);
  CLOSE(a.x(), a.sintheta() * std::cos(a.phi()));
  CLOSE(a.y(), a.sintheta() * std::sin(a.phi()));
  Angles b;
  b.set_psi(phi);
  CHECK((b.psi() >= -1e-12) & (b.psi() < twopi + 1e-12));
  const double k2 = (phi - b.psi()) / twopi;
  CLOSE(k2, std::round(k2));
  sx_reach("done");
}
ENTRY(c03_cost) {
  double c = sx_f64("c");
  Angles a;
  bool thrown = false;
  try {
    a.set_costheta(c);
  } catch (Angles::InvalidTheta &) {
    thrown = true;
  }
  if (thrown) {
    CHECK((c < -1) | (c > 1));
    sx_reach("thrown");
    return;
  }
  CHECK((c >= -1 - 1.1e-6) & (c <= 1 + 1.1e-6));
  CHECK((a.costheta() >= -1) & (a.costheta() <= 1));
  CHECK(a.sintheta() >= 0);
  if ((c >= -1) & (c <= 1)) CHECK(a.costheta() == c);
  sx_reach("done");
}
ENTRY(c03_theta) {
  double th = sx_range("theta", 0, 3.14159265358979), phi = sx_range("phi", 0, 6.28);
  Angles a(phi, 0.);
  a.set_theta(th);
  CLOSE(a.costheta(), std::cos(th));
  CLOSE(a.sintheta(), std::sin(th));
  CLOSE(a.phi(), phi);
  sx_reach("done");
}
ENTRY(c03_add) {
  double phi = sx_range("phi", 0, 6.28), c = sx_range("c", -1, 1), d = sx_range("d", -3.5, 3.5);
  Angles a(phi, c);
  const double th = a.theta();
  bool flipped = false, thrown = false;
  try {
    flipped = a.add_to_theta(d);
  } catch (Angles::InvalidTheta &) {
    thrown = true;
  }
  if (thrown) {
    CHECK((d < -3.14159) | (d > 3.14159));
    sx_reach("thrown");
    return;
  }
  CHECK((d > -3.1416) & (d < 3.1416));
  const double nt = th + d;
  // Direction expected from rotating within the meridian plane
  CLOSE(a.costheta(), std::cos(nt));
  if (nt < -1e-9) {
    CHECK(flipped);
    sx_reach("low");
  } else if (nt > M_PI + 1e-9) {
    CHECK(flipped);
    sx_reach("high");
  } else if ((nt > 1e-9) & (nt < M_PI - 1e-9)) {
    CHECK(!flipped);
    sx_reach("mid");
  }
  if (flipped) {
    const double k = (a.phi() - phi - M_PI) / twopi;
    CLOSE(k, std::round(k));
  } else {
    CLOSE(a.phi(), phi);
  }
  CHECK((a.phi() >= -1e-12) & (a.phi() < twopi + 1e-12));
}
ENTRY(c03_add_reverse) {
  double phi = sx_range("phi", 0, 6.28), c = sx_range("c", -1, 1), d = sx_range("d", -3.14, 3.14);
  bool rev = sx_bool("rev");
  Angles a(phi, c), b(phi, c);
  const bool fa = a.add_to_theta(d, rev);
  const bool fb = b.add_to_theta(rev ? -d : d);
  CLOSE(a.costheta(), b.costheta());
  CLOSE(a.phi(), b.phi());
  CHECK(fa == (fb != rev));
  sx_reach("done");
}
ENTRY(c03_iso) {
  Angles a;
  a.distribute_isotropically();
  CHECK((a.phi() >= -1e-12) & (a.phi() < twopi + 1e-12));
  CHECK((a.costheta() >= -1) & (a.costheta() <= 1));
  CLOSE(a.threevec().sqr(), 1.);
  sx_reach("done");
}
ENTRY(c03_phi_exact) {
  double phi = sx_f64("phi");
  sx_assume((phi >= -6.2) & (phi < 12.5));
  Angles a;
  a.set_phi(phi);
  CHECK(a.phi() >= -1e-300);
  CHECK(a.phi() <= twopi);
  sx_reach("done");
}
