// Lorentz boosts over all four-vectors and sub-luminal velocities.
// @src fourvector.cc threevector.cc
// @entry c01_norm real reach=done
// @entry c01_inner real reach=done
// @entry c01_inverse real reach=done
// @entry c01_rest real reach=done
// @bound every real component value; |v| < 1; no loops
// @assume doubles are encoded as reals (rounding abstracted); exact IEEE behaviour of the same code is outside this claim
#include "sx.h"
#include "smash/fourvector.h"
using namespace smash;
static FourVector fv(const char *a, const char *b, const char *c, const char *d) { return FourVector(sx_f64(a), sx_f64(b), sx_f64(c), sx_f64(d)); }
static ThreeVector vel() {
  ThreeVector v(sx_f64("vx"), sx_f64("vy"), sx_f64("vz"));
  sx_assume(v.sqr() < 0.9999);
  return v;
}
ENTRY(c01_norm) {
  FourVector a = fv("t", "x", "y", "z");
  ThreeVector v = vel();
  FourVector b = a.lorentz_boost(v);
  CLOSE(b.sqr(), a.sqr());
  sx_reach("done");
}
ENTRY(c01_inner) {
  FourVector a = fv("t", "x", "y", "z"), c = fv("t2", "x2", "y2", "z2");
  ThreeVector v = vel();
  FourVector b = a.lorentz_boost(v), d = c.lorentz_boost(v);
  CLOSE(b.Dot(d), a.Dot(c));
  sx_reach("done");
}
ENTRY(c01_inverse) {
  FourVector a = fv("t", "x", "y", "z");
  ThreeVector v = vel();
  FourVector b = a.lorentz_boost(v).lorentz_boost(-v);
  CLOSE(b.x0(), a.x0());
  CLOSE(b.x1(), a.x1());
  CLOSE(b.x2(), a.x2());
  CLOSE(b.x3(), a.x3());
  sx_reach("done");
}
ENTRY(c01_rest) {
  ThreeVector p(sx_f64("px"), sx_f64("py"), sx_f64("pz"));
  double m = sx_f64("m");
  sx_assume(m > 0);
  FourVector a(std::sqrt(m * m + p.sqr()), p);
  FourVector b = a.lorentz_boost(a.velocity());
  CLOSE(b.x0(), m);
  CLOSE(b.x1(), 0.);
  CLOSE(b.x2(), 0.);
  CLOSE(b.x3(), 0.);
  CLOSE(a.abs(), m);
  sx_reach("done");
}
