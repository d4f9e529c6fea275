// Vector algebra and rotations.
// @src fourvector.cc threevector.cc
// @entry c02_three real reach=done
// @entry c02_four real reach=done
// @entry c02_euler real reach=done
// @entry c02_axes real reach=done
// @entry c02_zto real reach=done,onaxis time=200 ab=40
// @entry c02_spherical real reach=done
// @entry c02_hyper real reach=done,spacelike
// @bound every real component value and angle; transverse size of the target axis of rotate_z_axis_to at least 1e-6 (the documented cut-off) or exactly 0
// @assume doubles are encoded as reals (rounding abstracted); sin/cos are constrained by sin^2+cos^2=1, range and quadrant facts
#include "sx.h"
#include "smash/fourvector.h"
#include <stdexcept>
using namespace smash;
static ThreeVector tv(const char *a, const char *b, const char *c) { return ThreeVector(sx_f64(a), sx_f64(b), sx_f64(c)); }
#define EQ3(v, a, b, c) do { CLOSE((v).x1(), (a)); CLOSE((v).x2(), (b)); CLOSE((v).x3(), (c)); } while (0)
ENTRY(c02_three) {
  ThreeVector a = tv("ax", "ay", "az"), b = tv("bx", "by", "bz");
  double k = sx_f64("k");
  EQ3(a + b, a[0] + b[0], a[1] + b[1], a[2] + b[2]);
  EQ3(a - b, a[0] - b[0], a[1] - b[1], a[2] - b[2]);
  EQ3(-a, -a[0], -a[1], -a[2]);
  EQ3(a * k, k * a[0], k * a[1], k * a[2]);
  EQ3(k * a, k * a[0], k * a[1], k * a[2]);
  CLOSE(a * b, a[0] * b[0] + a[1] * b[1] + a[2] * b[2]);
  CLOSE(a.sqr(), a * a);
  CLOSE(a.abs() * a.abs(), a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
  CHECK(a.abs() >= 0);
  ThreeVector c = a.cross_product(b);
  CLOSE(c * a, 0.);
  CLOSE(c * b, 0.);
  EQ3(c, a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
  CLOSE(c.sqr(), a.sqr() * b.sqr() - (a * b) * (a * b));
  ThreeVector d = a;
  d += b;
  d -= a;
  EQ3(d, b[0], b[1], b[2]);
  sx_assume(k != 0);
  EQ3((a / k) * k, a[0], a[1], a[2]);
  d = a;
  d /= k;
  d *= k;
  EQ3(d, a[0], a[1], a[2]);
  sx_reach("done");
}
ENTRY(c02_four) {
  FourVector a(sx_f64("t"), sx_f64("x"), sx_f64("y"), sx_f64("z")), b(sx_f64("t2"), sx_f64("x2"), sx_f64("y2"), sx_f64("z2"));
  double k = sx_f64("k");
  FourVector s = a + b, d = a - b, m = a * k, m2 = k * a;
  for (int i = 0; i < 4; i++) {
    CLOSE(s[i], a[i] + b[i]);
    CLOSE(d[i], a[i] - b[i]);
    CLOSE(m[i], k * a[i]);
    CLOSE(m2[i], k * a[i]);
  }
  CLOSE(a.Dot(b), a[0] * b[0] - a.threevec() * b.threevec());
  CLOSE(a.Dot(b), b.Dot(a));
  CLOSE(a.sqr(), a.Dot(a));
  CLOSE(s.sqr(), a.sqr() + b.sqr() + 2 * a.Dot(b));
  CLOSE(a.sqr3(), a.threevec().sqr());
  CLOSE(a.abs3() * a.abs3(), a.sqr3());
  CHECK(a.x0() == a[0] && a.x1() == a[1] && a.x2() == a[2] && a.x3() == a[3]);
  CHECK((a < b) == (a[0] < b[0] && a[1] < b[1] && a[2] < b[2] && a[3] < b[3]));
  CHECK((a > b) == (b < a));
  CHECK((a <= b) == !(a > b));
  CHECK((a >= b) == !(a < b));
  if (k != 0) {
    FourVector q = (a / k) * k;
    for (int i = 0; i < 4; i++) CLOSE(q[i], a[i]);
  }
  sx_reach("done");
}
ENTRY(c02_euler) {
  double p = sx_f64("phi"), t = sx_f64("theta"), s = sx_f64("psi");
  ThreeVector a = tv("ax", "ay", "az"), b = tv("bx", "by", "bz");
  ThreeVector ra = a, rb = b, rc = a.cross_product(b);
  ra.rotate(p, t, s);
  rb.rotate(p, t, s);
  rc.rotate(p, t, s);
  CLOSE(ra.sqr(), a.sqr());
  CLOSE(ra * rb, a * b);
  ThreeVector x = ra.cross_product(rb);
  EQ3(rc, x[0], x[1], x[2]);
  // documented z-x-z convention, applied to the z axis
  ThreeVector z(0, 0, 1);
  z.rotate(p, t, s);
  EQ3(z, std::sin(p) * std::sin(t), -std::cos(p) * std::sin(t), std::cos(t));
  sx_reach("done");
}
ENTRY(c02_axes) {
  double t = sx_f64("angle");
  ThreeVector a = tv("ax", "ay", "az"), b = tv("bx", "by", "bz");
  ThreeVector y = a, z = a, yb = b, zb = b, yc = a.cross_product(b), zc = yc;
  y.rotate_around_y(t);
  yb.rotate_around_y(t);
  yc.rotate_around_y(t);
  z.rotate_around_z(t);
  zb.rotate_around_z(t);
  zc.rotate_around_z(t);
  CLOSE(y * yb, a * b);
  CLOSE(z * zb, a * b);
  CLOSE(y.x2(), a.x2());
  CLOSE(z.x3(), a.x3());
  ThreeVector c = y.cross_product(yb);
  EQ3(yc, c[0], c[1], c[2]);
  c = z.cross_product(zb);
  EQ3(zc, c[0], c[1], c[2]);
  ThreeVector ez(0, 0, 1), ex(1, 0, 0);
  ez.rotate_around_y(t);
  EQ3(ez, std::sin(t), 0., std::cos(t));
  ex.rotate_around_z(t);
  EQ3(ex, std::cos(t), std::sin(t), 0.);
  // undoing the rotation
  y.rotate_around_y(-t);
  z.rotate_around_z(-t);
  EQ3(y, a[0], a[1], a[2]);
  EQ3(z, a[0], a[1], a[2]);
  sx_reach("done");
}
ENTRY(c02_zto) {
  ThreeVector r = tv("rx", "ry", "rz"), a = tv("ax", "ay", "az");
  const double h2 = r[0] * r[0] + r[1] * r[1];
  if (r[0] == 0) {
    if (r[1] == 0) {
      sx_assume((r[2] < -1e-3) | (r[2] > 1e-3));
      ThreeVector z(0, 0, 1);
      z.rotate_z_axis_to(r);
      CLOSE(z.x1(), 0.);
      CLOSE(z.x2(), 0.);
      CHECK(z.x3() * r[2] > 0);
      sx_reach("onaxis");
      return;
    }
  }
  sx_assume(h2 >= 2e-12);
  ThreeVector z(0, 0, 1), ra = a;
  z.rotate_z_axis_to(r);
  const double n = r.abs();
  CLOSE(z.x1() * n, r[0]);
  CLOSE(z.x2() * n, r[1]);
  CLOSE(z.x3() * n, r[2]);
  ra.rotate_z_axis_to(r);
  CLOSE(ra.sqr(), a.sqr());
  sx_reach("done");
}
ENTRY(c02_spherical) {
  ThreeVector r = tv("rx", "ry", "rz");
  const double h2 = r[0] * r[0] + r[1] * r[1];
  sx_assume(h2 >= 2e-12);
  const double n = r.abs(), ph = r.get_phi(), th = r.get_theta();
  CLOSE(n * std::cos(th), r[2]);
  CLOSE(n * std::sin(th) * std::cos(ph), r[0]);
  CLOSE(n * std::sin(th) * std::sin(ph), r[1]);
  CHECK(th >= 0);
  CHECK(th <= M_PI + 1e-12);
  CHECK(ph >= -M_PI - 1e-12);
  CHECK(ph <= M_PI + 1e-12);
  sx_reach("done");
}
ENTRY(c02_hyper) {
  FourVector a(sx_f64("t"), sx_f64("x"), sx_f64("y"), sx_f64("z"));
  if (a.sqr() < -1e-5) {
    bool thrown = false;
    try {
      a.abs();
    } catch (std::runtime_error &) {
      thrown = true;
    }
    CHECK(thrown);
    sx_reach("spacelike");
    return;
  }
  if (a.sqr() >= 0) {
    const double m = a.abs();
    CLOSE(m * m, a.sqr());
  }
  sx_assume((a.x0() > a.x3()) & (a.x0() > -a.x3()));
  CLOSE(a.tau() * a.tau(), a.x0() * a.x0() - a.x3() * a.x3());
  CLOSE(std::tanh(a.eta()) * a.x0(), a.x3());
  sx_reach("done");
}
