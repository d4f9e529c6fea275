// Interpolation and tabulation.
// @src interpolation.cc interpolation2D.cc tabulation.cc
// @entry c30_linear real reach=support,between,outside,duplicate time=200
// @entry c30_trilinear real reach=done time=60
// @entry c30_tabulation real reach=step,linear,zero,const,extrapolated,below time=200
// @entry c30_spline real reach=inside,outside,refused time=200
// @entry c30_spline2d real reach=done,refused time=200
// @entry c30_permutation real reach=done time=100
// @bound tables of 2 to 4 points (tabulations of up to 4 intervals) with arbitrary values, any argument; splines: selection of the end values, ordering and pairing of the table, and the argument handed to GSL (the spline evaluation itself is GSL code and outside)
// @assume doubles are encoded as reals (rounding abstracted)
#include "sx.h"
#include "smash/interpolation.h"
#include "smash/interpolation2D.h"
#include "smash/tabulation.h"
using namespace smash;
// Stand-ins for GSL: remember what they were given.
static double gx[8], gy[8], gz[16], gq, gr;
static size_t gn, gm;
extern "C" {
const gsl_interp_type *gsl_interp_cspline = nullptr;
const gsl_interp2d_type *gsl_interp2d_bicubic = nullptr;
gsl_interp_accel *gsl_interp_accel_alloc() { return (gsl_interp_accel *)malloc(sizeof(gsl_interp_accel)); }
void gsl_interp_accel_free(gsl_interp_accel *a) { free(a); }
gsl_spline *gsl_spline_alloc(const gsl_interp_type *, size_t) { return (gsl_spline *)malloc(8); }
void gsl_spline_free(gsl_spline *s) { free(s); }
int gsl_spline_init(gsl_spline *, const double x[], const double y[], size_t n) {
  gn = n;
  for (size_t i = 0; i < n; i++) { gx[i] = x[i]; gy[i] = y[i]; }
  return 0;
}
double gsl_spline_eval(const gsl_spline *, double x, gsl_interp_accel *) { gq = x; return 12345.; }
gsl_spline2d *gsl_spline2d_alloc(const gsl_interp2d_type *, size_t, size_t) { return (gsl_spline2d *)malloc(8); }
void gsl_spline2d_free(gsl_spline2d *s) { free(s); }
int gsl_spline2d_init(gsl_spline2d *, const double x[], const double y[], const double z[], size_t n, size_t m) {
  gn = n;
  gm = m;
  for (size_t i = 0; i < n; i++) gx[i] = x[i];
  for (size_t i = 0; i < m; i++) gy[i] = y[i];
  for (size_t i = 0; i < n * m; i++) gz[i] = z[i];
  return 0;
}
double gsl_spline2d_eval(const gsl_spline2d *, const double x, const double y, gsl_interp_accel *, gsl_interp_accel *) { gq = x; gr = y; return 12345.; }
}
static void table(int n, std::vector<double> &x, std::vector<double> &y) {
  for (int i = 0; i < n; i++) { x.push_back(sx_range("x", -10, 10)); y.push_back(sx_range("y", -10, 10)); }
}
static bool distinct(const std::vector<double> &x) {
  for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < i; j++) if (x[i] == x[j]) return false;
  return true;
}
ENTRY(c30_linear) {
  const int n = sx_choose(2, 3, "n");
  std::vector<double> x, y;
  table(n, x, y);
  bool threw = false;
  try { InterpolateDataLinear<double>(x, y); } catch (const std::runtime_error &) { threw = true; }
  CHECK(threw == !distinct(x));
  if (threw) { sx_reach("duplicate"); return; }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx_assume(std::abs(x[i] - x[j]) > 1e-3);
  const InterpolateDataLinear<double> f(x, y);
  const int k = sx_choose(0, n - 1, "k");
  CLOSE(f(x[k]), y[k]);
  sx_reach("support");
  // between two neighbouring points, on the straight line
  const double q = sx_range("q", -20, 20), v = f(q);
  int lo = -1, hi = -1;
  for (int i = 0; i < n; i++) {
    if (x[i] <= q && (lo < 0 || x[i] > x[lo])) lo = i;
    if (x[i] > q && (hi < 0 || x[i] < x[hi])) hi = i;
  }
  const bool outside = lo < 0 || hi < 0;
  if (lo < 0) { lo = hi; hi = -1; for (int i = 0; i < n; i++) if (x[i] > x[lo] && (hi < 0 || x[i] < x[hi])) hi = i; }
  if (hi < 0) { hi = lo; lo = -1; for (int i = 0; i < n; i++) if (x[i] < x[hi] && (lo < 0 || x[i] > x[lo])) lo = i; }
  // outside the outermost line is continued
  CLOSET((v - y[lo]) * (x[hi] - x[lo]), (y[hi] - y[lo]) * (q - x[lo]), 1e-6);
  if (outside) sx_reach("outside");
  else {
    CHECK((v >= std::min(y[lo], y[hi]) - 1e-6) & (v <= std::max(y[lo], y[hi]) + 1e-6));
    sx_reach("between");
  }
}
ENTRY(c30_trilinear) {
  double f[8];
  for (double &v : f) v = sx_range("f", -10, 10);
  const double a[3] = {sx_range("a", 0, 1), sx_range("a", 0, 1), sx_range("a", 0, 1)};
  // corner k has x offset k&1, y offset k>>1&1, z offset k>>2
  const auto at = [&](double ax, double ay, double az) { return interpolate_trilinear(ax, ay, az, f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]); };
  for (int k = 0; k < 8; k++) CLOSE(at(k & 1, k >> 1 & 1, k >> 2), f[k]);
  // linear along each axis
  CLOSE(at(a[0], a[1], a[2]), (1 - a[0]) * at(0, a[1], a[2]) + a[0] * at(1, a[1], a[2]));
  CLOSE(at(a[0], a[1], a[2]), (1 - a[1]) * at(a[0], 0, a[2]) + a[1] * at(a[0], 1, a[2]));
  CLOSE(at(a[0], a[1], a[2]), (1 - a[2]) * at(a[0], a[1], 0) + a[2] * at(a[0], a[1], 1));
  sx_reach("done");
}
ENTRY(c30_tabulation) {
  const int n = sx_choose(2, 4, "n");
  static const double mins[] = {0., -1.5, 0.7}, ranges[] = {1., 3.2, 10.};
  const int set = sx_choose(0, 2, "set");
  const double x0 = mins[set], range = ranges[set];
  std::vector<double> y;
  std::vector<double> asked;
  int calls = 0;
  const Tabulation t(x0, range, n, [&](double x) {
    asked.push_back(x);
    calls++;
    y.push_back(sx_range("y", -10, 10));
    return y.back();
  });
  CHECK(calls == n + 1);
  const double dx = range / n;
  for (int i = 0; i <= n; i++) CLOSE(asked[i], x0 + i * dx);
  const double q = sx_range("q", -100, 100);
  const int what = sx_choose(0, 3, "what");
  const double v = what == 0 ? t.get_value_step(q) : t.get_value_linear(q, what == 1 ? Extrapolation::Linear : what == 2 ? Extrapolation::Const : Extrapolation::Zero);
  if (what == 1) CHECK(t.get_value_linear(q) == v);
  if (q < x0) { CHECK(v == 0); sx_reach("below"); return; }
  if (what == 0) {
    bool ok = (q > x0 + range) & (v == y[n]);
    for (int i = 0; i <= n; i++) ok = ok | ((std::abs(q - (x0 + i * dx)) <= dx / 2 + 1e-9) & (v == y[i]));
    CHECK(ok);
    sx_reach("step");
    return;
  }
  if (q > x0 + range) {
    if (what == 3) { CHECK(v == 0); sx_reach("zero"); }
    if (what == 2) { CHECK(v == y[n]); sx_reach("const"); }
    if (what == 1) { CLOSE(v, y[n] + (y[n] - y[n - 1]) * (q - (x0 + range)) / dx); sx_reach("extrapolated"); }
    return;
  }
  for (int i = 0; i < n; i++)
    if (q >= x0 + i * dx && q <= x0 + (i + 1) * dx) {
      CLOSE(v, y[i] + (y[i + 1] - y[i]) * (q - (x0 + i * dx)) / dx);
      sx_reach("linear");
      return;
    }
}
ENTRY(c30_spline) {
  const int n = sx_choose(2, 4, "n");
  std::vector<double> x, y;
  table(n, x, y);
  bool threw = false;
  try { InterpolateDataSpline(x, y); } catch (const std::runtime_error &) { threw = true; }
  CHECK(threw == (n < 3 || !distinct(x)));
  if (threw) { sx_reach("refused"); return; }
  const InterpolateDataSpline f(x, y);
  CHECK((int)gn == n);
  for (int i = 0; i + 1 < n; i++) CHECK(gx[i] < gx[i + 1]);
  for (int i = 0; i < n; i++) {
    bool found = false;
    for (int j = 0; j < n; j++) found = found | ((gx[i] == x[j]) & (gy[i] == y[j]));
    CHECK(found);
  }
  const double q = sx_range("q", -20, 20), v = f(q);
  if (q < gx[0]) { CHECK(v == gy[0]); sx_reach("outside"); }
  else if (q > gx[n - 1]) { CHECK(v == gy[n - 1]); sx_reach("outside"); }
  else { CHECK((v == 12345.) & (gq == q)); sx_reach("inside"); }
}
ENTRY(c30_spline2d) {
  const int n = sx_choose(3, 4, "n"), m = sx_choose(3, 4, "m");
  const int extra = sx_choose(0, 1, "extra");
  std::vector<double> x, y, z;
  for (int i = 0; i < n; i++) x.push_back(i * 1.5 - 2);
  for (int i = 0; i < m; i++) y.push_back(i * 0.5 + 1);
  for (int i = 0; i < n * m + extra; i++) z.push_back(i * i - 3. * i);
  bool threw = false;
  try { InterpolateData2DSpline(x, y, z); } catch (const std::runtime_error &) { threw = true; }
  CHECK(threw == (n < 4 || m < 4 || extra));
  if (threw) { sx_reach("refused"); return; }
  InterpolateData2DSpline f(x, y, z);
  const double p = sx_range("p", -20, 20), q = sx_range("q", -20, 20);
  CHECK(f(p, q) == 12345.);
  // arguments outside are replaced by the nearest bound
  CHECK(gq == std::min(std::max(p, x.front()), x.back()));
  CHECK(gr == std::min(std::max(q, y.front()), y.back()));
  CHECK((int)gn == n && (int)gm == m);
  for (int i = 0; i < n * m; i++) CHECK(gz[i] == z[i]);
  sx_reach("done");
}
ENTRY(c30_permutation) {
  const int n = sx_choose(1, 4, "n");
  std::vector<double> x, y;
  table(n, x, y);
  const Permutation p = generate_sort_permutation(x, [](double a, double b) { return a < b; });
  const std::vector<double> s = apply_permutation(x, p), t = apply_permutation(y, p);
  CHECK((int)p.size() == n && (int)s.size() == n && (int)t.size() == n);
  unsigned seen = 0;
  for (int i = 0; i < n; i++) {
    CHECK(p[i] < (size_t)n);
    seen |= 1u << p[i];
    CHECK((s[i] == x[p[i]]) & (t[i] == y[p[i]]));
    if (i) CHECK(s[i - 1] <= s[i]);
  }
  CHECK(seen == (1u << n) - 1);
  const double q = sx_range("q", -20, 20);
  const size_t k = find_index(s, q);
  CHECK(k < (size_t)n);
  CHECK((k == 0) | (s[k] < q));
  CHECK((k + 1 == (size_t)n) || (s[k + 1] >= q));
  sx_reach("done");
}
