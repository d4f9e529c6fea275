// Simulation clocks.
// @src numerics.cc
// @entry c20_uniform real reach=inside,last,beyond,invalid time=200 --int-reals --fork-select
// @entry c20_rounding real reach=ok,rejected time=150 --int-reals --fork-select
// @entry c20_change real reach=done time=150 --int-reals --fork-select
// @entry c20_reset real reach=lab,output time=200 --int-reals --fork-select
// @entry c20_overflow real reach=threw,fine time=150 --int-reals --fork-select
// @entry c20_compare real reach=less,equal,greater time=100 --int-reals --fork-select
// @entry c20_custom real reach=done,before,beyond time=200
// @entry c20_custom_past real reach=done time=200
// @bound times are arbitrary multiples of the clock resolution (a quarter of it in c20_rounding) of magnitude below 2^31 microfm (2147 fm), tick counts below 2^15 (any 64-bit count in c20_overflow); custom clocks with up to 4 arbitrary times
// @assume doubles that hold multiples of 1e-6 are their exact decimal value: rounding of time*1e6 to the nearest integer absorbs the representation error below 2^50
#include "sx.h"
#include "smash_env.h"
#include "smash/clock.h"
#include <algorithm>
#include <vector>
using namespace smash;
static const double U = 1e-6;
static const int64_t kMax = (int64_t(1) << 31) - 1, kTicks = (1 << 15) - 1, kR = kMax;
static int64_t ticks(const char *name, int64_t lo, int64_t hi) {
  const int64_t k = hi < (1 << 15) ? sx_i16(name) : hi <= kMax ? sx_i32(name) : sx_i64(name);
  sx_assume((k >= lo) & (k <= hi));
  return k;
}
// A time step and a tick count of which at most one is symbolic (their product stays linear).
static void step(int64_t &kd, int64_t &n, bool all = true) {
  static const int64_t D[] = {1, 1 << 17, 100000}, N[] = {0, 1, 2, 1024};
  static const int few[] = {0, 2, 3, 5};
  const int w = all ? sx_choose(0, 6, "step") : few[sx_choose(0, 3, "step")];
  if (w < 3) { kd = D[w]; n = ticks("n", 0, w == 2 ? 255 : kTicks); }
  else { kd = ticks("dt", 1, kMax); n = N[w - 3]; }
}
#define TIME(x, k) CLOSET((x), double(k) * U, 1e-12)
// The state of a valid clock: current time, next time and time step.
static void at(const UniformClock &c, int64_t now, int64_t dt, int64_t end) {
  if (now <= end) {
    TIME(c.current_time(), now);
    if (now + dt <= end) {
      TIME(c.next_time(), now + dt);
      TIME(c.timestep_duration(), dt);
      sx_reach("inside");
    } else {
      TIME(c.next_time(), end);
      TIME(c.timestep_duration(), end - now);
      sx_reach("last");
    }
    if (now < end) { CHECK(c.next_time() > c.current_time()); CHECK(c.timestep_duration() > 0.); }
  } else {
    TIME(c.current_time(), end);
    TIME(c.next_time(), end);
    CHECK(c.timestep_duration() == 0.);
    sx_reach("beyond");
  }
}
ENTRY(c20_uniform) {
  const int64_t k0 = ticks("start", -kMax, kMax), ke = ticks("end", -kMax, kMax);
  int64_t kd, n;
  step(kd, n);
  bool threw = false;
  try {
    UniformClock c(k0 * U, kd * U, ke * U);
    CHECK(kd > 0);
    CHECK(k0 < ke);
    at(c, k0, kd, ke);
    c += n;
    at(c, k0 + kd * n, kd, ke);
    ++c;
    at(c, k0 + kd * n + kd, kd, ke);
  } catch (std::range_error &) { threw = true; }
  if (threw) { CHECK(k0 >= ke); sx_reach("invalid"); }
}
// Time steps that are not multiples of the resolution: the clock never stands still.
ENTRY(c20_rounding) {
  const int64_t q = ticks("dt4", -kMax, kMax);
  bool threw = false;
  try {
    UniformClock c(0., q * (U / 4), 1e9);
    TIME(c.current_time(), int64_t(0));
    CHECK(c.next_time() > 0.);
    CHECK(c.timestep_duration() > 0.);
    ++c;
    CHECK(c.current_time() > 0.);
    TIME(c.current_time(), (q + 2) >> 2);
    sx_reach("ok");
  } catch (std::range_error &) { threw = true; }
  if (threw) { CHECK(q < 2); sx_reach("rejected"); }
  UniformClock d(0., 1., 1e9);
  threw = false;
  try {
    d.set_timestep_duration(q * (U / 4));
    CHECK(d.next_time() > 0.);
    TIME(d.next_time(), (q + 2) >> 2);
  } catch (std::range_error &) { threw = true; }
  if (threw) CHECK(q < 2);
}
// Changing the time step and advancing by a time keep the current time and move forward.
ENTRY(c20_change) {
  const int64_t k0 = ticks("start", -kMax, kMax), ke = ticks("end", -kMax, kMax), k2 = ticks("dt2", 1, kMax), kj = ticks("jump", 0, kMax);
  sx_assume(k0 < ke);
  int64_t kd, n;
  step(kd, n, false);
  UniformClock c(k0 * U, kd * U, ke * U);
  c += n;
  const int64_t now = k0 + kd * n;
  c.set_timestep_duration(k2 * U);
  at(c, now, k2, ke);
  c += kj * U;
  at(c, now + kj, k2, ke);
  ++c;
  at(c, now + kj + k2, k2, ke);
  bool threw = false;
  const int64_t back = ticks("back", -kMax, -1);
  try { c += back * U; } catch (std::range_error &) { threw = true; }
  CHECK(threw);
  at(c, now + kj + k2, k2, ke);
  sx_reach("done");
}
ENTRY(c20_reset) {
  static const int64_t D[] = {1, 500000, 1000000, 2500000};
  const int64_t w = sx_choose(0, 3, "dt"), kd = D[w], ks = ticks("reset", -kR, kR), n = ticks("n", 0, w < 1 ? kTicks : 255);
  UniformClock c(0., kd * U, 2. * kMax * U);
  c += n;
  c.reset(ks * U, false);
  at(c, ks, kd, 2 * kMax);
  sx_reach("lab");
  c += n;
  c.reset(ks * U, true);
  // the output grid through zero: the last point not after the start time
  int64_t m = ks / kd;
  if (m * kd > ks) m--;
  at(c, m * kd, kd, 2 * kMax);
  sx_reach("output");
}
// Whatever the tick count, the clock refuses to count or to announce times it cannot represent.
ENTRY(c20_overflow) {
  static const int64_t D[] = {1, 3, 100000, (int64_t(1) << 31) - 1};
  const int64_t kd = D[sx_choose(0, 3, "dt")], n = ticks("n", 0, INT64_MAX), m = ticks("m", 0, INT64_MAX), k0 = ticks("start", -kMax, kMax);
  UniformClock c(k0 * U, kd * U, 2. * kMax * U);
  bool threw = false;
  try { c += n; } catch (std::overflow_error &) { threw = true; }
  CHECK(threw == (n == INT64_MAX));
  if (threw) return;
  const __int128 next = __int128(k0) + __int128(kd) * (__int128(n) + 1);
  bool tn = false;
  try {
    const double t = c.next_time();
    CHECK(next <= __int128(INT64_MAX));
    if (next >= 2 * kMax) TIME(t, 2 * kMax);
    else TIME(t, int64_t(next));
    sx_reach("fine");
  } catch (std::overflow_error &) { tn = true; }
  if (tn) { CHECK(next > __int128(INT64_MAX) - kd - kMax - kMax); sx_reach("threw"); }
  bool t2 = false;
  try { c += m; } catch (std::overflow_error &) { t2 = true; }
  CHECK(t2 == (n >= INT64_MAX - m));
  if (t2) return;
  bool t3 = false;
  try { ++c; } catch (std::overflow_error &) { t3 = true; }
  CHECK(t3 == (n + m >= INT64_MAX - 1));
}
ENTRY(c20_compare) {
  const int64_t ka = ticks("a", -kMax, kMax), kb = ticks("b", -kMax, kMax), kx = ticks("x", -kMax, kMax), da = ticks("da", 1, kMax), db = ticks("db", 1, kMax);
  UniformClock a(ka * U, da * U, 1e12), b(kb * U, db * U, 1e12);
  const Clock &ra = a, &rb = b;
  CHECK((ra < rb) == (ka < kb));
  CHECK((rb < ra) == (kb < ka));
  CHECK((ra < kx * U) == (ka < kx));
  CHECK((ra > kx * U) == (ka > kx));
  ++a;
  CHECK((ra < rb) == (ka + da < kb));
  CHECK((ra < kx * U) == (ka + da < kx));
  CHECK((ra > kx * U) == (ka + da > kx));
  sx_reach(ka < kb ? "less" : ka == kb ? "equal" : "greater");
}
#ifdef SX_THOROUGH
static const int kN = 4;
#else
static const int kN = 3;
#endif
ENTRY(c20_custom) {
  const int n = sx_choose(1, kN, "n");
  std::vector<double> t;
  for (int i = 0; i < n; i++) { t.push_back(sx_range("t", -1e6, 1e6)); }
  const double start = sx_range("start", -1e6, 1e6);
  CustomClock c(t);
  CHECK(c.current_time() == 0.);
  c.reset(start, sx_choose(0, 1, "output"));
  std::sort(t.begin(), t.end());
  sx_assume(start < t[0]);
  CHECK(c.current_time() == start);
  double last = start;
  for (int i = 0; i < n; i++) {
    CHECK(c.next_time() == t[i]);
    CLOSE(c.timestep_duration(), t[i] - last);
    CHECK((c < t[i]) == (last < t[i]));
    ++c;
    CHECK(c.current_time() == t[i]);
    CHECK(!(c < t[i]) & !(c > t[i]));
    CHECK(last <= t[i]);
    last = t[i];
    sx_reach("before");
  }
  bool threw = false;
  try { c.next_time(); } catch (std::out_of_range &) { threw = true; }
  CHECK(threw);
  ++c;
  threw = false;
  try { c.current_time(); } catch (std::out_of_range &) { threw = true; }
  CHECK(threw);
  sx_reach("beyond");
  c.reset(start, false);
  CHECK(c.current_time() == start);
  CHECK(c.next_time() == t[0]);
  sx_reach("done");
}
// Times up to the start time are dropped, all others kept in order.
ENTRY(c20_custom_past) {
  const int n = sx_choose(0, kN, "n");
  std::vector<double> t;
  for (int i = 0; i < n; i++) { t.push_back(sx_range("t", -1e6, 1e6)); }
  const double start = sx_range("start", -1e6, 1e6);
  CustomClock c(t);
  c.reset(start, true);
  c.remove_times_in_past(start);
  std::sort(t.begin(), t.end());
  CHECK(c.current_time() == start);
  for (int i = 0; i < n; i++)
    if (t[i] > start) {
      CHECK(c.next_time() == t[i]);
      ++c;
      CHECK(c.current_time() == t[i]);
    }
  bool threw = false;
  try { c.next_time(); } catch (std::out_of_range &) { threw = true; }
  CHECK(threw);
  sx_reach("done");
}
