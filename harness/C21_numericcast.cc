// Checked numeric conversion returns the same value or throws.
// @entry c21_int exact reach=kept,refused time=100
// @entry c21_float_to_int exact reach=kept,refused time=200
// @entry c21_int_to_float exact reach=kept,refused time=200
// @entry c21_float exact reach=kept,refused time=100
// @bound all values of each source type for 24 pairs of types
// @assume an out-of-range conversion of a floating-point number to an integer type gives the x86-64 "indefinite" value (the code relies on the target there)
#include "sx.h"
#include <stdexcept>
#include "smash/numeric_cast.h"
using namespace smash;
template <typename To, typename From>
static bool attempt(From v, To &out) {
  try { out = numeric_cast<To>(v); return true; } catch (const std::domain_error &) { return false; }
}
// Mathematical comparison of integers of any signedness.
template <typename A, typename B>
static bool same(A a, B b) { return ((a < A{}) == (b < B{})) & (static_cast<uint64_t>(a) == static_cast<uint64_t>(b)); }
template <typename To, typename From>
static bool fits(From v) {
  const bool neg = v < From{};
  const uint64_t max = static_cast<uint64_t>(std::numeric_limits<To>::max());
  if (std::is_signed_v<To>) {
    const int64_t min = static_cast<int64_t>(std::numeric_limits<To>::min());
    return (neg & (static_cast<int64_t>(v) >= min)) | (!neg & (static_cast<uint64_t>(v) <= max));
  }
  return !neg & (static_cast<uint64_t>(v) <= max);
}
template <typename To, typename From>
static void ints(From v) {
  To t{};
  if (attempt<To>(v, t)) { CHECK(same(t, v)); CHECK(fits<To>(v)); sx_reach("kept"); }
  else { CHECK(!fits<To>(v)); sx_reach("refused"); }
}
ENTRY(c21_int) {
  const int64_t v = sx_i64("v");
  switch (sx_choose(0, 17, "types")) {
    case 0: ints<int>(v); break;
    case 1: ints<unsigned>(v); break;
    case 2: ints<uint64_t>(v); break;
    case 3: ints<short>(v); break;
    case 4: ints<int64_t>(static_cast<uint64_t>(v)); break;
    case 5: ints<int>(static_cast<uint64_t>(v)); break;
    case 6: ints<unsigned>(static_cast<uint64_t>(v)); break;
    case 7: ints<unsigned char>(static_cast<uint64_t>(v)); break;
    case 8: ints<unsigned>(static_cast<int>(v)); break;
    case 9: ints<int>(static_cast<unsigned>(v)); break;
    case 10: ints<uint64_t>(static_cast<int>(v)); break;
    case 11: ints<int64_t>(static_cast<unsigned>(v)); break;
    case 12: ints<signed char>(static_cast<int>(v)); break;
    case 13: ints<unsigned char>(static_cast<int>(v)); break;
    case 14: ints<short>(static_cast<unsigned short>(v)); break;
    case 15: ints<uint64_t>(static_cast<signed char>(v)); break;
    case 16: ints<int>(static_cast<unsigned char>(v)); break;
    case 17: ints<unsigned short>(static_cast<int>(v)); break;
  }
}
template <typename To>
static void from_double(double v) {
  To t{};
  // limits are exact for up to 32 bits; for 64 bits the largest value plus one is
  const double lo = static_cast<double>(std::numeric_limits<To>::min()), hi = sizeof(To) < 8 ? static_cast<double>(std::numeric_limits<To>::max()) + 1. : std::is_signed_v<To> ? 9223372036854775808. : 18446744073709551616.;
  const bool ok = (v >= lo) & (v < hi) & (v == std::trunc(v));
  if (attempt<To>(v, t)) { CHECK(ok); CHECK(static_cast<double>(t) == v); sx_reach("kept"); }
  else { CHECK(!ok); sx_reach("refused"); }
}
ENTRY(c21_float_to_int) {
  const double v = sx_f64("v");
  switch (sx_choose(0, 4, "types")) {
    case 0: from_double<int>(v); break;
    case 1: from_double<unsigned>(v); break;
    case 2: from_double<short>(v); break;
    case 3: from_double<int64_t>(v); break;
    case 4: from_double<uint64_t>(v); break;
  }
}
ENTRY(c21_int_to_float) {
  const int64_t v = sx_i64("v");
  double d;
  float f;
  switch (sx_choose(0, 4, "types")) {
    case 0: CHECK(attempt<double>(static_cast<int>(v), d)); CHECK(static_cast<int>(d) == static_cast<int>(v)); break;
    case 1: CHECK(attempt<double>(static_cast<unsigned>(v), d)); CHECK(static_cast<int64_t>(d) == static_cast<int64_t>(static_cast<unsigned>(v))); break;
    case 2: {
      // integers are kept exactly up to 2^24 in single precision
      const int s = static_cast<int>(v);
      const bool kept = attempt<float>(s, f);
      CHECK(kept | (s > 16777216) | (s < -16777216));
      if (kept) { CHECK(static_cast<int64_t>(f) == s); sx_reach("kept"); } else sx_reach("refused");
      break;
    }
    case 3: {
      const bool kept = attempt<double>(v, d);
      CHECK(kept | (v > 9007199254740992) | (v < -9007199254740992));
      if (kept) CHECK((d >= -9223372036854775808.) & (d < 9223372036854775808.) & (static_cast<int64_t>(d) == v));
      break;
    }
    case 4: {
      const uint64_t u = static_cast<uint64_t>(v);
      const bool kept = attempt<double>(u, d);
      CHECK(kept | (u > 9007199254740992u));
      if (kept) CHECK((d >= 0) & (d < 18446744073709551616.) & (static_cast<uint64_t>(d) == u));
      break;
    }
  }
}
ENTRY(c21_float) {
  const double v = sx_f64("v");
  float f;
  if (attempt<float>(v, f)) { CHECK(static_cast<double>(f) == v); sx_reach("kept"); }
  else { CHECK((v != v) | (static_cast<double>(static_cast<float>(v)) != v)); sx_reach("refused"); }
  double d;
  if (attempt<double>(v, d)) CHECK(d == v); else CHECK(v != v);
}
