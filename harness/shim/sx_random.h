// Force-included in every unit: random draws become symbolic values constrained only by the
// documented range of the distribution they come from.
#ifndef SX_RANDOM_SHIM_H_
#define SX_RANDOM_SHIM_H_
#ifdef __cplusplus
#include <random>
extern "C" {
double sx_rand01();            // [0,1)
uint64_t sx_rand64();
int64_t sx_randint(int64_t lo, int64_t hi);
double sx_randreal();          // any finite value (standard normal draw)
}
// Draws in [0,1) a harness has fixed in advance (as expressions of its own symbolic inputs).
inline double sx_rq[16];
inline int sx_rq_n = 0, sx_rq_i = 0;
// After sx_rcap draws the path ends (rejection loops: only the first rounds are explored).
inline int sx_rcap = 1 << 30, sx_rcount = 0;
extern "C" void sx_kill();
inline double sx_draw01() { if (++sx_rcount > sx_rcap) sx_kill(); return sx_rq_i < sx_rq_n ? sx_rq[sx_rq_i++] : sx_rand01(); }
namespace std {
template <> inline double generate_canonical<double, 53, mt19937_64>(mt19937_64 &) { return sx_draw01(); }
template <> inline mt19937_64::result_type mt19937_64::operator()() { return sx_rand64(); }
#define SX_UID(T)                                                                                              \
  template <> template <> inline T uniform_int_distribution<T>::operator()<mt19937_64>(mt19937_64 &,           \
                                                                                       const param_type &p) { \
    return static_cast<T>(sx_randint((int64_t)p.a(), (int64_t)p.b()));                                         \
  }
SX_UID(int) SX_UID(unsigned) SX_UID(long) SX_UID(unsigned long) SX_UID(short) SX_UID(long long) SX_UID(unsigned long long)
template <> template <> inline double normal_distribution<double>::operator()<mt19937_64>(mt19937_64 &, const param_type &p) {
  return p.mean() + p.stddev() * sx_randreal();
}
template <> template <> inline int poisson_distribution<int>::operator()<mt19937_64>(mt19937_64 &, const param_type &) {
  return static_cast<int>(sx_randint(0, 1000000000));
}
template <> template <> inline int binomial_distribution<int>::operator()<mt19937_64>(mt19937_64 &, const param_type &p) {
  return static_cast<int>(sx_randint(0, p.t()));
}
}  // namespace std
#endif
#endif
