// Harness interface of the symbolic executor. The same harness source is lowered to LLVM IR for
// symbolic execution and compiled natively (replay.cc) to replay counterexamples on the real code.
#ifndef SX_H_
#define SX_H_
#include <cstdint>
#include <cmath>
extern "C" {
double sx_f64(const char *name);      // arbitrary double (real mode: arbitrary real)
float sx_f32(const char *name);
int64_t sx_i64(const char *name);
int32_t sx_i32(const char *name);
int16_t sx_i16(const char *name);
uint8_t sx_u8(const char *name);
bool sx_bool(const char *name);
bool sx_is_real();
bool sx_is_conc(int64_t v);
void sx_assume(bool c);
void sx_assert(bool c, const char *msg);
int sx_choose(int lo, int hi, const char *name);  // forks over lo..hi
int64_t sx_conc(int64_t v);                       // forks over the feasible values
void sx_reach(const char *label);                 // vacuity witness
void sx_close(double a, double b, double tol, const char *msg);  // a==b up to rounding
void sx_trace_f(double v);
void sx_trace_i(int64_t v);
void sx_debug_f(double v, const char *name);
void sx_debug_i(int64_t v, const char *name);
void sx_kill();
void sx_fail(const char *msg);
void sx_print(const char *msg);
uint64_t sx_live_heap();
bool sx_type_name_is(const void *obj, const char *mangled);
extern int sx_log_count[8];  // messages per log level (einhard stand-in)
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define CHECK(c) sx_assert((c), #c " [line " SX_STR(__LINE__) "]")
#define CLOSE(a, b) sx_close((a), (b), 1e-6, #a " == " #b " [line " SX_STR(__LINE__) "]")
#define CLOSET(a, b, t) sx_close((a), (b), (t), #a " == " #b " [line " SX_STR(__LINE__) "]")
#define ENTRY(name) extern "C" void name()
// Bitwise (non short-circuit) connectives keep one solver query instead of one path per operand.
static inline double sx_range(const char *name, double lo, double hi) {
  double v = sx_f64(name);
  sx_assume((v >= lo) & (v <= hi));
  return v;
}
static inline int sx_int(const char *name, int lo, int hi) {
  int v = sx_i32(name);
  sx_assume((v >= lo) & (v <= hi));
  return v;
}
#endif
