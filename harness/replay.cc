// Native side of the harness interface: reads the solver's assignment and runs the real code.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cinttypes>
#include <fstream>
#include <map>
#include <string>
#include <typeinfo>
#include <exception>
#include "shim/sx.h"
#include <unistd.h>
static std::map<std::string, uint64_t> in;
static std::map<std::string, int> cnt;
static int failed = 0;
extern "C" { int sx_log_count[8]; }
static uint64_t get(const char *n) {
  std::string s = n;
  int c = cnt[s]++;
  if (c) s += "." + std::to_string(c);
  auto it = in.find(s);
  return it == in.end() ? 0 : it->second;
}
extern "C" {
double sx_f64(const char *n) { uint64_t u = get(n); double d; memcpy(&d, &u, 8); return d; }
float sx_f32(const char *n) { uint32_t u = (uint32_t)get(n); float d; memcpy(&d, &u, 4); return d; }
int64_t sx_i64(const char *n) { return (int64_t)get(n); }
int32_t sx_i32(const char *n) { return (int32_t)get(n); }
int16_t sx_i16(const char *n) { return (int16_t)get(n); }
uint8_t sx_u8(const char *n) { return (uint8_t)get(n); }
bool sx_bool(const char *n) { return get(n) & 1; }
bool sx_is_real() { return getenv("SX_REAL") != nullptr; }
bool sx_is_conc(int64_t) { return true; }
void sx_assume(bool c) { if (!c) { printf("ASSUMPTION-NOT-MET\n"); fflush(stdout); _exit(failed ? 88 : 77); } }
void sx_assert(bool c, const char *m) { if (!c) { printf("ASSERTION-FAILED: %s\n", m); fflush(stdout); failed = 1; } }
int sx_choose(int lo, int hi, const char *n) { int64_t v = (int32_t)get(n); if (v < lo || v > hi) v = lo; return (int)v; }
int64_t sx_conc(int64_t v) { return v; }
void sx_reach(const char *l) { printf("REACHED %s\n", l); }
void sx_close(double a, double b, double tol, const char *m) {
  double s = std::fmax(1., std::fmax(std::fabs(a), std::fabs(b)));
  if (!(a == b || std::fabs(a - b) <= tol * s)) { printf("ASSERTION-FAILED: %s (%.17g vs %.17g)\n", m, a, b); fflush(stdout); failed = 1; }
}
void sx_trace_f(double v) { printf("TRACE %.12g\n", v); }
void sx_trace_i(int64_t v) { printf("TRACE %" PRId64 "\n", v); }
void sx_debug_f(double v, const char *n) { fprintf(stderr, "debug %s: %.17g\n", n, v); }
void sx_debug_i(int64_t v, const char *n) { fprintf(stderr, "debug %s: %" PRId64 "\n", n, v); }
void sx_kill() { printf("KILLED\n"); fflush(stdout); _exit(failed ? 88 : 78); }
void sx_fail(const char *m) { printf("ASSERTION-FAILED: %s\n", m); fflush(stdout); _exit(88); }
void sx_print(const char *m) { fprintf(stderr, "%s\n", m); }
uint64_t sx_live_heap() { return 0; }
struct Poly { virtual ~Poly() {} };
bool sx_type_name_is(const void *obj, const char *n) { return !strcmp(typeid(*static_cast<const Poly *>(obj)).name(), n); }
double sx_rand01() { return sx_f64("rand01"); }
uint64_t sx_rand64() { return (uint64_t)sx_i64("rand64"); }
int64_t sx_randint(int64_t lo, int64_t hi) { int64_t v = sx_i64("randint"); return v < lo ? lo : v > hi ? hi : v; }
double sx_randreal() { return sx_f64("randreal"); }
void sx_missing(const char *n) { printf("MISSING-SYMBOL %s\n", n); fflush(stdout); _exit(failed ? 88 : 79); }
}
#include <dlfcn.h>
int main(int argc, char **argv) {
  auto entry = reinterpret_cast<void (*)()>(argc > 2 ? dlsym(RTLD_DEFAULT, argv[2]) : nullptr);
  if (!entry) { fprintf(stderr, "usage: replay INPUTS ENTRY\n"); return 2; }
  if (argc > 1) {
    std::ifstream f(argv[1]);
    std::string n, v;
    while (f >> n >> v) in[n] = strtoull(v.c_str(), nullptr, 16);
  }
  try {
    entry();
  } catch (std::exception &e) {
    printf("UNCAUGHT-EXCEPTION: %s\n", e.what());
    fflush(stdout);
    _exit(89);
  }
  fflush(stdout);
  _exit(failed ? 88 : 0);
}
