// Message digests.
// @src sha256.cc
// @entry c22_reference exact reach=done time=200
// @entry c22_splits exact reach=done time=200
// @entry c22_reset exact reach=done time=100
// @entry c22_fixed exact reach=done time=200
// @entry c22_text exact reach=done time=100
// @bound all contents of messages of 0, 1, 3, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128 and 129 bytes; all contents of up to 130 bytes in up to three pieces with sizes around the block length; one arbitrary byte for messages compared through an independent formulation
#include "sx.h"
#include <vector>
#include "smash/sha256.h"
using namespace smash;
typedef std::vector<uint8_t> Bytes;
static Bytes message(int n) {
  Bytes b(n);
  for (auto &c : b) c = sx_u8("m");
  return b;
}
// FIPS 180-4
static uint32_t rotr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static const uint8_t kPrimes[64] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251};
static const int kMorePrimes[10] = {257, 263, 269, 271, 277, 281, 283, 293, 307, 311};
static uint32_t fraction_root(int p, bool cube) {
  // fractional part of the square or cube root, by integer bisection of r^k <= p * 2^(32 k)
  unsigned __int128 lo = 0, hi = (unsigned __int128)20 << 32;
  while (hi - lo > 1) {
    const unsigned __int128 mid = (lo + hi) / 2;
    bool le;
    if (!cube) le = mid * mid <= ((unsigned __int128)p << 64);
    else {
      // mid^3 <= p * 2^96 without overflow: compare mid^2 with floor(p * 2^96 / mid)
      const unsigned __int128 q = mid ? ((unsigned __int128)p << 96) / mid : ~(unsigned __int128)0;
      le = mid * mid <= q;
    }
    if (le) lo = mid; else hi = mid;
  }
  return (uint32_t)lo;
}
static sha256::Hash reference(const Bytes &m, bool other) {
  static uint32_t K[64], H0[8];
  static bool known = false;
  uint32_t H[8];
  if (!known) for (int i = 0; i < 64; i++) K[i] = fraction_root(i < 54 ? kPrimes[i] : kMorePrimes[i - 54], true);
  if (!known) for (int i = 0; i < 8; i++) H0[i] = fraction_root(kPrimes[i], false);
  known = true;
  for (int i = 0; i < 8; i++) H[i] = H0[i];
  Bytes p = m;
  p.push_back(0x80);
  while (p.size() % 64 != 56) p.push_back(0);
  const uint64_t bits = 8 * (uint64_t)m.size();
  for (int i = 7; i >= 0; i--) p.push_back((uint8_t)(bits >> (8 * i)));
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t W[64];
    for (int t = 0; t < 16; t++) W[t] = ((uint32_t)p[o + 4 * t] << 24) | ((uint32_t)p[o + 4 * t + 1] << 16) | ((uint32_t)p[o + 4 * t + 2] << 8) | p[o + 4 * t + 3];
    for (int t = 16; t < 64; t++)
      W[t] = (rotr(W[t - 2], 17) ^ rotr(W[t - 2], 19) ^ (W[t - 2] >> 10)) + W[t - 7] + (rotr(W[t - 15], 7) ^ rotr(W[t - 15], 18) ^ (W[t - 15] >> 3)) + W[t - 16];
    uint32_t a = H[0], b = H[1], c = H[2], d = H[3], e = H[4], f = H[5], g = H[6], h = H[7];
    for (int t = 0; t < 64; t++) {
      const uint32_t ch = other ? (e & f) ^ (~e & g) : (g ^ (e & (f ^ g))), maj = other ? (a & b) ^ (a & c) ^ (b & c) : (((a | b) & c) | (a & b));
      const uint32_t T1 = h + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ch + K[t] + W[t], T2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + maj;
      h = g; g = f; f = e; e = d + T1; d = c; c = b; b = a; a = T1 + T2;
    }
    H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e; H[5] += f; H[6] += g; H[7] += h;
  }
  sha256::Hash r{{}};
  for (int i = 0; i < 32; i++) r[i] = (uint8_t)(H[i / 4] >> (24 - 8 * (i % 4)));
  return r;
}
static bool equal(const sha256::Hash &a, const sha256::Hash &b) {
  bool ok = true;
  for (size_t i = 0; i < a.size(); i++) ok = ok & (a[i] == b[i]);
  return ok;
}
static const int kSizes[] = {0, 1, 3, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129};
ENTRY(c22_reference) {
  reference(Bytes(), false);
  const Bytes m = message(kSizes[sx_choose(0, 13, "size")]);
  CHECK(equal(sha256::calculate(m.data(), m.size()), reference(m, false)));
  sx_reach("done");
}
// Mostly fixed contents against a differently written reference.
ENTRY(c22_fixed) {
  reference(Bytes(), false);
  Bytes m(kSizes[sx_choose(1, 13, "size")]);
  for (size_t i = 0; i < m.size(); i++) m[i] = (uint8_t)(37 * i + 11);
  const int fixed = sx_choose(0, 2, "where");
  if (fixed) m[fixed == 1 ? 0 : m.size() - 1] = (uint8_t)sx_choose(0, 3, "byte");
  CHECK(equal(sha256::calculate(m.data(), m.size()), reference(m, true)));
  sx_reach("done");
}
ENTRY(c22_splits) {
  static const int cut[] = {0, 1, 8, 55, 56, 63, 64, 65};
  const int a = cut[sx_choose(0, 7, "a")], b = cut[sx_choose(0, 7, "b")], c = sx_choose(0, 1, "c") ? 1 : 64;
  const Bytes m = message(a + b + c);
  sha256::Context x;
  x.update(m.data(), a);
  if (sx_choose(0, 1, "string")) x.update(std::string((const char *)m.data() + a, b));
  else x.update(m.data() + a, b);
  x.update(m.data() + a + b, c);
  CHECK(equal(x.finalize(), sha256::calculate(m.data(), m.size())));
  sx_reach("done");
}
ENTRY(c22_reset) {
  static const int sizes[] = {0, 5, 63, 64, 70};
  const Bytes g = message(sizes[sx_choose(0, 4, "garbage")]), m = message(sizes[sx_choose(0, 4, "size")]);
  sha256::Context x;
  x.update(g.data(), g.size());
  if (sx_choose(0, 1, "finalize")) x.finalize();
  x.reset();
  x.update(m.data(), m.size());
  CHECK(equal(x.finalize(), sha256::calculate(m.data(), m.size())));
  sx_reach("done");
}
ENTRY(c22_text) {
  sha256::Hash h{{}};
  for (size_t i = 0; i < h.size(); i++) h[i] = (uint8_t)(i * 9);
  const int k = sx_choose(0, 1, "where") ? 31 : 0;
  h[k] = sx_u8("byte");
  const std::string s = sha256::hash_to_string(h);
  CHECK(s.size() == 64);
  bool ok = true;
  for (size_t i = 0; i < 32; i++) ok = ok & (s[2 * i] == "0123456789abcdef"[h[i] >> 4]) & (s[2 * i + 1] == "0123456789abcdef"[h[i] & 15]);
  CHECK(ok);
  sx_reach("done");
}
