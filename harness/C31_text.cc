// Splitting, joining, trimming and padding keep every character.
// @src stringfunctions.cc
// @entry c31_trim exact reach=done,empty time=150
// @entry c31_split exact reach=done,plain time=200
// @entry c31_remove exact reach=done time=150
// @entry c31_join exact reach=done time=60
// @entry c31_fill exact reach=padded,long time=200
// @entry c31_misc exact reach=done time=60
// @bound texts of up to 9 arbitrary bytes (7 for splitting, 5 for removal of patterns of 1 or 2 bytes); padding of up to 2 (thorough: 3) one-, two- or three-byte characters to widths 0 to 7
#include "sx.h"
#include "smash/stringfunctions.h"
using namespace smash;
static std::string text(int n) {
  std::string s;
  for (int i = 0; i < n; i++) s.push_back((char)sx_u8("c"));
  return s;
}
static bool blank(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
ENTRY(c31_trim) {
  const int n = sx_choose(0, 9, "n");
  const std::string s = text(n), copy = s, t = trim(s);
  CHECK(s == copy);
  if (t.empty()) {
    for (char c : s) CHECK(blank(c));
    sx_reach("empty");
    return;
  }
  CHECK(!blank(t.front()) && !blank(t.back()));
  // a contiguous part, with nothing but blanks around it
  int b = 0;
  while (b < n && blank(s[b])) b++;
  CHECK(b + (int)t.size() <= n);
  for (int i = 0; i < (int)t.size(); i++) CHECK(t[i] == s[b + i]);
  for (int i = b + (int)t.size(); i < n; i++) CHECK(blank(s[i]));
  CHECK(trim(t) == t);
  sx_reach("done");
}
ENTRY(c31_split) {
  const int n = sx_choose(0, 7, "n");
  const std::string s = text(n);
  const char d = (char)sx_u8("delimiter");
  const std::vector<std::string> v = split(s, d);
  // the pieces are the stretches between delimiters, in order (an empty last one is not reported)
  size_t pos = 0;
  bool empty_piece = false;
  for (size_t k = 0; k < v.size(); k++) {
    CHECK(pos + v[k].size() <= s.size());
    for (size_t i = 0; i < v[k].size(); i++) CHECK((v[k][i] == s[pos + i]) & (v[k][i] != d));
    empty_piece = empty_piece || v[k].empty();
    pos += v[k].size();
    if (pos < s.size()) { CHECK(s[pos] == d); pos++; }
    else CHECK(k + 1 == v.size());
  }
  CHECK(pos == s.size());
  if (!empty_piece && (s.empty() || s.back() != d)) { CHECK(join(v, std::string(1, d)) == s); sx_reach("plain"); }
  sx_reach("done");
}
ENTRY(c31_join) {
  const int n = sx_choose(0, 3, "n");
  std::vector<std::string> v;
  std::string expect;
  const std::string d = text(sx_choose(0, 2, "delimiter"));
  for (int i = 0; i < n; i++) {
    v.push_back(text(sx_choose(1, 2, "len")));
    expect += (i ? d : std::string()) + v.back();
  }
  CHECK(join(v, d) == expect);
  sx_reach("done");
}
ENTRY(c31_remove) {
  const int n = sx_choose(0, 5, "n");
  std::string s = text(n);
  const std::string p = text(sx_choose(1, 2, "pattern")), orig = s;
  remove_substr(s, p);
  CHECK(s.find(p) == std::string::npos);
  CHECK((orig.size() - s.size()) % p.size() == 0);
  // what stays is in order (a subsequence), and nothing is removed without need
  size_t j = 0;
  for (size_t i = 0; i < orig.size() && j < s.size(); i++) if (orig[i] == s[j]) j++;
  CHECK(j == s.size());
  if (orig.find(p) == std::string::npos) CHECK(s == orig);
  if (p.size() == 1) {
    std::string want;
    for (char c : orig) if (c != p[0]) want.push_back(c);
    CHECK(s == want);
  }
  sx_reach("done");
}
// Characters shown on one column each; 0xCC and 0xCD start combining characters that take none.
ENTRY(c31_fill) {
  #ifdef SX_THOROUGH
  const int n = sx_choose(0, 3, "n");
#else
  const int n = sx_choose(0, 2, "n");
#endif
  std::string s;
  int shown = 0;
  for (int i = 0; i < n; i++) {
    const uint8_t c = sx_u8("c"), d = sx_u8("d"), e = sx_u8("e");
    sx_assume((d >= 0x80) & (d < 0xC0) & (e >= 0x80) & (e < 0xC0));
    switch (sx_choose(0, 3, "kind")) {
      case 0: sx_assume(c < 0x80); s.push_back((char)c); shown++; break;
      case 1: sx_assume((c >= 0xC2) & (c < 0xE0) & (c != 0xCC) & (c != 0xCD)); s.push_back((char)c); s.push_back((char)d); shown++; break;
      case 2: sx_assume((c >= 0xE0) & (c < 0xF0)); s.push_back((char)c); s.push_back((char)d); s.push_back((char)e); shown++; break;
      case 3: s.push_back((char)(0xCC + (c & 1))); s.push_back((char)d); break;
    }
  }
  const int width = sx_choose(0, 7, "width"), side = sx_choose(0, 2, "side");
  const char f = (char)sx_u8("fill");
  const std::string r = side == 0 ? utf8::fill_left(s, width, f) : side == 1 ? utf8::fill_right(s, width, f) : utf8::fill_both(s, width, f);
  const int pad = width > shown ? width - shown : 0;
  CHECK((int)r.size() == (int)s.size() + pad);
  const int left = side == 0 ? pad : side == 1 ? 0 : (int)(r.size() - s.size()) / 2;
  bool ok = true;
  for (int i = 0; i < (int)r.size(); i++) ok = ok & (i >= left && i < left + (int)s.size() ? r[i] == s[i - left] : r[i] == f);
  CHECK(ok);
  if (pad) sx_reach("padded"); else sx_reach("long");
}
ENTRY(c31_misc) {
  const std::string s = text(sx_choose(0, 3, "n"));
  CHECK(quote(s) == "\"" + s + "\"");
  std::string t = s + "\u207a" + s + "\u207b" + s + "\u2070";
  for (char c : s) sx_assume((unsigned char)c < 0x80);
  isoclean(t);
  CHECK(t == s + s + s);
  // the number of bytes of a character follows from its first one
  const uint8_t c = sx_u8("lead");
  const std::string u(1, (char)c);
  const int len = utf8::sequence_length(u.begin());
  CHECK((len == 1) == (c < 0x80));
  CHECK((len == 2) == ((c >= 0xC0) & (c < 0xE0)));
  CHECK((len == 3) == ((c >= 0xE0) & (c < 0xF0)));
  CHECK((len == 4) == ((c >= 0xF0) & (c < 0xF8)));
  sx_reach("done");
}
