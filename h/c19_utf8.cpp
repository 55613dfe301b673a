#include "common.h"
#include <data/string/ustring.h>
using namespace pfi::data::string;
static std::atomic<uint64_t> n_cp, n_bytes, n_bad, n_good, n_kana;
static std::string enc(uint32_t c) { std::string s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
// table 3-7 of the Unicode standard: length of the well-formed sequence at p, or 0
static int wf(const std::string &s, size_t p, uint32_t &c) {
  size_t n = s.size() - p; unsigned b0 = (unsigned char)s[p]; auto B = [&](size_t i) { return i < n ? (unsigned)(unsigned char)s[p + i] : 0u; }; auto in = [](unsigned x, unsigned a, unsigned b) { return x >= a && x <= b; };
  if (b0 < 0x80) { c = b0; return 1; }
  if (in(b0, 0xc2, 0xdf) && in(B(1), 0x80, 0xbf)) { c = (b0 & 31) << 6 | (B(1) & 63); return 2; }
  if (in(b0, 0xe0, 0xef) && in(B(1), b0 == 0xe0 ? 0xa0 : 0x80, b0 == 0xed ? 0x9f : 0xbf) && in(B(2), 0x80, 0xbf)) { c = (b0 & 15) << 12 | (B(1) & 63) << 6 | (B(2) & 63); return 3; }
  if (in(b0, 0xf0, 0xf4) && in(B(1), b0 == 0xf0 ? 0x90 : 0x80, b0 == 0xf4 ? 0x8f : 0xbf) && in(B(2), 0x80, 0xbf) && in(B(3), 0x80, 0xbf)) { c = (b0 & 7) << 18 | (B(1) & 63) << 12 | (B(2) & 63) << 6 | (B(3) & 63); return 4; }
  return 0;
}
static std::string us(const ustring &u) { std::ostringstream o; o << std::hex; for (size_t i = 0; i < u.size() && i < 60; i++) o << " " << u[i]; return o.str(); }
struct Count : fallback_base { int n; Count() : n(0) {} uchar fallback(const std::string &, const char *) { n++; return 0xfffd; } };
static void bytes(const std::string &s) {
  ustring want; std::string san; bool good = true; int runs = 0; bool inrun = false; size_t badbytes = 0;
  for (size_t p = 0; p < s.size();) { uint32_t c; int l = wf(s, p, c); if (!l) { good = false; if (!inrun) { runs++; inrun = true; } badbytes++; p++; continue; } inrun = false; want.push_back(c); if (c >= 0x20 && c != 0xfffe && c != 0xffff) san += s.substr(p, l); p += l; }
  VEQ(check_utf8(s), good, "check_utf8 of " << V::quote(s));
  ustring u = string_to_ustring(s), u2 = string_to_ustring(s.data(), s.size()); VCHECK(u == u2, "string and pointer forms differ for " << V::quote(s));
  if (good) { VCHECK(u == want, "decoded" << us(u) << " instead of" << us(want) << " from " << V::quote(s)); VCHECK(ustring_to_string(u) == s, "re-encoding of " << V::quote(s)); n_good++; }
  else { ustring a, b; size_t fa = 0, fb = 0; for (uchar c : u) if (c == 0xfffd) fa++; else a.push_back(c); for (uchar c : want) if (c == 0xfffd) fb++; else b.push_back(c); VCHECK(a == b, "malformed " << V::quote(s) << " decoded as" << us(u) << ", its well-formed characters are" << us(want)); VCHECK(fa >= fb + runs && fa <= fb + badbytes, "malformed " << V::quote(s) << " gave " << fa << " replacement characters"); n_bad++; }
  std::string z = sanitize_utf8(s); VCHECK(z == san, "sanitize_utf8 of " << V::quote(s) << " is " << V::quote(z) << " instead of " << V::quote(san)); VCHECK(check_utf8(z), "sanitized text is not UTF-8"); 
  if (s.size()) { uint32_t c; int l = wf(s, 0, c); uchar r = string_to_uchar(s); VCHECK(r == (l ? c : 0xfffd), "first character of " << V::quote(s) << " read as " << r); if (memchr(s.data(), 0, s.size()) == 0) VEQ(string_to_uchar(s.c_str()), r, "pointer form of " << V::quote(s)); const char *p = s.data(); uchar q = chars_to_uchar(p, s.data() + s.size()); VCHECK(q == r && p > s.data() && p <= s.data() + s.size() && (!l || p == s.data() + l), "iterator advance on " << V::quote(s)); Count fb; std::string::const_iterator it = s.begin(); while (it != s.end()) chars_to_uchar(it, s.end(), fb); VCHECK((fb.n == 0) == good, "fallback calls on " << V::quote(s)); }
  if (memchr(s.data(), 0, s.size()) == 0) VCHECK(string_to_ustring(s.c_str()) == u, "zero-terminated form of " << V::quote(s)); else { std::string h(s.c_str()); VCHECK(string_to_ustring(s.c_str()) == string_to_ustring(h), "zero-terminated form stops at the zero of " << V::quote(s)); }
  { exception_fallback ef; ustring x; bool thrown = false; try { for (const char *p = s.data(), *e = p + s.size(); p != e;) x.push_back(chars_to_uchar(p, e, ef)); } catch (const std::invalid_argument &) { thrown = true; } VCHECK(thrown == !good && (thrown || x == want), "strict reading of " << V::quote(s)); replacement_fallback rf('?'); size_t q = 0; for (std::string::const_iterator p = s.begin(); p != s.end();) { std::string::const_iterator p0 = p; uint32_t c; int l = wf(s, p0 - s.begin(), c); uchar r = chars_to_uchar(p, s.end(), rf); VCHECK(r == (l ? c : '?'), "replacement at byte " << p0 - s.begin() << " of " << V::quote(s)); q++; } VEQ(q, u.size(), "characters of " << V::quote(s)); }
  if (good && s.size() < 200) { ustring x; const char *p = s.data(); while (p < s.data() + s.size()) x.push_back(chars_to_uchar(p)); VCHECK(x == want && p == s.data() + s.size(), "end-less reading of " << V::quote(s)); }
  n_bytes += s.size();
}
static const uint32_t HZ[] = {0x3002,0x300c,0x300d,0x3001,0x30fb,0x30f2,0x30a1,0x30a3,0x30a5,0x30a7,0x30a9,0x30e3,0x30e5,0x30e7,0x30c3,0x30fc,0x30a2,0x30a4,0x30a6,0x30a8,0x30aa,0x30ab,0x30ad,0x30af,0x30b1,0x30b3,0x30b5,0x30b7,0x30b9,0x30bb,0x30bd,0x30bf,0x30c1,0x30c4,0x30c6,0x30c8,0x30ca,0x30cb,0x30cc,0x30cd,0x30ce,0x30cf,0x30d2,0x30d5,0x30d8,0x30db,0x30de,0x30df,0x30e0,0x30e1,0x30e2,0x30e4,0x30e6,0x30e8,0x30e9,0x30ea,0x30eb,0x30ec,0x30ed,0x30ef,0x30f3};
static uint32_t voiced(uint32_t c) { static const uint32_t v[] = {0x30ab,0x30ad,0x30af,0x30b1,0x30b3,0x30b5,0x30b7,0x30b9,0x30bb,0x30bd,0x30bf,0x30c1,0x30c4,0x30c6,0x30c8,0x30cf,0x30d2,0x30d5,0x30d8,0x30db}; if (c == 0x30a6) return 0x30f4; if (c == 0x30f2) return 0x30fa; for (uint32_t x : v) if (x == c) return c + 1; return 0; }
static uint32_t semi(uint32_t c) { static const uint32_t v[] = {0x30cf,0x30d2,0x30d5,0x30d8,0x30db}; for (uint32_t x : v) if (x == c) return c + 2; return 0; }
static ustring ref_hz(const ustring &u) { ustring r; for (uchar c : u) { uchar last = r.size() ? r[r.size() - 1] : 0; bool have = r.size() > 0; if (c == 0xff9e) { if (have && voiced(last)) r[r.size() - 1] = voiced(last); else r.push_back(0x3099); } else if (c == 0xff9f) { if (have && semi(last)) r[r.size() - 1] = semi(last); else r.push_back(0x309a); } else if (c >= 0xff61 && c <= 0xff9d) r.push_back(HZ[c - 0xff61]); else if (c == '-' && have && last > 0x7f) r.push_back(0x30fc); else r.push_back(c); } return r; }
static void kana(const ustring &u) {
  ustring r = hankaku_to_zenkaku(u), w = ref_hz(u); VCHECK(r == w, "hankaku_to_zenkaku of" << us(u) << " is" << us(r) << " instead of" << us(w)); VCHECK(hankaku_to_zenkaku(r) == r, "hankaku_to_zenkaku is not idempotent on" << us(u));
  ustring b = zenkaku_latin_to_basic_latin(u), z = basic_latin_to_zenkaku_latin(u); VEQ(b.size(), u.size(), "length"); VEQ(z.size(), u.size(), "length");
  for (size_t i = 0; i < u.size(); i++) { uchar c = u[i], eb = c >= 0xff01 && c <= 0xff5e ? c - 0xfee0 : c == 0x3000 ? 0x20 : c, ez = c >= 0x21 && c <= 0x7e ? c + 0xfee0 : c == 0x20 ? 0x3000 : c; VCHECK(b[i] == eb && zenkaku_latin_to_basic_latin(c) == eb, "full-width latin " << c); VCHECK(z[i] == ez && basic_latin_to_zenkaku_latin(c) == ez, "basic latin " << c); }
  VCHECK(zenkaku_latin_to_basic_latin(b) == b && basic_latin_to_zenkaku_latin(z) == z, "latin conversions are idempotent"); n_kana++;
}
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("every code point (encode, decode, classes, width conversions), every 1- and 2-byte string, boundary 3/4-byte strings and mutated texts, against table 3-7 of the Unicode standard; kana composition against the Unicode composition table; distinct = code points, byte strings and texts");
  for (uint32_t c = 0; c < 0x110000; c++) {
    if (c % 8192 == 0) { V::cur("code point " + std::to_string(c)); V::nontrivial(c); } if (c >= 0xd800 && c < 0xe000) continue;
    std::string e = enc(c); VCHECK(uchar_to_string(c) == e, "encoding of code point " << c << " is " << V::quote(uchar_to_string(c))); VCHECK(string_to_uchar(e) == c, "decoding of code point " << c); if (c % 7 == 0 || c < 0x3000) { ustring u(1, c); VCHECK(ustring_to_string(u) == e && string_to_ustring(e) == u && check_utf8(e), "round trip of code point " << c); std::ostringstream o; o << u; VCHECK(o.str() == e, "printing code point " << c); }
    VCHECK(is_basic_latin(c) == (c < 0x80) && is_alnum(c) == ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && is_hiragana(c) == (c >= 0x3040 && c <= 0x309f) && is_katakana(c) == (c >= 0x30a0 && c <= 0x30ff) && is_kanji(c) == (c >= 0x4e00 && c <= 0x9fff) && is_hankaku(c) == (c >= 0xff60 && c <= 0xff9f), "class of code point " << c);
    if (c < 0x80 || (c >= 0x3000 && c < 0x3100) || c >= 0xff00 && c <= 0x10000 || c % 1009 == 0) kana(ustring(1, c)); n_cp++;
  }
  V::eval(n_cp); VCHECK(string_to_ustring("").empty() && string_to_ustring(std::string()).empty() && ustring_to_string(ustring()).empty() && string_to_uchar("") == 0 && string_to_uchar(std::string()) == 0, "empty texts");
  for (int a = 0; a < 256; a++) { std::string s(1, (char)a); V::cur(V::quote(s)); bytes(s); for (int b = 0; b < 256; b++) { std::string t = s + (char)b; bytes(t); V::eval(); } V::nontrivial(a * 31 + 1000000); }
  static const unsigned char ED[] = {0x00, 0x20, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbd, 0xbe, 0xbf, 0xc0, 0xe0, 0xff};
  for (int a = 0xc0; a < 256; a++) for (unsigned char b : ED) for (unsigned char c : ED) { std::string s; s += (char)a; s += (char)b; s += (char)c; if (c == 0) V::cur(V::quote(s)); bytes(s); V::eval(); if (a >= 0xef) for (unsigned char d : ED) { bytes(s + (char)d); V::eval(); } }
  for (uint32_t a = 0; a < 0x60 + 2; a++) { uint32_t base = a < 0x60 ? 0x30a0 + a : 'a' + a; V::cur("kana"); for (uint32_t m : {0xff9eu, 0xff9fu, (uint32_t)'-', 0x3099u}) { ustring u; u.push_back(base); u.push_back(m); kana(u); u.push_back(m); kana(u); u.insert(u.begin(), 0xff76); kana(u); } } for (uint32_t h = 0xff5f; h <= 0xffa1; h++) for (uint32_t m : {0xff9eu, 0xff9fu}) { ustring u; u.push_back(h); u.push_back(m); kana(u); u.push_back('-'); kana(u); }
  static const uint32_t POOL[] = {0, 'a', ' ', '-', 0x7f, 0x80, 0x7ff, 0x800, 0x3042, 0x30ab, 0x30cf, 0xff76, 0xff8a, 0xff9e, 0xff9f, 0xff70, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xff21, 0x3000, '\n'};
  V::cases("long texts", 12, 9, [](V::Rng &g, uint64_t i) { static const size_t K[] = {255, 257, 1023, 4097, 32768, 65537, 100003}; size_t n = K[i % 7]; std::string s; ustring u; for (size_t k = 0; k < n; k++) { uint32_t c = g.chance(1, 2) ? POOL[g.below(sizeof POOL / 4)] : g.below(0x110000); if (c >= 0xd800 && c < 0xe000) c = 'x'; u.push_back(c); s += enc(c); } V::cur("text of " + std::to_string(n)); VCHECK(ustring_to_string(u) == s, "encoding of a text of " << n << " characters"); VCHECK(string_to_ustring(s) == u, "decoding of a text of " << n << " characters"); kana(u); bytes(s); std::string t = s; t[t.size() - 1] = (char)0xff; bytes(t); t = s + "\xe3\x81"; bytes(t); V::nontrivial(V::hash_str(s)); V::cmax("longest text", n); });
  V::cases("texts", 60000, 1, [](V::Rng &g, uint64_t i) {
    std::string s; ustring u; size_t n = V::rand_len(g, 40); for (size_t k = 0; k < n; k++) { uint32_t c = g.chance(3, 4) ? POOL[g.below(sizeof POOL / 4)] : g.below(0x110000); if (c >= 0xd800 && c < 0xe000) c = 'x'; u.push_back(c); s += enc(c); }
    V::cur(V::quote(s)); VCHECK(ustring_to_string(u) == s, "encoding"); VCHECK(string_to_ustring(s) == u, "decoding"); kana(u); bytes(s); std::ostringstream o; o << u; VCHECK(o.str() == s, "stream output"); { std::string t; for (char c : s) if (!isspace((unsigned char)c)) t += c; if (t.size()) { std::istringstream is(t + " rest"); ustring v; is >> v; VCHECK(v == string_to_ustring(t), "stream input"); } }
    int m = 1 + g.below(4); for (int k = 0; k < m; k++) switch (g.below(4)) { case 0: if (s.size()) s[g.below(s.size())] = (char)g.u32(); break; case 1: if (s.size()) s.erase(g.below(s.size()), 1 + g.below(3)); break; case 2: s.insert(g.below(s.size() + 1), V::rand_bytes(g, 1 + g.below(3))); break; default: s = s.substr(0, g.below(s.size() + 1)); }
    V::cur(V::quote(s)); bytes(s); V::nontrivial(V::hash_str(s)); if (i < 3) V::sample(V::quote(s)); });
  V::count("code points", n_cp); V::count("bytes judged", n_bytes); V::count("well-formed strings", n_good); V::count("malformed strings", n_bad); V::count("width/kana conversions", n_kana);
  return V::finish();
}
