#include "common.h"
#include <list>
#include <deque>
#include <math.h>
#include <iomanip>
#include <iterator>
#include <data/digest/md5.h>
using pfi::data::digest::md5sum;
struct Ref { uint32_t h[4]; };
static Ref ref_md5(const std::string &msg) {
  static const int S[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
  static uint32_t K[64]; static bool init = false; if (!init) { for (int i = 0; i < 64; i++) K[i] = (uint32_t)floor(fabs(sin(i + 1.0)) * 4294967296.0); init = true; }
  std::string m = msg; uint64_t bits = (uint64_t)m.size() * 8; m += (char)0x80; while (m.size() % 64 != 56) m += (char)0; for (int i = 0; i < 8; i++) m += (char)(bits >> (8 * i));
  Ref r = {{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}};
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = (uint8_t)m[o + 4 * i] | (uint32_t)(uint8_t)m[o + 4 * i + 1] << 8 | (uint32_t)(uint8_t)m[o + 4 * i + 2] << 16 | (uint32_t)(uint8_t)m[o + 4 * i + 3] << 24;
    uint32_t a = r.h[0], b = r.h[1], c = r.h[2], d = r.h[3];
    for (int i = 0; i < 64; i++) { uint32_t f; int g; if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; }
      uint32_t t = d; d = c; c = b; uint32_t x = a + f + K[i] + w[g]; b = b + (x << S[i] | x >> (32 - S[i])); a = t; }
    r.h[0] += a; r.h[1] += b; r.h[2] += c; r.h[3] += d;
  }
  return r;
}
static std::string hex(const Ref &r) { std::string s; char b[3]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { snprintf(b, 3, "%02x", r.h[i] >> (8 * j) & 255); s += b; } return s; }
static std::string text(const md5sum &m) { std::ostringstream o; o << m; return o.str(); }
static std::atomic<uint64_t> n_forms, n_cmp;
static void one(const std::string &s, V::Rng &g) {
  Ref r = ref_md5(s); std::string w = hex(r);
  md5sum a(s); VCHECK(a.a == r.h[0] && a.b == r.h[1] && a.c == r.h[2] && a.d == r.h[3], "md5 of " << s.size() << " bytes " << V::quote(s, 80) << " is " << text(a) << ", RFC 1321 gives " << w);
  VEQ(text(a), w, "printed form");
  const char *p = s.data(); VEQ(text(md5sum(p, p + s.size())), w, "pointer range of " << s.size());
  std::istringstream is(s); VEQ(text(md5sum(is)), w, "stream of " << s.size() << " bytes");
  if (g.chance(1, 3)) { std::list<char> l(s.begin(), s.end()); VEQ(text(md5sum(l.begin(), l.end())), w, "list range"); std::vector<unsigned char> v(s.begin(), s.end()); VEQ(text(md5sum(v.begin(), v.end())), w, "vector range"); std::istringstream i2(s); i2 >> std::noskipws; VEQ(text(md5sum(std::istreambuf_iterator<char>(i2), std::istreambuf_iterator<char>())), w, "single-pass range"); n_forms += 3; }
  // printing leaves the caller's formatting alone
  std::ostringstream o; o << std::setfill('*') << std::uppercase << std::dec << std::left; std::ios::fmtflags fl = o.flags(); o << a; VEQ((int)o.flags(), (int)fl, "flags"); VEQ(o.fill(), '*', "fill"); n_forms += 4;
}
struct Gen { uint64_t i; typedef std::input_iterator_tag iterator_category; typedef char value_type; typedef long difference_type; typedef char *pointer; typedef char reference;
  char operator*() const { return (char)((i & 255) * 7 + 3); } Gen &operator++() { ++i; return *this; } Gen operator++(int) { Gen t = *this; ++i; return t; } bool operator==(const Gen &o) const { return i == o.i; } bool operator!=(const Gen &o) const { return i != o.i; } };
int main(int argc, char **argv) {
  V::init(argc, argv, 400);
  VEQ(hex(ref_md5("abc")), std::string("900150983cd24fb0d6963f7d28e17f72"), "reference self check");
  VEQ(hex(ref_md5("12345678901234567890123456789012345678901234567890123456789012345678901234567890")), std::string("57edf4a22be3c955ac49da2e2107b67a"), "reference self check");
#ifndef __SANITIZE_ADDRESS__
  V::rule("messages of more than 2^32 bits and of more than 2^32 bytes, through an iterator range, against digests computed independently; distinct = messages");
  { V::cur("536870989-byte message"); Gen p = {0}, q = {536870989ULL}; VEQ(text(md5sum(p, q)), std::string("03186795a0727c6a3f41773667f03331"), "message of 536870989 bytes (length does not fit 32 bits)"); V::eval(); V::nontrivial(1); V::nontrivial(2); V::sample("536870989 generated bytes"); V::count("bytes hashed", 536870989ULL); }
  { V::cur("2^32+77-byte message"); Gen p = {0}, q = {4294967373ULL}; VEQ(text(md5sum(p, q)), std::string("838597043b775e94cff8bb40e079ec96"), "message of 2^32+77 bytes"); V::eval(); V::count("bytes hashed", 4294967373ULL); }
  return V::finish();
#endif
  V::rule("every length 0..1100 and random lengths to 100k, every way of supplying the data, compared with an independent RFC 1321 implementation; distinct = distinct messages");
  V::cases("lengths", 1101, 0.5, [](V::Rng &g, uint64_t i) { if (V::S().thorough && i > 1100) i = g.below(5000); std::string s = V::rand_bytes(g, i); V::cur("length " + std::to_string(i)); one(s, g); one(std::string(i, '\0'), g); one(std::string(i, '\xff'), g); V::nontrivial(V::hash_str(s)); if (i < 2) V::sample(V::quote(s)); });
  V::cases("random", 4000, 0.9, [](V::Rng &g, uint64_t i) { std::string s = V::rand_bytes(g, V::rand_len(g, i % 20 ? 2000 : 100000)); V::cur("length " + std::to_string(s.size())); one(s, g); V::nontrivial(V::hash_str(s)); if (i < 2) V::sample(V::quote(s, 60)); });
  V::cases("order", 30000, 1, [](V::Rng &g, uint64_t) {
    uint32_t x[4], y[4]; bool eq = true; int first = -1; for (int i = 0; i < 4; i++) { x[i] = g.u32(); y[i] = g.chance(1, 2) ? x[i] : g.chance(1, 2) ? x[i] + (int)g.range(-1, 1) : g.u32(); if (x[i] != y[i] && first < 0) first = i; } eq = first < 0;
    md5sum a(x[0], x[1], x[2], x[3]), b(y[0], y[1], y[2], y[3]); bool lt = !eq && x[first] < y[first], gt = !eq && !lt; V::cur(text(a) + " " + text(b));
    VCHECK((a < b) == lt && (b < a) == gt && !(a < a), "ordering of " << text(a) << " and " << text(b)); VCHECK((text(a) == text(b)) == eq, "printed forms"); Ref r; memcpy(r.h, x, 16); VEQ(text(a), hex(r), "printed form"); n_cmp++; });
  V::count("digests compared (all forms)", n_forms); V::count("ordered pairs", n_cmp);
  return V::finish();
}
