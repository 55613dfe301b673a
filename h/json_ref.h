// An independent JSON model: values, a strict RFC 4627 reader (any top-level value) and generators.
#ifndef VERIF_JSON_REF_H
#define VERIF_JSON_REF_H
#include "common.h"
#include <text/json.h>
#include <math.h>
#include <errno.h>
namespace JR {
using pfi::text::json::json;
enum T { Nul, Int, Flt, Bol, Str, Arr, Obj };
struct J { T t; int64_t i; double d; std::string s; std::vector<J> a; std::map<std::string, J> o; J(T x = Nul) : t(x), i(0), d(0) {} };
inline std::string show(const J &j) { std::ostringstream o; switch (j.t) { case Nul: o << "null"; break; case Int: o << "i" << j.i; break; case Flt: o << "f"; o.precision(17); o << j.d; break; case Bol: o << (j.i ? "true" : "false"); break; case Str: o << V::quote(j.s, 60); break; case Arr: o << "["; for (auto &x : j.a) o << show(x) << ","; o << "]"; break; case Obj: o << "{"; for (auto &x : j.o) o << V::quote(x.first, 60) << ":" << show(x.second) << ","; o << "}"; } return o.str(); }
inline bool same(const J &a, const J &b) { if (a.t != b.t) return false; switch (a.t) { case Nul: return true; case Int: case Bol: return a.i == b.i; case Flt: return a.d == b.d && std::signbit(a.d) == std::signbit(b.d); case Str: return a.s == b.s; case Arr: if (a.a.size() != b.a.size()) return false; for (size_t k = 0; k < a.a.size(); k++) if (!same(a.a[k], b.a[k])) return false; return true; case Obj: if (a.o.size() != b.o.size()) return false; for (auto p = a.o.begin(), q = b.o.begin(); p != a.o.end(); ++p, ++q) if (p->first != q->first || !same(p->second, q->second)) return false; return true; } return false; }
inline J from_lib(const json &j) { using namespace pfi::text::json; J r; switch (j.type()) {
  case json::Null: VCHECK(is<json_null>(j), "type() and is<> disagree"); break; case json::Integer: r.t = Int; r.i = dynamic_cast<json_integer &>(*j.get()).get(); break; case json::Float: r.t = Flt; r.d = dynamic_cast<json_float &>(*j.get()).get(); break; case json::Bool: r.t = Bol; r.i = dynamic_cast<json_bool &>(*j.get()).get(); break; case json::String: r.t = Str; r.s = dynamic_cast<json_string &>(*j.get()).get(); break;
  case json::Array: r.t = Arr; for (size_t i = 0; i < j.size(); i++) r.a.push_back(from_lib(j[i])); break; case json::Object: r.t = Obj; for (json::const_iterator p = j.begin(); p != j.end(); ++p) { VCHECK(r.o.find(p->first) == r.o.end(), "an object lists one key twice"); r.o[p->first] = from_lib(p->second); } VEQ(r.o.size(), j.size(), "object size"); break; } return r; }
inline json to_lib(const J &j) { using namespace pfi::text::json; switch (j.t) { case Nul: return json(new json_null); case Int: return json(new json_integer(j.i)); case Flt: return json(new json_float(j.d)); case Bol: return json(new json_bool(j.i != 0)); case Str: return json(new json_string(j.s));
  case Arr: { json r(new json_array); for (auto &x : j.a) r.add(to_lib(x)); return r; } default: { json r(new json_object); for (auto &x : j.o) r.add(x.first, to_lib(x.second)); return r; } } }

// ---- UTF-8 ----
inline void put(std::string &s, uint32_t c) { if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } }
// length of the well-formed sequence at p, 0 when malformed
inline int u8(const std::string &s, size_t p, uint32_t &cp) {
  unsigned char c = s[p]; int n; uint32_t v, mn; if (c < 0x80) { cp = c; return 1; } if (c >= 0xC2 && c <= 0xDF) { n = 2; v = c & 31; mn = 0x80; } else if ((c & 0xF0) == 0xE0) { n = 3; v = c & 15; mn = 0x800; } else if (c >= 0xF0 && c <= 0xF4) { n = 4; v = c & 7; mn = 0x10000; } else return 0;
  if (p + n > s.size()) return 0; for (int i = 1; i < n; i++) { if (((unsigned char)s[p + i] & 0xC0) != 0x80) return 0; v = v << 6 | (s[p + i] & 63); } if (v < mn || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return 0; cp = v; return n; }

// ---- reference reader ----
struct Bad {}; struct Eof {}; struct Utf {}; struct Range {};
struct Reader {
  const std::string &s; size_t p; bool lenient; std::string trace; int depth, maxdepth;
  Reader(const std::string &x, size_t at = 0, bool len = true) : s(x), p(at), lenient(len), depth(0), maxdepth(0) {}
  bool end() const { return p >= s.size(); }
  int pk() { if (end()) throw Eof(); uint32_t c; if (!u8(s, p, c)) throw Utf(); return c; }
  int get() { if (end()) throw Eof(); uint32_t c; int n = u8(s, p, c); if (!n) throw Utf(); p += n; return c; }
  static bool isws(int c, bool len) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || (len && (c == '\v' || c == '\f')); }
  void ws() { while (!end() && isws(pk(), lenient)) get(); }
  void lit(const char *w) { for (; *w; w++) if (get() != *w) { throw Bad(); } }
  std::string str() { if (get() != '"') throw Bad(); std::string r; for (;;) { int c = get(); if (c == '"') return r; if (c < 0x20) throw Bad(); if (c != '\\') { put(r, c); continue; }
      c = get(); switch (c) { case '"': case '\\': case '/': r += (char)c; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
      case 'u': { uint32_t u = hex4(); if (u >= 0xDC00 && u < 0xE000) throw Bad(); if (u >= 0xD800 && u < 0xDC00) { if (get() != '\\' || get() != 'u') throw Bad(); uint32_t l = hex4(); if (l < 0xDC00 || l > 0xDFFF) throw Bad(); u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); } put(r, u); break; }
      default: throw Bad(); } } }
  uint32_t hex4() { uint32_t v = 0; for (int i = 0; i < 4; i++) { int c = get(); int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) throw Bad(); v = v * 16 + d; } return v; }
  static bool dg(int c) { return c >= '0' && c <= '9'; }
  J num() { size_t b = p; bool fl = false; if (pk() == '-') get(); if (!dg(pk())) throw Bad(); int first = get(); if (first == '0' && !lenient) { if (!end() && dg((unsigned char)s[p])) throw Bad(); } while (!end() && dg((unsigned char)s[p])) p++;
    if (!end() && s[p] == '.') { fl = true; p++; if (!dg(pk())) throw Bad(); while (!end() && dg((unsigned char)s[p])) p++; }
    if (!end() && (s[p] == 'e' || s[p] == 'E')) { fl = true; p++; int c = pk(); if (c == '+' || c == '-') get(); if (!dg(pk())) throw Bad(); while (!end() && dg((unsigned char)s[p])) p++; }
    std::string w = s.substr(b, p - b); J j; if (fl) { j.t = Flt; j.d = strtod(w.c_str(), 0); if (!std::isfinite(j.d)) throw Range(); if (j.d == 0 && w.substr(0, w.find_first_of("eE")).find_first_of("123456789") != std::string::npos) throw Range(); }
    else { j.t = Int; errno = 0; j.i = strtoll(w.c_str(), 0, 10); if (errno == ERANGE) throw Range(); } return j; }
  J value() { ws(); int c = pk(); J j;
    if (c == '{') { j.t = Obj; trace += '{'; enter(); get(); ws(); if (pk() == '}') { get(); } else for (;;) { ws(); std::string k = str(); trace += "k" + V::quote(k, 1000000); ws(); if (get() != ':') throw Bad(); J v = value(); j.o[k] = v; ws(); c = get(); if (c == '}') break; if (c != ',') throw Bad(); } depth--; trace += '}'; return j; }
    if (c == '[') { j.t = Arr; trace += '['; enter(); get(); ws(); if (pk() == ']') { get(); } else for (;;) { j.a.push_back(value()); ws(); c = get(); if (c == ']') break; if (c != ',') throw Bad(); } depth--; trace += ']'; return j; }
    if (c == '"') { j.t = Str; j.s = str(); trace += "s" + V::quote(j.s, 1000000); return j; }
    if (c == 't') { lit("true"); j.t = Bol; j.i = 1; trace += 'T'; return j; } if (c == 'f') { lit("false"); j.t = Bol; trace += 'F'; return j; } if (c == 'n') { lit("null"); trace += 'N'; return j; }
    if (c == '-' || dg(c)) { j = num(); trace += show(j) + ";"; return j; } throw Bad(); }
  void enter() { maxdepth = std::max(maxdepth, ++depth); }
};
// ---- generators ----
inline std::string gen_str(V::Rng &g) { std::string s; size_t n = g.chance(1, 12) ? g.below(600) : g.below(8); for (size_t i = 0; i < n; i++) { uint32_t c; switch (g.below(8)) { case 7: { static const uint32_t B[] = {0x1f, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0xfffff, 0x100000, 0x10fc00, 0x10fffe, 0x10ffff}; c = B[g.below(21)]; break; } case 0: c = g.below(0x20); break; case 1: c = "\"\\/\x7f\b\f\n\r\t'u"[g.below(11)]; break; case 2: c = 0x80 + g.below(0x780); break; case 3: c = 0x800 + g.below(0xD000); break; case 4: c = 0xE000 + g.below(0x2000); break; case 5: c = 0x10000 + g.below(0x100000); break; default: c = 0x20 + g.below(0x5f); } put(s, c); } return s; }
inline double gen_dbl(V::Rng &g) { switch (g.below(6)) { case 0: return (double)g.range(-1000, 1000); case 1: return g.range(-1000000, 1000000) / 1024.0; case 2: { for (;;) { uint64_t u = g.u64(); double d; memcpy(&d, &u, 8); if (std::isfinite(d)) return d; } } case 3: { static const double k[] = {0.0, -0.0, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, 1e-310, -3e-320, 0.1, 1e15, 1e12, 123456789012.0, 999999999999.5, 1e-5, 9.99999999999e-5, 1e100}; return k[g.below(16)]; } case 4: return ldexp(g.unit(), (int)g.range(-60, 60)) * (g.chance(1, 2) ? 1 : -1); default: return g.unit(); } }
inline int64_t gen_int(V::Rng &g) { switch (g.below(4)) { case 0: return g.range(-20, 20); case 1: { static const int64_t k[] = {INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 2147483647LL, -2147483648LL, 2147483648LL, 4294967296LL}; return k[g.below(8)]; } case 2: return (int64_t)g.u64() >> g.below(64); default: return (int64_t)g.u64(); } }
inline J gen(V::Rng &g, int depth, int &fuel) { J j; fuel--; int k = depth <= 0 || fuel <= 0 ? g.below(5) : g.below(8); switch (k) { case 0: break; case 1: j.t = Int; j.i = gen_int(g); break; case 2: j.t = Flt; j.d = gen_dbl(g); break; case 3: j.t = Bol; j.i = g.below(2); break; case 4: j.t = Str; j.s = gen_str(g); break;
  case 5: case 6: { j.t = Arr; int n = g.chance(1, 15) ? g.below(60) : g.below(5); for (int i = 0; i < n && fuel > 0; i++) j.a.push_back(gen(g, depth - 1, fuel)); break; }
  default: { j.t = Obj; int n = g.chance(1, 15) ? g.below(60) : g.below(5); for (int i = 0; i < n && fuel > 0; i++) { std::string k2 = g.chance(1, 4) ? gen_str(g) : std::string(1, 'a' + g.below(20)); j.o[k2] = gen(g, depth - 1, fuel); } } } return j; }
// Documents large in one dimension: string length, key length, element count, nesting or digits.
inline size_t big_len(V::Rng &g, uint64_t idx) { static const size_t k[] = {255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 100003}; return k[(idx * 7 + g.below(3)) % 16]; }
inline J gen_big(V::Rng &g, uint64_t idx) { J j; size_t n = big_len(g, idx); auto str = [&](size_t m) { std::string s; bool plain = g.chance(1, 2); while (s.size() < m) { if (plain) s += (char)('a' + s.size() % 26); else { s += gen_str(g); s += (char)('a' + s.size() % 26); } } return s; };
  switch (idx % 5) { case 0: j.t = Str; j.s = str(n); break; case 1: j.t = Arr; for (size_t i = 0; i < n; i++) { J x(Int); x.i = (int64_t)i * 3 - 5; j.a.push_back(x); } break; case 2: j.t = Obj; n = std::min<size_t>(n, 40000); for (size_t i = 0; i < n; i++) { J x(Int); x.i = i; j.o["k" + std::to_string(i * 7919 % 100000)] = x; } break; case 3: { j.t = Obj; J v(Str); v.s = str(300); j.o[str(n)] = v; J e(Arr); e.a.resize(3); j.o["z"] = e; break; }
  default: j.t = Arr; n = std::min<size_t>(n, 20000); for (size_t i = 0; i < n; i++) { int fuel = 3; j.a.push_back(gen(g, 1, fuel)); } } return j; }
// A stream that hands out its text in chunks of random size.
struct ChunkBuf : std::streambuf { std::string s; size_t at; V::Rng g; int mx; std::vector<char> cur; ChunkBuf(const std::string &x, uint64_t seed, int m) : s(x), at(0), g(seed), mx(m) {}
  int_type underflow() { if (at >= s.size()) return traits_type::eof(); size_t n = std::min<size_t>(1 + g.below(mx), s.size() - at); cur.assign(s.begin() + at, s.begin() + at + n); at += n; setg(cur.data(), cur.data(), cur.data() + n); return traits_type::to_int_type(cur[0]); } };
}
#endif
