// Typed random values, an encoder written from the documented archive format, and equality, for C10/C11.
#ifndef ARCHIVE_TYPES_H
#define ARCHIVE_TYPES_H
#include "common.h"
#include <math.h>
#include <limits>
#include <list>
#include <deque>
#include <iomanip>
#include <data/serialization.h>
#include <data/serialization/unordered_map.h>
#include <data/serialization/unordered_set.h>
#include <data/unordered_map.h>
#include <data/unordered_set.h>
namespace A {
using namespace pfi::data::serialization;
using pfi::data::unordered_map; using pfi::data::unordered_set;
struct Inner { int32_t a; std::string s; bool b; Inner() : a(0), b(false) {} bool operator==(const Inner &o) const { return a == o.a && s == o.s && b == o.b; } bool operator<(const Inner &o) const { return a != o.a ? a < o.a : s < o.s; }
  template <class Ar> void serialize(Ar &ar) { ar & a & s & b; } };
struct Outer { std::vector<Inner> v; std::map<std::string, std::vector<double> > m; std::pair<uint64_t, Inner> p; signed char arr[5]; bool operator==(const Outer &o) const { return v == o.v && m == o.m && p == o.p && !memcmp(arr, o.arr, 5); }
  Outer() { memset(arr, 0, 5); }
private: friend class pfi::data::serialization::access; template <class Ar> void serialize(Ar &ar) { ar & MEMBER(v) & MEMBER(m) & NAMED_MEMBER("pp", p) & MEMBER(arr); } };
// ---- values
struct Gen { V::Rng &g; int depth; size_t big; Gen(V::Rng &r, size_t b = 12) : g(r), depth(0), big(b) {} size_t len() { size_t m = depth > 1 ? 4 : big; return g.chance(1, 5) ? 0 : g.below(m + 1); } };
template <class T> typename std::enable_if<std::is_integral<T>::value>::type rnd(Gen &G, T &v) { switch (G.g.below(4)) { case 0: v = (T)G.g.u64(); break; case 1: v = std::numeric_limits<T>::max(); break; case 2: v = std::numeric_limits<T>::min(); break; default: v = (T)G.g.range(-3, 3); } if (G.g.chance(1, 8)) v = (T)(0x0102030405060708ULL >> (8 * (8 - sizeof(T)))); }
inline void rnd(Gen &G, bool &b) { b = G.g.chance(1, 2); }
template <class T> typename std::enable_if<std::is_floating_point<T>::value>::type rnd(Gen &G, T &v) { static const double k[] = {0, -0.0, 1, -1.5, 1e-310, 1e300, -1e-40, 3.14159265358979, HUGE_VAL, -HUGE_VAL}; v = G.g.chance(1, 2) ? (T)k[G.g.below(10)] : (T)((G.g.unit() - 0.5) * pow(2.0, (double)G.g.range(-120, 120))); }
inline void rnd(Gen &G, std::string &s) { s = V::rand_bytes(G.g, G.depth == 0 ? V::rand_len(G.g, 300) : G.len()); }
inline void rnd(Gen &G, std::wstring &s) { s.clear(); for (size_t n = G.len(); n; n--) s += (wchar_t)G.g.below(0x110000); }
template <class X, class Y> void rnd(Gen &G, std::pair<X, Y> &p);
template <class T, size_t N> void rnd(Gen &G, T (&a)[N]);
template <class T> void rnd(Gen &G, std::vector<T> &c); template <class T> void rnd(Gen &G, std::deque<T> &c); template <class T> void rnd(Gen &G, std::list<T> &c); template <class T> void rnd(Gen &G, std::set<T> &c); template <class K, class T> void rnd(Gen &G, std::map<K, T> &c); template <class K, class T> void rnd(Gen &G, unordered_map<K, T> &c); template <class T> void rnd(Gen &G, unordered_set<T> &c);
inline void rnd(Gen &G, Inner &x) { rnd(G, x.a); rnd(G, x.s); rnd(G, x.b); }
inline void rnd(Gen &G, Outer &x) { G.depth++; rnd(G, x.v); rnd(G, x.m); rnd(G, x.p); for (int i = 0; i < 5; i++) rnd(G, x.arr[i]); G.depth--; }
template <class X, class Y> void rnd(Gen &G, std::pair<X, Y> &p) { rnd(G, p.first); rnd(G, p.second); }
template <class T, size_t N> void rnd(Gen &G, T (&a)[N]) { for (size_t i = 0; i < N; i++) rnd(G, a[i]); }
template <class C> void rseq(Gen &G, C &c) { c.clear(); size_t n = G.len(); G.depth++; for (; n; n--) { typename C::value_type t = typename C::value_type(); rnd(G, t); c.push_back(t); } G.depth--; }
template <class T> void rnd(Gen &G, std::vector<T> &c) { rseq(G, c); } template <class T> void rnd(Gen &G, std::deque<T> &c) { rseq(G, c); } template <class T> void rnd(Gen &G, std::list<T> &c) { rseq(G, c); }
template <class T, class C> void rsetlike(Gen &G, C &c) { c.clear(); size_t n = G.len(); G.depth++; for (; n; n--) { T t = T(); rnd(G, t); c.insert(t); } G.depth--; }
template <class T> void rnd(Gen &G, std::set<T> &c) { rsetlike<T>(G, c); } template <class T> void rnd(Gen &G, unordered_set<T> &c) { rsetlike<T>(G, c); }
template <class K, class T> void rnd(Gen &G, std::map<K, T> &c) { rsetlike<std::pair<K, T> >(G, c); } template <class K, class T> void rnd(Gen &G, unordered_map<K, T> &c) { rsetlike<std::pair<K, T> >(G, c); }
// ---- the format: little-endian fixed width, uint32 count then elements in iteration order
template <class T> typename std::enable_if<std::is_integral<T>::value>::type enc(std::string &o, const T &v) { for (size_t i = 0; i < sizeof(T); i++) o += (char)((uint64_t)v >> (8 * i)); }
inline void enc(std::string &o, const float &v) { uint32_t u; memcpy(&u, &v, 4); enc(o, u); }
inline void enc(std::string &o, const double &v) { uint64_t u; memcpy(&u, &v, 8); enc(o, u); }
inline void enc(std::string &o, const Inner &x); inline void enc(std::string &o, const Outer &x);
template <class X, class Y> void enc(std::string &o, const std::pair<X, Y> &p);
template <class C> void encc(std::string &o, const C &c);
inline void enc(std::string &o, const std::string &s) { encc(o, s); } inline void enc(std::string &o, const std::wstring &s) { encc(o, s); }
template <class T> void enc(std::string &o, const std::vector<T> &c); template <class T> void enc(std::string &o, const std::deque<T> &c); template <class T> void enc(std::string &o, const std::list<T> &c); template <class T> void enc(std::string &o, const std::set<T> &c); template <class K, class T> void enc(std::string &o, const std::map<K, T> &c); template <class K, class T> void enc(std::string &o, const unordered_map<K, T> &c); template <class T> void enc(std::string &o, const unordered_set<T> &c);
template <class T, size_t N> void enc(std::string &o, const T (&a)[N]);
template <class C> void encc(std::string &o, const C &c) { enc(o, (uint32_t)c.size()); for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) enc(o, *i); }
template <class T> void enc(std::string &o, const std::vector<T> &c) { encc(o, c); } template <class T> void enc(std::string &o, const std::deque<T> &c) { encc(o, c); } template <class T> void enc(std::string &o, const std::list<T> &c) { encc(o, c); } template <class T> void enc(std::string &o, const std::set<T> &c) { encc(o, c); } template <class K, class T> void enc(std::string &o, const std::map<K, T> &c) { encc(o, c); } template <class K, class T> void enc(std::string &o, const unordered_map<K, T> &c) { encc(o, c); } template <class T> void enc(std::string &o, const unordered_set<T> &c) { encc(o, c); }
template <class X, class Y> void enc(std::string &o, const std::pair<X, Y> &p) { enc(o, p.first); enc(o, p.second); }
template <class T, size_t N> void enc(std::string &o, const T (&a)[N]) { for (size_t i = 0; i < N; i++) enc(o, a[i]); }
inline void enc(std::string &o, const Inner &x) { enc(o, x.a); enc(o, x.s); enc(o, x.b); }
inline void enc(std::string &o, const Outer &x) { enc(o, x.v); enc(o, x.m); enc(o, x.p); enc(o, x.arr); }
// delivers the bytes in small pieces
struct Dribble : std::streambuf { std::string d; size_t p; V::Rng r; char b[8]; Dribble(const std::string &s, uint64_t seed) : d(s), p(0), r(seed) {}
  int_type underflow() { if (p >= d.size()) return traits_type::eof(); size_t n = std::min<size_t>(d.size() - p, 1 + r.below(8)); memcpy(b, d.data() + p, n); p += n; setg(b, b, b + n); return traits_type::to_int_type(*b); } };
template <class T> struct Box { T v; Box() : v() {} bool operator==(const Box &o) const { return v == o.v; } };
template <class T, size_t N> struct Box<T[N]> { T v[N]; Box() { for (size_t i = 0; i < N; i++) v[i] = T(); } bool operator==(const Box &o) const { for (size_t i = 0; i < N; i++) if (!(v[i] == o.v[i])) return false; return true; } };
template <class F> void all_types(F f) {
  f((Box<bool> *)0, "bool"); f((Box<char> *)0, "char"); f((Box<signed char> *)0, "schar"); f((Box<unsigned char> *)0, "uchar"); f((Box<short> *)0, "short"); f((Box<unsigned short> *)0, "ushort"); f((Box<int> *)0, "int"); f((Box<unsigned> *)0, "uint"); f((Box<long> *)0, "long"); f((Box<unsigned long> *)0, "ulong"); f((Box<long long> *)0, "llong"); f((Box<unsigned long long> *)0, "ullong"); f((Box<float> *)0, "float"); f((Box<double> *)0, "double");
  f((Box<std::string> *)0, "string"); f((Box<std::pair<int, std::string> > *)0, "pair<int,string>"); f((Box<std::vector<int> > *)0, "vector<int>"); f((Box<std::vector<char> > *)0, "vector<char>"); f((Box<std::vector<std::string> > *)0, "vector<string>"); f((Box<std::deque<short> > *)0, "deque<short>"); f((Box<std::list<double> > *)0, "list<double>"); f((Box<std::set<std::string> > *)0, "set<string>"); f((Box<std::map<int, std::string> > *)0, "map<int,string>"); f((Box<std::map<std::string, std::map<int, bool> > > *)0, "map<string,map<int,bool>>"); f((Box<unordered_map<std::string, int> > *)0, "unordered_map<string,int>"); f((Box<unordered_set<int> > *)0, "unordered_set<int>"); f((Box<std::vector<std::vector<std::pair<int, double> > > > *)0, "vector<vector<pair>>"); f((Box<int[7]> *)0, "int[7]"); f((Box<Inner> *)0, "Inner"); f((Box<Outer> *)0, "Outer"); f((Box<std::deque<std::list<std::set<Inner> > > > *)0, "deque<list<set<Inner>>>"); f((Box<std::map<std::pair<int, int>, Outer> > *)0, "map<pair,Outer>");
}
}
#endif
