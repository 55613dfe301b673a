#include "json_ref.h"
using namespace JR; using namespace pfi::text::json; using pfi::data::optional;
static std::atomic<uint64_t> n_rt, n_conv_ok, n_refused, n_default;
// For every convertible type: generator, expected JSON, and a reference conversion from arbitrary JSON.
template <class T> struct X;
#define VEC(T) std::vector<T>
template <> struct X<bool> { static bool gen(V::Rng &g, int) { return g.below(2); } static J enc(bool v) { J j(Bol); j.i = v; return j; } static bool conv(const J &j, bool &v) { if (j.t != Bol) return false; v = j.i; return true; } static void def(const J &j, bool &v) { conv(j, v); } };
template <class I> struct XI { static I gen(V::Rng &g, int) { return (I)gen_int(g); } static J enc(I v) { J j(Int); j.i = v; return j; } static bool conv(const J &j, I &v) { if (j.t != Int || (int64_t)(I)j.i != j.i) return false; v = (I)j.i; return true; } static void def(const J &j, I &v) { conv(j, v); } };
template <> struct X<int> : XI<int> {}; template <> struct X<long> : XI<long> {}; template <> struct X<long long> : XI<long long> {};
template <class D> struct XD { static D gen(V::Rng &g, int) { return (D)(g.range(-1000000, 1000000) / 64.0); } static J enc(D v) { J j(Flt); j.d = v; return j; } static bool conv(const J &j, D &v) { if (j.t == Flt) v = (D)j.d; else if (j.t == Int) v = (D)j.i; else return false; return true; } static void def(const J &j, D &v) { conv(j, v); } };
template <> struct X<float> : XD<float> {}; template <> struct X<double> : XD<double> {};
template <> struct X<std::string> { static std::string gen(V::Rng &g, int) { return gen_str(g); } static J enc(const std::string &v) { J j(Str); j.s = v; return j; } static bool conv(const J &j, std::string &v) { if (j.t != Str) return false; v = j.s; return true; } static void def(const J &j, std::string &v) { conv(j, v); } };
template <class T> struct X<std::vector<T>> { typedef std::vector<T> C; static C gen(V::Rng &g, int d) { C v; int n = d > 0 ? g.below(5) : 0; for (int i = 0; i < n; i++) v.push_back(X<T>::gen(g, d - 1)); return v; } static J enc(const C &v) { J j(Arr); for (size_t i = 0; i < v.size(); i++) j.a.push_back(X<T>::enc(v[i])); return j; }
  static bool conv(const J &j, C &v) { if (j.t != Arr) return false; C r; for (auto &x : j.a) { T t = T(); if (!X<T>::conv(x, t)) return false; r.push_back(t); } v = r; return true; }
  static void def(const J &j, C &v) { if (j.t != Arr) return; if (v.size() < j.a.size()) v.resize(j.a.size()); for (size_t i = 0; i < j.a.size(); i++) X<T>::def(j.a[i], v[i]); } };
template <class C, class T> struct XM { static C gen(V::Rng &g, int d) { C v; int n = d > 0 ? g.below(5) : 0; for (int i = 0; i < n; i++) { std::string k = g.chance(1, 3) ? gen_str(g) : std::string(1, 'a' + g.below(9)); v[k] = X<T>::gen(g, d - 1); } return v; } static J enc(const C &v) { J j(Obj); for (auto &x : v) j.o[x.first] = X<T>::enc(x.second); return j; }
  static bool conv(const J &j, C &v) { if (j.t != Obj) return false; C r; for (auto &x : j.o) { T t = T(); if (!X<T>::conv(x.second, t)) return false; r[x.first] = t; } v = r; return true; } static void def(const J &j, C &v) { if (j.t != Obj) return; for (auto &x : j.o) X<T>::def(x.second, v[x.first]); } };
template <class T> struct X<std::map<std::string, T>> : XM<std::map<std::string, T>, T> {}; template <class T> struct X<pfi::data::unordered_map<std::string, T>> : XM<pfi::data::unordered_map<std::string, T>, T> {};
template <class T> struct X<optional<T>> { typedef optional<T> C; static C gen(V::Rng &g, int d) { C c; if (g.chance(2, 3)) c = X<T>::gen(g, d - 1); return c; } static J enc(const C &v) { return v ? X<T>::enc(*v) : J(Nul); } static bool conv(const J &j, C &v) { if (j.t == Nul) { v = C(); return true; } T t = T(); if (!X<T>::conv(j, t)) return false; v = t; return true; }
  static void def(const J &j, C &v) { if (j.t == Nul) { v = C(); return; } T t = v ? *v : T(); X<T>::def(j, t); v = t; } };
template <class T> static bool fld(const J &j, const char *n, T &v) { auto p = j.o.find(n); return p != j.o.end() && X<T>::conv(p->second, v); }
template <class T> static bool fld(const J &j, const char *n, optional<T> &v) { auto p = j.o.find(n); if (p == j.o.end()) { v = optional<T>(); return true; } return X<optional<T>>::conv(p->second, v); }
template <class T> static void dfl(const J &j, const char *n, T &v) { if (j.t != Obj) return; auto p = j.o.find(n); if (p != j.o.end()) X<T>::def(p->second, v); }
struct In { int a; std::string b; optional<double> c; In() : a(-5), b("dft") {} template <class Ar> void serialize(Ar &ar) { ar & MEMBER(a) & NAMED_MEMBER("bee \"q\"", b) & MEMBER(c); } bool operator==(const In &o) const { return a == o.a && b == o.b && c == o.c; } };
template <> struct X<In> { static In gen(V::Rng &g, int d) { In r; r.a = X<int>::gen(g, d); r.b = X<std::string>::gen(g, d); r.c = X<optional<double>>::gen(g, d); return r; } static J enc(const In &v) { J j(Obj); j.o["a"] = X<int>::enc(v.a); j.o["bee \"q\""] = X<std::string>::enc(v.b); j.o["c"] = X<optional<double>>::enc(v.c); return j; } static bool conv(const J &j, In &v) { return j.t == Obj && fld(j, "a", v.a) && fld(j, "bee \"q\"", v.b) && fld(j, "c", v.c); } static void def(const J &j, In &v) { dfl(j, "a", v.a); dfl(j, "bee \"q\"", v.b); dfl(j, "c", v.c); } };
typedef std::map<std::string, In> MIn; typedef pfi::data::unordered_map<std::string, std::vector<double>> UMD; typedef std::vector<optional<std::string>> VOS; typedef std::vector<std::map<std::string, bool>> VMB;
struct Out { bool b; long l; long long ll; float f; In in; std::vector<In> vin; MIn m; UMD u; VOS vos; optional<In> oin; VMB vmb; Out() : b(true), l(77), ll(-77), f(0.5f) {}
  template <class Ar> void serialize(Ar &ar) { ar & MEMBER(b) & MEMBER(l) & MEMBER(ll) & MEMBER(f) & MEMBER(in) & MEMBER(vin) & MEMBER(m) & MEMBER(u) & MEMBER(vos) & MEMBER(oin) & MEMBER(vmb); } bool operator==(const Out &o) const { return b == o.b && l == o.l && ll == o.ll && f == o.f && in == o.in && vin == o.vin && m == o.m && u == o.u && vos == o.vos && oin == o.oin && vmb == o.vmb; } };
#define ALLF(M) M(b, bool) M(l, long) M(ll, long long) M(f, float) M(in, In) M(vin, VEC(In)) M(m, MIn) M(u, UMD) M(vos, VOS) M(oin, optional<In>) M(vmb, VMB)
template <> struct X<Out> { static Out gen(V::Rng &g, int d) { Out r; 
#define M1(n, T) r.n = X<T>::gen(g, d);
  ALLF(M1) return r; } static J enc(const Out &v) { J j(Obj);
#define M2(n, T) j.o[#n] = X<T>::enc(v.n);
  ALLF(M2) return j; } static bool conv(const J &j, Out &v) { return j.t == Obj
#define M3(n, T) && fld(j, #n, v.n)
  ALLF(M3); } static void def(const J &j, Out &v) {
#define M4(n, T) dfl(j, #n, v.n);
  ALLF(M4) } };
// change one node of a document: another kind, another range, a missing or an extra member
static int nodes(const J &j) { int n = 1; for (auto &x : j.a) n += nodes(x); for (auto &x : j.o) n += nodes(x.second); return n; }
static bool mutate(J &j, int &k, V::Rng &g) { if (k-- == 0) { if (j.t == Obj && !j.o.empty() && g.chance(1, 2)) { auto p = j.o.begin(); std::advance(p, g.below(j.o.size())); if (g.chance(1, 2)) j.o.erase(p); else { J v = p->second; j.o.erase(p); j.o["renamed"] = v; } } else { int fuel = 4; j = gen(g, 2, fuel); } return true; } for (auto &x : j.a) if (mutate(x, k, g)) return true; for (auto &x : j.o) if (mutate(x.second, k, g)) return true; return false; }
static bool unchanged_float_ok(double) { return true; }
template <class T> static void type(const char *name, V::Rng &g, uint64_t idx, const T *given = 0) {
  T v = given ? *given : X<T>::gen(g, 3); J want = X<T>::enc(v); V::cur(std::string(name) + " " + show(want)); json js = to_json(v); J got = from_lib(js); VCHECK(same(want, got), name << ": converted to " << show(got) << " expected " << show(want));
  T a = json_cast<T>(js); VCHECK(a == v, name << ": json_cast gives another value back"); T b = X<T>::gen(g, 3); from_json(js, b); VCHECK(b == v, name << ": from_json gives another value back (target was not fresh)"); n_rt++;
  { std::stringstream ss; if (g.chance(1, 2)) ss << js; else ss << pretty(js); T c = X<T>::gen(g, 2); ss >> via_json(c); VCHECK(c == v, name << ": via_json from text gives another value: " << V::quote(ss.str(), 500)); }
  { std::stringstream ss; { pfi::data::serialization::json_oarchive oa(ss, g.chance(1, 2), g.chance(1, 2)); oa << v; } T c = X<T>::gen(g, 2); pfi::data::serialization::json_iarchive ia(ss); ia >> c; VCHECK(c == v, name << ": json archives give another value: " << V::quote(ss.str(), 500)); }
  for (int r = 0; r < 4; r++) {
    J j = want; int m = 1 + g.below(2); if (r == 3) { int fuel = 8; j = gen(g, 3, fuel); m = 0; } for (int i = 0; i < m; i++) { int k = g.below(nodes(j)); mutate(j, k, g); }
    V::cur(std::string(name) + " from " + show(j)); json lj = to_lib(j); T ref = T(), got2 = g.chance(1, 2) ? T() : X<T>::gen(g, 3); bool ok = X<T>::conv(j, ref), lib = false;
    try { from_json(lj, got2); lib = true; } catch (const std::bad_cast &) {} VCHECK(lib == ok, name << ": conversion from " << show(j) << (lib ? " succeeded" : " was refused") << ", expected " << (ok ? "success" : "bad_cast")); if (ok) { VCHECK(got2 == ref, name << ": conversion from " << show(j) << " gives another value"); n_conv_ok++; } else n_refused++;
    bool lib2 = false; try { T t = json_cast<T>(lj); lib2 = true; if (ok) VCHECK(t == ref, name << ": json_cast gives another value"); } catch (const std::bad_cast &) {} VCHECK(lib2 == ok, name << ": json_cast and from_json disagree about " << show(j));
    T d = X<T>::gen(g, 2), d0 = d, dref = d; X<T>::def(j, dref); T dl = json_cast_with_default<T>(lj, d0); VCHECK(dl == dref, name << ": json_cast_with_default from " << show(j) << " with default " << show(X<T>::enc(d0)) << " gives " << show(X<T>::enc(dl)) << " expected " << show(X<T>::enc(dref))); from_json_with_default(lj, d); VCHECK(d == dref, name << ": from_json_with_default differs"); n_default++;
    if (g.chance(1, 3)) { std::stringstream ss; ss << to_json(d0); J jj = from_lib(lj); std::ostringstream os; os << lj; std::istringstream is(os.str()); J re; { std::istringstream i2(os.str()); json q; i2 >> q; re = from_lib(q); } T dv = d0, rv = d0; X<T>::def(re, rv); is >> via_json_with_default(dv); VCHECK(dv == rv, name << ": via_json_with_default from " << V::quote(os.str(), 500) << " differs"); }
    VCHECK(same(from_lib(lj), j), "a conversion changed the JSON value it read");
  }
  V::nontrivial(V::hash_str(name + show(want))); if (idx < 1) V::sample(name + (" " + show(want).substr(0, 300)));
}
#define RUN(T) type<T>(#T, g, idx)
static void one(V::Rng &g, uint64_t idx) { switch (idx % 14) { case 0: RUN(bool); break; case 1: RUN(int); break; case 2: RUN(long); RUN(long long); break; case 3: RUN(float); RUN(double); break; case 4: RUN(std::string); break; case 5: RUN(std::vector<int>); break; case 6: RUN(MIn); break; case 7: RUN(UMD); break; case 8: RUN(optional<int>); RUN(optional<std::string>); break; case 9: RUN(VOS); break; case 10: RUN(In); break; case 11: RUN(std::vector<std::vector<std::string>>); break; default: RUN(Out); } }
// containers and strings far beyond the sizes of the random ones
static void big(V::Rng &g, uint64_t idx) { static const size_t K[][5] = {{70001, 3000, 100003, 6000, 5000}, {257, 2100, 1025, 4500, 2100}, {4097, 260, 65537, 5000, 300}}; size_t n = K[idx / 5 % 3][idx % 5]; V::count("large values");
  switch (idx % 5) { case 0: { std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back((int)g.u32()); type<std::vector<int>>("large vector<int>", g, 9, &v); break; } case 1: { MIn m; for (size_t i = 0; i < n / 8; i++) m["k" + std::to_string(i)] = X<In>::gen(g, 1); type<MIn>("large map", g, 9, &m); break; } case 2: { std::string s; while (s.size() < n) s += gen_str(g) + "x"; type<std::string>("large string", g, 9, &s); break; } case 3: { UMD u; for (size_t i = 0; i < n / 16; i++) u["u" + std::to_string(i)] = std::vector<double>(i % 3, i * 0.5); type<UMD>("large unordered_map", g, 9, &u); break; } default: { std::vector<std::vector<std::string>> v(n / 8); for (auto &x : v) x = X<std::vector<std::string>>::gen(g, 2); type<std::vector<std::vector<std::string>>>("large vector of vectors", g, 9, &v); } } }
// unsigned integers convert one way: exactly, or not at all
template <class U> static void uns(V::Rng &g, const char *name) { U v; switch (g.below(3)) { case 0: v = (U)g.u64(); break; case 1: v = (U)((U)1 << g.below(sizeof(U) * 8)) + (U)g.range(-1, 1); break; default: v = (U)g.below(100); } bool fits = (unsigned long long)v <= 9223372036854775807ULL; std::ostringstream d; d << name << " " << (unsigned long long)v; V::cur(d.str());
  for (int form = 0; form < 4; form++) { bool ok = true; J got; try { json j; switch (form) { case 0: j = to_json(v); break; case 1: j = to_json(std::vector<U>(1, v))[(size_t)0]; break; case 2: { std::map<std::string, U> m; m["x"] = v; j = to_json(m)["x"]; break; } default: j = to_json(optional<U>(v)); } got = from_lib(j); } catch (const std::bad_cast &) { ok = false; } VCHECK(ok == fits, d.str() << (ok ? " converted to " + show(got) : " refused") << ", form " << form); if (ok) VCHECK(got.t == Int && (unsigned long long)got.i == (unsigned long long)v, d.str() << " converted to " << show(got)); V::count(ok ? "unsigned converted" : "unsigned refused"); } }
struct HJ { json j; std::vector<json> v; std::map<std::string, json> m; template <class Ar> void serialize(Ar &ar) { ar & MEMBER(j) & MEMBER(v) & MEMBER(m); } };
static void misc(V::Rng &g, uint64_t) { uns<unsigned>(g, "unsigned"); uns<unsigned long>(g, "unsigned long"); uns<unsigned long long>(g, "unsigned long long");
  HJ h; J w(Obj); int f = 6; J a = JR::gen(g, 3, f); w.o["j"] = a; h.j = to_lib(a); J wv(Arr), wm(Obj); int n = g.below(4); for (int i = 0; i < n; i++) { int f2 = 3; J x = JR::gen(g, 2, f2); wv.a.push_back(x); h.v.push_back(to_lib(x)); std::string k(1, 'a' + g.below(9)); wm.o[k] = x; h.m[k] = to_lib(x); } w.o["v"] = wv; w.o["m"] = wm; V::cur("json members " + show(w)); json js = to_json(h); VCHECK(same(from_lib(js), w), "a type with json members converted to " << show(from_lib(js)) << " expected " << show(w)); HJ b; from_json(js, b); VCHECK(same(from_lib(to_json(b)), w), "a type with json members came back differently"); HJ c; from_json_with_default(js, c); VCHECK(same(from_lib(to_json(c)), w), "a type with json members came back differently with defaults"); HJ e = h; from_json_with_default(json(new json_object), e); VCHECK(same(from_lib(to_json(e)), w), "defaults lost"); V::count("json members"); }
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("random values of nested convertible types: expected JSON, all conversion routes back, and conversions from mutated and arbitrary JSON compared (accepted value or bad_cast, and defaulted variants) with a reference conversion; distinct = distinct values");
  V::cases("unsigned and json members", 4000, 0.15, misc); V::cases("large", 15, 9, big); V::cases("values", 40000, 1, one); V::count("round trips", n_rt); V::count("conversions accepted", n_conv_ok); V::count("conversions refused", n_refused); V::count("defaulted conversions", n_default); return V::finish();
}
