#include <math/ratio.h>
#include <math/vector.h>
#include "common.h"
#include <climits>
#include <utility>
namespace R = pfi::math::ratio; namespace N = pfi::math::vector::component_by_name; namespace A = pfi::math::vector::component_by_array;
typedef __int128 I; static std::atomic<uint64_t> n_ratio, n_vec, n_alias, n_skip;
static I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
struct Q { I n, d; Q(I a, I b) { if (b < 0) { a = -a; b = -b; } I g = gcdI(a, b); n = a / g; d = b / g; } };
template <class T> static T hi() { return std::numeric_limits<T>::max(); }
template <class T> static bool fits(I v) { return v <= (I)hi<T>() && v >= -(I)hi<T>(); }
template <class T> static T val(V::Rng &g) { switch (g.below(5)) { case 0: return (T)g.range(-6, 6); case 1: return (T)g.range(-1000, 1000); case 2: { T v = hi<T>() >> g.below(sizeof(T) * 8 - 2); return g.chance(1, 2) ? v : -v; } case 3: { int64_t m = hi<T>(); T v = (T)(g.u64() & (uint64_t)m); v >>= g.below(sizeof(T) * 8 - 2); return g.chance(1, 2) ? v : -v; } default: { T v = 1; static const int pr[] = {2, 3, 5, 7, 2, 2, 3}; while (v < hi<T>() / 8 && !g.chance(1, 9)) v *= pr[g.below(7)]; return g.chance(1, 2) ? v : -v; } } }
template <class T> static std::string str(const R::ratio<T> &r) { std::ostringstream o; o << r; return o.str(); }
template <class T> static void same(const R::ratio<T> &r, const Q &q, const std::string &w) { VCHECK((I)r.num() == q.n && (I)r.den() == q.d, w << " = " << r.num() << "/" << r.den() << ", exactly " << (long long)q.n << "/" << (long long)q.d); VCHECK(r.den() > 0, w << ": denominator " << r.den()); VEQ(str(r), std::to_string((long long)q.n) + "/" + std::to_string((long long)q.d), "printed " << w); n_ratio++; }
template <class T> static void ratios(V::Rng &g, uint64_t idx) {
  T an = val<T>(g), ad = val<T>(g), bn = val<T>(g), bd = val<T>(g); if (!ad) ad = 1; if (!bd) bd = -1; typedef R::ratio<T> RT; std::string as = std::to_string(an) + "/" + std::to_string(ad), bs = std::to_string(bn) + "/" + std::to_string(bd); V::cur(as + " " + bs + (sizeof(T) == 4 ? " int" : " long long")); V::nontrivial(V::hash_str(as + " " + bs)); if (idx < 3) V::sample(as + " with " + bs);
  RT a(an, ad), b(bn, bd); Q qa(an, ad), qb(bn, bd); same(a, qa, "ratio(" + as + ")"); same(b, qb, "ratio(" + bs + ")"); { RT z; same(z, Q(0, 1), "ratio()"); RT w(an); same(w, Q(an, 1), "ratio(" + std::to_string(an) + ")"); }
  VEQ(a == b, qa.n == qb.n && qa.d == qb.d, as << " == " << bs); VCHECK(a == RT(a), "a == copy of a");
  I l = qa.d / gcdI(qa.d, qb.d) * qb.d; I x = qa.n * (l / qa.d), y = qb.n * (l / qb.d);
  if (fits<T>(l) && fits<T>(x) && fits<T>(y) && fits<T>(x + y)) { RT c = a; RT &ret = (c += b); VCHECK(&ret == &c, "+= returns its left operand"); same(c, Q(x + y, l), as + " += " + bs); same<T>(a + b, Q(x + y, l), as + " + " + bs); } else n_skip++;
  if (fits<T>(l) && fits<T>(x) && fits<T>(y) && fits<T>(x - y)) { RT c = a; RT &ret = (c -= b); VCHECK(&ret == &c, "-= returns its left operand"); same(c, Q(x - y, l), as + " -= " + bs); same<T>(a - b, Q(x - y, l), as + " - " + bs); } else n_skip++;
  { Q m(qa.n * qb.n, qa.d * qb.d); if (fits<T>(m.n) && fits<T>(m.d)) { RT c = a; RT &ret = (c *= b); VCHECK(&ret == &c, "*= returns its left operand"); same(c, m, as + " *= " + bs); same<T>(a * b, m, as + " * " + bs); } else n_skip++; }
  if (qb.n) { Q m(qa.n * qb.d, qa.d * qb.n); if (fits<T>(m.n) && fits<T>(m.d)) { RT c = a; RT &ret = (c /= b); VCHECK(&ret == &c, "/= returns its left operand"); same(c, m, as + " /= " + bs); same<T>(a / b, m, as + " / " + bs); } else n_skip++; }
  VCHECK((I)a.num() == qa.n && (I)b.num() == qb.n, "an operand changed"); n_alias++;
  if (fits<T>(qa.n * 2)) { RT c = a; c += c; same(c, Q(qa.n * 2, qa.d), as + " += itself"); } { RT c = a; c -= c; same(c, Q(0, 1), as + " -= itself"); } if (fits<T>(qa.n * qa.n) && fits<T>(qa.d * qa.d)) { RT c = a; c *= c; same(c, Q(qa.n * qa.n, qa.d * qa.d), as + " *= itself"); } if (qa.n) { RT c = a; c /= c; same(c, Q(1, 1), as + " /= itself"); } }
// ---- vectors ----
template <class T> static bool close(T a, T b, T scale) { if (std::numeric_limits<T>::is_integer) return a == b; double tol = (sizeof(T) == 4 ? 1e-5 : 1e-13) * (std::fabs((double)scale) + std::fabs((double)b)) + 1e-300; return std::fabs((double)a - (double)b) <= tol; }
template <class VT, class T, size_t... Is> static VT comp(const std::vector<T> &v, std::index_sequence<Is...>) { return VT(v[Is]...); }
template <class VT, class T, int D> static std::vector<T> out(const VT &v) { std::vector<T> r(D); v.writeToArray(r.data()); VT c(v); for (int i = 0; i < D; i++) VCHECK(c[i] == r[i], "component " << i << " by index " << c[i] << " by writeToArray " << r[i]); return r; }
template <class T> static T elem(V::Rng &g) { int k = g.below(4); if (std::numeric_limits<T>::is_integer) return (T)(k == 0 ? g.range(-2, 2) : g.range(-3000, 3000)); if (k == 0) return (T)g.range(-2, 2); if (k == 1) return (T)g.range(-3000, 3000); return (T)((g.unit() - .5) * (k == 2 ? 1e6 : 1)); }
template <class VT, class T, int D, class U> static typename std::enable_if<(D == 2), void>::type outer(const VT &a, const VT &b, const std::vector<U> &x, const std::vector<U> &y) { T o = a % b; VCHECK(close<T>(o, x[0] * y[1] - x[1] * y[0], std::fabs((double)(x[0] * y[1])) + std::fabs((double)(x[1] * y[0]))), "outer product of dimension 2"); }
template <class VT, class T, int D, class U> static typename std::enable_if<(D == 3), void>::type outer(const VT &a, const VT &b, const std::vector<U> &x, const std::vector<U> &y) { std::vector<T> o = out<VT, T, 3>(a % b); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; VCHECK(close<T>(o[i], x[j] * y[k] - x[k] * y[j], std::fabs((double)(x[j] * y[k])) + std::fabs((double)(x[k] * y[j]))), "outer product component " << i); } }
template <class VT, class T, int D, class U> static typename std::enable_if<(D > 3), void>::type outer(const VT &, const VT &, const std::vector<U> &, const std::vector<U> &) {}
template <class VT, class T, int D> static void lengths(const VT &, const std::vector<T> &, std::true_type) {}
template <class VT, class T, int D> static void lengths(const VT &a, const std::vector<T> &x, std::false_type) { long double s = 0; for (T v : x) s += (long double)v * v; VCHECK(close<T>(abs(a), (T)sqrtl(s), (T)0), "abs"); if (s > 1e-6L) { T want = (T)2.5; std::vector<T> p = out<VT, T, D>(normalize(a, want)), q = out<VT, T, D>(VT(a).normalize(want)), r = out<VT, T, D>(normalize(a)), r2 = out<VT, T, D>(VT(a).normalize()); for (int i = 0; i < D; i++) { T e = (T)(x[i] / sqrtl(s)); VCHECK(close<T>(p[i], e * want, want) && close<T>(q[i], e * want, want) && close<T>(r[i], e, 1) && close<T>(r2[i], e, 1), "normalize component " << i << ": " << p[i] << " " << q[i] << " " << r[i] << " want " << e); } std::vector<T> still = out<VT, T, D>(a); VCHECK(still == x, "normalize changed its operand"); } }
template <class VT, class T, int D> static void vec(V::Rng &g, const char *nm) {
  std::vector<T> x(D), y(D); for (auto &v : x) v = elem<T>(g); for (auto &v : y) v = elem<T>(g); if (g.chance(1, 3)) { size_t k = g.below(D + 1); for (size_t i = 0; i < k; i++) y[i] = x[i]; } T m = elem<T>(g); if (m == 0) m = 3; std::string w = std::string(nm) + std::to_string(D); { std::ostringstream o; o << w << " ("; for (T v : x) o << v << " "; o << ") ("; for (T v : y) o << v << " "; o << ") " << m; V::cur(o.str()); V::nontrivial(V::hash_str(o.str())); } n_vec++;
  VT a = comp<VT>(x, std::make_index_sequence<D>()), b(y.data()); { VT z; std::vector<T> o = out<VT, T, D>(z); for (T v : o) VCHECK(v == 0, "zero constructor"); }
  VCHECK((out<VT, T, D>(a) == x), w << ": components of a constructed vector"); VCHECK((out<VT, T, D>(b) == y), w << ": components of a vector built from a pointer");
  std::vector<T> add = out<VT, T, D>(a + b), sub = out<VT, T, D>(a - b), neg = out<VT, T, D>(-a), ml = out<VT, T, D>(m * a), mr = out<VT, T, D>(a * m), dv = out<VT, T, D>(a / m); T dot = 0, sc = 0, nb = 0; for (int i = 0; i < D; i++) { VCHECK(add[i] == (T)(x[i] + y[i]), w << " + component " << i << ": " << add[i]); VCHECK(sub[i] == (T)(x[i] - y[i]), w << " - component " << i << ": " << sub[i]); VCHECK(neg[i] == (T)-x[i], w << " unary - component " << i << ": " << neg[i]); VCHECK(close<T>(ml[i], m * x[i], 0) && close<T>(mr[i], m * x[i], 0), w << " * scalar component " << i << ": " << ml[i] << " " << mr[i]); VCHECK(close<T>(dv[i], x[i] / m, 0), w << " / scalar component " << i << ": " << dv[i]); dot += x[i] * y[i]; sc += std::fabs((double)(x[i] * y[i])); nb += y[i] * y[i]; }
  VCHECK(close<T>(a * b, dot, sc), w << " inner product " << (a * b) << " want " << dot); VCHECK(close<T>(norm(b), nb, nb), w << " norm"); if (nb > (T)1e-6) VCHECK(close<T>(a / b, dot / nb, sc / nb), w << " projection factor " << (a / b)); outer<VT, T, D>(a, b, x, y); lengths<VT, T, D>(a, x, std::integral_constant<bool, std::numeric_limits<T>::is_integer>());
  { VT c(a); VT &r = (c += b); VCHECK(&r == &c && (out<VT, T, D>(c) == add), w << " +="); } { VT c(a); VT &r = (c -= b); VCHECK(&r == &c && (out<VT, T, D>(c) == sub), w << " -="); } { VT c(a); c *= m; VCHECK((out<VT, T, D>(c) == ml), w << " *="); } { VT c(a); c /= m; VCHECK((out<VT, T, D>(c) == dv), w << " /="); }
  { VT c(a); c += c; std::vector<T> o = out<VT, T, D>(c); for (int i = 0; i < D; i++) VCHECK(o[i] == (T)(x[i] + x[i]), w << " += itself"); c = a; c -= c; o = out<VT, T, D>(c); for (T v : o) VCHECK(v == 0, w << " -= itself"); int k = g.below(D); c = a; T f = c[k]; c *= c[k]; o = out<VT, T, D>(c); for (int i = 0; i < D; i++) VCHECK(close<T>(o[i], x[i] * f, 0), w << " *= by its own component " << k << ": component " << i << " is " << o[i]); if (f != 0) { c = a; c /= c[k]; o = out<VT, T, D>(c); for (int i = 0; i < D; i++) VCHECK(close<T>(o[i], x[i] / f, 0), w << " /= by its own component " << k << ": component " << i << " is " << o[i]); } n_alias++; }
  VEQ(a == b, x == y, w << " =="); VEQ(a < b, x < y, w << " <"); VEQ(b < a, y < x, w << " >"); VCHECK(a == VT(a) && !(a < a), w << " reflexive"); { VT c(a); int k = g.below(D); T nv = elem<T>(g); c[k] = nv; std::vector<T> z = x; z[k] = nv; VCHECK((out<VT, T, D>(c) == z), w << " assigning component " << k); VEQ(a == c, x == z, w << " == after a change in " << k); VEQ(a < c, x < z, w << " < after a change in " << k); }
  { std::ostringstream o; o.precision(20); o << a << " " << b << "\n"; std::istringstream i(o.str()); VT p, q; i >> p >> q; VCHECK((i && out<VT, T, D>(p) == x && out<VT, T, D>(q) == y), w << ": printed and read back: " << o.str()); } VCHECK((out<VT, T, D>(a) == x && out<VT, T, D>(b) == y), w << ": an operand changed"); }
template <class T> static void vecs(V::Rng &g, uint64_t) { vec<N::vector2<T>, T, 2>(g, "name"); vec<N::vector3<T>, T, 3>(g, "name"); vec<N::vector4<T>, T, 4>(g, "name"); vec<A::vector2<T>, T, 2>(g, "array"); vec<A::vector3<T>, T, 3>(g, "array"); vec<A::vector4<T>, T, 4>(g, "array"); vec<A::vector5<T>, T, 5>(g, "array"); vec<A::vector6<T>, T, 6>(g, "array"); vec<A::vector7<T>, T, 7>(g, "array"); vec<A::vector8<T>, T, 8>(g, "array"); vec<A::vector9<T>, T, 9>(g, "array"); vec<A::vector10<T>, T, 10>(g, "array"); }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("rational operations on small, smooth and extreme operands against exact 128-bit rationals wherever the operands and the result over the least common denominator fit, with aliasing; every vector class of dimension 2 to 10 over int, float and double against component-wise definitions; distinct = distinct operand sets"); V::cases("ratio int", 60000, .3, ratios<int>); V::cases("ratio long long", 60000, .6, ratios<long long>); V::cases("vector int", 4000, .75, vecs<int>); V::cases("vector double", 4000, .9, vecs<double>); V::cases("vector float", 2000, 1, vecs<float>); V::count("rational results", n_ratio); V::count("vector pairs", n_vec); V::count("aliasing cases", n_alias); V::count("results that do not fit (skipped)", n_skip); return V::finish(); }
