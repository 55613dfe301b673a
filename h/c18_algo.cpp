#include "common.h"
#include <data/string/algorithm.h>
#include <data/string/ustring.h>
using namespace pfi::data::string;
static std::atomic<uint64_t> n_e, n_l, n_i, n_t;
// memoised recursion, written from the definitions
template <class A> struct Rec { const A &a, &b; std::vector<int> me, ml; Rec(const A &x, const A &y) : a(x), b(y), me((x.size() + 1) * (y.size() + 1), -1), ml(me) {}
  int ed(size_t i, size_t j) { if (i == a.size()) return b.size() - j; if (j == b.size()) return a.size() - i; int &r = me[i * (b.size() + 1) + j]; if (r >= 0) return r; if (a[i] == b[j]) return r = ed(i + 1, j + 1); return r = 1 + std::min(ed(i + 1, j + 1), std::min(ed(i + 1, j), ed(i, j + 1))); }
  int lcs(size_t i, size_t j) { if (i == a.size() || j == b.size()) return 0; int &r = ml[i * (b.size() + 1) + j]; if (r >= 0) return r; if (a[i] == b[j]) return r = 1 + lcs(i + 1, j + 1); return r = std::max(lcs(i + 1, j), lcs(i, j + 1)); } };
template <class A> static int lis(const A &a) { int best = 0; std::vector<int> f(a.size()); for (size_t i = 0; i < a.size(); i++) { f[i] = 1; for (size_t j = 0; j < i; j++) if (a[j] < a[i]) f[i] = std::max(f[i], f[j] + 1); best = std::max(best, f[i]); } return best; }
template <class A> static std::string show(const A &a) { std::ostringstream o; o << "["; for (size_t i = 0; i < a.size() && i < 60; i++) o << (i ? "," : "") << (long double)a[i]; o << "]"; return o.str(); }
template <class A> static A rnd(V::Rng &g, std::vector<typename A::value_type> ab, size_t mx) { A a; size_t n = V::rand_len(g, mx); for (size_t i = 0; i < n; i++) a.push_back(ab[g.below(ab.size())]); return a; }
template <class A> static A mutate(V::Rng &g, A a, std::vector<typename A::value_type> ab) { int k = g.below(5); for (int i = 0; i < k; i++) { size_t p = g.below(a.size() + 1); switch (g.below(3)) { case 0: a.insert(a.begin() + p, ab[g.below(ab.size())]); break; case 1: if (p < a.size()) a.erase(a.begin() + p); break; default: if (p < a.size()) a[p] = ab[g.below(ab.size())]; } } return a; }
template <class A> static void pair_case(V::Rng &g, const std::vector<typename A::value_type> &ab, uint64_t idx, size_t mx) {
  A a = rnd<A>(g, ab, mx), b = g.chance(1, 2) ? mutate(g, a, ab) : rnd<A>(g, ab, mx), c = mutate(g, b, ab); std::string d = show(a) + " " + show(b); V::cur(d); Rec<A> r(a, b);
  int e = edit_distance(a, b), l = longest_common_subsequence(a, b); VEQ(e, r.ed(0, 0), "edit distance of " << d); VEQ(l, r.lcs(0, 0), "longest common subsequence of " << d);
  VEQ(edit_distance(b, a), e, "symmetry " << d); VEQ(longest_common_subsequence(b, a), l, "symmetry " << d); VCHECK((e == 0) == (a == b), "identity " << d); VEQ(longest_common_subsequence(a, a), (int)a.size(), "self " << d); VCHECK(edit_distance(a, c) <= e + edit_distance(b, c), "triangle inequality " << d << " " << show(c)); n_e += 4; n_l += 3; n_t++;
  V::nontrivial(V::hash_str(d)); if (idx < 3) V::sample(d);
}
template <class A> static void lis_case(V::Rng &g, const std::vector<typename A::value_type> &ab, uint64_t idx, size_t mx) { A a = rnd<A>(g, ab, mx); if (g.chance(1, 5)) std::sort(a.begin(), a.end()); if (g.chance(1, 8)) std::reverse(a.begin(), a.end()); std::string d = show(a); V::cur(d); VEQ(longest_increasing_subsequence(a), lis(a), "longest strictly increasing subsequence of " << d); n_i++; V::nontrivial(V::hash_str(d)); if (idx < 2) V::sample("lis " + d); }
// inputs of hundreds and thousands of elements against row-by-row recurrences and patience sorting
static void longer(V::Rng &g, uint64_t i) {
  int k = 2 + g.below(6); size_t n = 200 + g.below(700), m = g.chance(1, 2) ? 200 + g.below(700) : g.below(40); std::string a, b; for (size_t j = 0; j < n; j++) a += 'a' + g.below(k); if (g.chance(1, 2)) { b = a; for (int t = g.below(60); t; t--) { size_t p = g.below(b.size()); if (g.chance(1, 2)) b.erase(p, 1 + g.below(4)); else b.insert(p, 1, 'a' + g.below(k)); if (b.empty()) break; } } else for (size_t j = 0; j < m; j++) b += 'a' + g.below(k); if (g.chance(1, 2)) std::swap(a, b); V::cur(a + " " + b);
  std::vector<int> e(b.size() + 1), l(b.size() + 1); for (size_t j = 0; j <= b.size(); j++) e[j] = j; for (size_t x = 0; x < a.size(); x++) { std::vector<int> e2(b.size() + 1), l2(b.size() + 1); e2[0] = x + 1; for (size_t y = 0; y < b.size(); y++) { e2[y + 1] = a[x] == b[y] ? e[y] : 1 + std::min(e[y], std::min(e[y + 1], e2[y])); l2[y + 1] = a[x] == b[y] ? l[y] + 1 : std::max(l[y + 1], l2[y]); } e.swap(e2); l.swap(l2); }
  VEQ(edit_distance(a, b), e[b.size()], "edit distance of strings of " << a.size() << " and " << b.size()); VEQ(longest_common_subsequence(a, b), l[b.size()], "common subsequence of strings of " << a.size() << " and " << b.size()); VEQ(edit_distance(std::vector<int>(a.begin(), a.end()), std::vector<int>(b.begin(), b.end())), e[b.size()], "as vectors"); n_e += 2; n_l++;
  std::vector<int> s; for (size_t j = 0, q = 1000 + g.below(3000); j < q; j++) s.push_back(g.chance(1, 3) ? (int)j : (int)g.range(-2000, 2000)); VEQ(longest_increasing_subsequence(s), lis(s), "increasing subsequence of " << s.size() << " elements"); n_i++; V::nontrivial(V::hash_str(a + b));
}
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("random and mutated pairs over several element types against recursions written from the definitions, metric laws, exhaustive short strings; distinct = distinct inputs");
  std::vector<std::string> all(1, ""); for (size_t i = 0; i < all.size() && all[i].size() < 4; i++) { all.push_back(all[i] + 'a'); all.push_back(all[i] + 'b'); all.push_back(all[i] + 'c'); }
  for (size_t i = 0; i < all.size(); i++) { V::cur(all[i]); for (size_t j = 0; j < all.size(); j++) { Rec<std::string> r(all[i], all[j]); VEQ(edit_distance(all[i], all[j]), r.ed(0, 0), all[i] << " " << all[j]); VEQ(longest_common_subsequence(all[i], all[j]), r.lcs(0, 0), all[i] << " " << all[j]); } VEQ(longest_increasing_subsequence(all[i]), lis(all[i]), all[i]); V::eval(all.size()); }
  V::count("exhaustive pairs", all.size() * all.size());
  V::cases("longer", 40, 0.4, longer); V::cases("pairs", 20000, 0.7, [](V::Rng &g, uint64_t i) { size_t mx = g.chance(1, 10) ? 120 : 20; switch (i % 4) { case 0: pair_case<std::string>(g, {'a', 'b'}, i, mx); break; case 1: pair_case<std::string>(g, {'\0', '\x80', '\xff', 'x', 'y'}, i, mx); break; case 2: pair_case<std::vector<int> >(g, {0, 1, -1, INT_MAX, INT_MIN}, i, mx); break; default: pair_case<ustring>(g, {0x61, 0x3042, 0x1f600}, i, mx); } });
  V::cases("lis", 40000, 1, [](V::Rng &g, uint64_t i) { size_t mx = g.chance(1, 10) ? 200 : 15; switch (i % 5) { case 0: lis_case<std::string>(g, {'a', 'b', 'c', 'd', '\x80', '\0'}, i, mx); break; case 1: lis_case<std::vector<int> >(g, {0, 1, 2, 3, 4, 5, INT_MAX, INT_MIN, -5}, i, mx); break; case 2: lis_case<std::vector<long long> >(g, {0, 1LL << 40, (1LL << 40) + 1, -(1LL << 41), INT_MAX, 1LL + INT_MAX}, i, mx); break; case 3: lis_case<std::vector<double> >(g, {0.1, 0.2, 0.3, -1e300, 1e300, 2.5}, i, mx); break; default: { std::vector<int> ab; for (int k = 0; k < 100; k++) ab.push_back(g.range(-50, 50)); lis_case<std::vector<int> >(g, ab, i, mx); } } });
  V::count("edit distances", n_e); V::count("common subsequences", n_l); V::count("increasing subsequences", n_i); V::count("triangles", n_t);
  return V::finish();
}
