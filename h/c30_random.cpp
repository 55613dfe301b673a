#include "common.h"
#include <math/random.h>
#include <random>
#include <cmath>
using namespace pfi::math::random;
static std::atomic<uint64_t> n_words, n_draws, n_samples;
// The reference stream: MT19937 written from the paper's recurrence, cross-checked against std::mt19937.
struct Ref { std::vector<uint32_t> x; size_t i; explicit Ref(uint32_t s) : x(624), i(624) { x[0] = s; for (uint32_t k = 1; k < 624; k++) x[k] = 1812433253u * (x[k - 1] ^ (x[k - 1] >> 30)) + k; }
  uint32_t next() { if (i == 624) { for (int k = 0; k < 624; k++) { uint32_t y = (x[k] & 0x80000000u) | (x[(k + 1) % 624] & 0x7fffffffu); x[k] = x[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0); } i = 0; } uint32_t y = x[i++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18); } };
// A scripted generator: the extreme words a derived draw must survive.
struct Scripted { uint32_t base; uint64_t n; explicit Scripted(uint32_t s) : base(s), n(0) {} uint32_t next() { uint64_t k = n++; switch (base & 3) { case 0: return 0; case 1: return 0xffffffffu; case 2: return k & 1 ? 0xffffffffu : 0; default: return V::mix64(base + k) & 1 ? 0xffffffffu : (uint32_t)V::mix64(k * 3); } } };
static uint32_t seedv(V::Rng &g) { static const uint32_t k[] = {0, 1, 2, 0x7fffffff, 0x80000000u, 0xffffffffu, 5489, 19650218, 624, 0xdeadbeef}; return g.chance(1, 3) ? k[g.below(10)] : g.u32(); }
static void stream(V::Rng &g, uint64_t idx) { uint32_t s = seedv(g); V::cur("seed " + std::to_string(s)); size_t len = g.chance(1, 3) ? 624 * (1 + g.below(6)) + g.below(5) : g.below(3000); Ref r(s); std::mt19937 st(s); mersenne_twister m(s); mtrand q(s); mtrand q2(s); mtrand copy(0); size_t cp = g.below(len + 1);
  for (size_t i = 0; i < len; i++) { if (i == cp) copy = q; uint32_t e = r.next(), e2 = st(); VCHECK(e == e2, "reference streams disagree"); uint32_t a = m.next(), b = g.chance(1, 2) ? q.next_int() : q(); VCHECK(a == e, "word " << i << " of seed " << s << " is " << a << " expected " << e); VCHECK(b == e, "mtrand word " << i << " of seed " << s << " is " << b << " expected " << e); n_words++; }
  mtrand other = q; for (int i = 0; i < 5; i++) { uint32_t e = r.next(); VEQ(q.next_int(), e, "stream continues"); VEQ(other.next_int(), e, "a copied generator continues the same stream"); }
  if (cp < len) { Ref r2(s); for (size_t i = 0; i < cp; i++) r2.next(); for (int i = 0; i < 700; i++) VEQ(copy.next_int(), r2.next(), "a copy taken at word " << cp << " of seed " << s); }
  Ref r3(s); for (int i = 0; i < 400; i++) { uint32_t a = r3.next() >> 5, b = r3.next() >> 6; double e = ((double)a * 67108864.0 + b) / 9007199254740992.0, d = q2.next_double(); VCHECK(d == e && d >= 0 && d < 1, "double " << i << " of seed " << s << " is " << d << " expected " << e); n_draws++; }
  V::nontrivial(s * 1000003ULL + len); if (idx < 3) V::sample("seed " + std::to_string(s) + " words " + std::to_string(len)); }
template <class R> static void ranges(R &q, V::Rng &g, const std::string &w) {
  for (int i = 0; i < 60; i++) { n_draws += 8; uint32_t a = g.chance(1, 3) ? 1 + g.below(5) : g.chance(1, 2) ? 0xffffffffu - g.below(3) : (uint32_t)(1 + g.below(0xfffffffeu)) >> g.below(31); if (!a) a = 1; V::cur(w + " bound " + std::to_string(a)); uint32_t v = g.chance(1, 2) ? q.next_int(a) : q(a); VCHECK(v < a, w << ": next_int(" << a << ") = " << v);
    uint32_t lo = g.u32() >> g.below(32), hi; if (lo == 0xffffffffu) lo--; hi = lo + 1 + g.below(0xffffffffu - lo); v = g.chance(1, 2) ? q.next_int(lo, hi) : q(lo, hi); VCHECK(v >= lo && v < hi, w << ": next_int(" << lo << "," << hi << ") = " << v);
    double d = q.next_double(); VCHECK(d >= 0 && d < 1, w << ": next_double() = " << d); double x = g.unit() * 1000 + 0.001; d = q.next_double(x); VCHECK(d >= 0 && d < x, w << ": next_double(" << x << ") = " << d); double l = g.range(-1000, 1000), h = l + 1 + g.below(1000); d = q.next_double(l, h); VCHECK(d >= l && d <= h, w << ": next_double(" << l << "," << h << ") = " << d); d = q.next_gaussian(); VCHECK(std::isfinite(d), w << ": next_gaussian() = " << d); d = q.next_gaussian(5, 2); VCHECK(std::isfinite(d), w << ": next_gaussian(5,2) = " << d); } }
static void draws(V::Rng &g, uint64_t) { uint32_t s = seedv(g); mtrand q(s); ranges(q, g, "seed " + std::to_string(s)); pfi::math::random::random<Scripted> sc(s); ranges(sc, g, "scripted " + std::to_string(s & 3)); }
template <class R> static void samp(R &q, V::Rng &g, const std::string &w) { int n = g.chance(1, 4) ? (int)g.range(-2, 2) : 1 + g.below(g.chance(1, 3) ? 1000 : 12), k = g.chance(1, 6) ? (int)g.range(-2, n + 3) : g.chance(1, 4) ? n : n > 0 ? (int)g.below(n + 1) : 0; std::vector<int> r(g.below(4), 12345), r0 = r; V::cur(w + " sample n=" + std::to_string(n) + " k=" + std::to_string(k)); n_samples++;
  bool ok = sample_without_replacement(q, n, k, r); VCHECK(ok == !(n <= 0 || k < 0 || k > n), w << ": sample_without_replacement(" << n << "," << k << ") returned " << ok); if (ok) { VEQ((int)r.size(), k, "sample size"); std::set<int> u(r.begin(), r.end()); VEQ((int)u.size(), k, "distinct elements of a sample of " << k << " from " << n); for (int v : r) VCHECK(v >= 0 && v < n, w << ": sample element " << v << " outside 0.." << n - 1); } else VCHECK(r == r0, "a refused sample changed the result");
  r = r0; ok = sample_with_replacement(q, n, k, r); VCHECK(ok == !(n <= 0 || k < 0), w << ": sample_with_replacement(" << n << "," << k << ") returned " << ok); if (ok) { VEQ((int)r.size(), k, "sample size"); for (int v : r) VCHECK(v >= 0 && v < n, w << ": sample element " << v << " outside 0.." << n - 1); } }
static void samples(V::Rng &g, uint64_t) { uint32_t s = seedv(g); mtrand q(s); samp(q, g, "seed " + std::to_string(s)); pfi::math::random::random<Scripted> sc(s); samp(sc, g, "scripted"); }
// coarse distribution monitors: far outside what a correct generator can produce by chance
static void dist(V::Rng &g, uint64_t) { mtrand q(g.u32()); int a = 2 + g.below(9); std::vector<long> c(a); long n = 20000; for (long i = 0; i < n; i++) c[q.next_int(a)]++; double chi = 0, e = (double)n / a; for (long x : c) chi += (x - e) * (x - e) / e; VCHECK(chi < 120, "next_int(" << a << ") is not uniform: chi2 " << chi); std::map<std::vector<int>, long> pc; for (int i = 0; i < 6000; i++) { std::vector<int> r; sample_without_replacement(q, 3, 2, r); pc[r]++; } VEQ(pc.size(), 6u, "ordered samples of 2 from 3"); for (auto &x : pc) VCHECK(x.second > 700 && x.second < 1300, "an ordered sample of 2 from 3 occurs " << x.second << " times of 6000"); double m = 0, v = 0; for (int i = 0; i < 20000; i++) { double d = q.next_gaussian(); m += d; v += d * d; } m /= 20000; v /= 20000; VCHECK(fabs(m) < 0.08 && fabs(v - 1) < 0.15, "gaussian mean " << m << " variance " << v); double mm = 0; for (int i = 0; i < 5000; i++) mm += q.next_gaussian(10, 3); VCHECK(fabs(mm / 5000 - 10) < 0.6, "gaussian with mean 10: " << mm / 5000); V::count("distribution checks"); }
// every kind of draw mixed on one stream, with copies taken in the middle (also of a pending Gaussian)
struct Model { Ref r; bool have; double stock; explicit Model(uint32_t s) : r(s), have(false), stock(0) {} double dbl() { uint32_t a = r.next() >> 5, b = r.next() >> 6; return ((double)a * 67108864.0 + b) / 9007199254740992.0; } double gauss() { if (have) { have = false; return stock; } double a = 1 - dbl(), b = 1 - dbl(), m = std::sqrt(-2 * std::log(a)); stock = m * std::cos(2 * M_PI * b); have = true; return m * std::sin(2 * M_PI * b); } };
static bool nearly(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
static void step(V::Rng &g, mtrand &q, Model &m, const std::string &w) { n_draws++; switch (g.below(6)) { case 0: VEQ(q.next_int(), m.r.next(), w << " next_int"); break; case 1: VEQ(q(), m.r.next(), w << " operator()"); break; case 2: { double d = q.next_double(), e = m.dbl(); VCHECK(d == e, w << " next_double " << d << " want " << e); break; } case 3: { double a = g.range(-50, 50), d = q.next_double(a, a + 8.75), e = a + 8.75 * m.dbl(); VCHECK(nearly(d, e), w << " next_double(a,b) " << d << " want " << e); break; } case 4: { double d = q.next_gaussian(), e = m.gauss(); VCHECK(nearly(d, e), w << " next_gaussian " << d << " want " << e); break; } default: { double mu = g.range(-20, 20), sd = g.below(9), d = q.next_gaussian(mu, sd), e = mu + sd * m.gauss(); VCHECK(nearly(d, e), w << " next_gaussian(" << mu << "," << sd << ") " << d << " want " << e); } } }
static void mixed(V::Rng &g, uint64_t) { uint32_t s = seedv(g); std::string w = "mixed draws of seed " + std::to_string(s); V::cur(w); mtrand q(s), o(g.u32()); Model m(s), mo(s); for (uint64_t i = g.below(20); i; i--) o.next_gaussian(); int n = 20 + g.below(1500), cp = g.below(n); for (int i = 0; i < n; i++) { step(g, q, m, w); if (i == cp) { o = q; mo = m; } } mtrand c2(q); Model m2(m); for (int i = 0; i < 40; i++) { step(g, o, mo, w + " (assigned copy)"); step(g, c2, m2, w + " (copy)"); step(g, q, m, w); } }
// one long stream per seed, far beyond the first state blocks
static void longs(V::Rng &g, uint64_t) { uint32_t s = seedv(g); V::cur("long stream of seed " + std::to_string(s)); std::mt19937 st(s); mtrand q(s); for (int i = 0; i < 3000000; i++) { uint32_t e = st(), a = q.next_int(); if (a != e) VEQ(a, e, "word " << i << " of seed " << s); } n_words += 3000000; }
// bounded draws reach the whole interval evenly, large bounds included
static void spread(V::Rng &g, uint64_t) { mtrand q(g.u32()); for (int t = 0; t < 6; t++) { uint32_t a = t == 0 ? 0xffffffffu : (uint32_t)(64 + g.below(0xffffff00u)) >> g.below(24), lo = 0; if (a < 64) a = 64; if (t & 1) lo = g.below(0xffffffffu - a + 1ull); V::cur("spread " + std::to_string(lo) + "+" + std::to_string(a)); long n = 6000, qd[4] = {}, odd = 0; for (long i = 0; i < n; i++) { uint32_t v = (lo ? q.next_int(lo, lo + a) : q(a)) - lo; VCHECK(v < a, "bounded draw " << v << " of bound " << a); qd[(uint64_t)v * 4 / a]++; odd += v & 1; } for (int i = 0; i < 4; i++) VCHECK(qd[i] > 1100 && qd[i] < 1900, "quarter " << i << " of the interval of " << a << " from " << lo << " gets " << qd[i] << " of 6000 draws"); VCHECK(odd > 2500 && odd < 3500, odd << " of 6000 draws below " << a << " are odd"); } V::count("spread checks"); }
static void bigsample(V::Rng &g, uint64_t) { mtrand q(g.u32()); int n = 20000 + g.below(180000), k = g.chance(1, 2) ? n : (int)g.below(n + 1); if (g.chance(1, 4)) { n = 2000000000; k = g.below(3000); } V::cur("big sample " + std::to_string(n) + " " + std::to_string(k)); std::vector<int> r(g.below(10), 7); VCHECK(sample_without_replacement(q, n, k, r), "big sample refused"); VEQ((int)r.size(), k, "big sample size"); std::set<int> u(r.begin(), r.end()); VEQ((int)u.size(), k, "distinct elements of a sample of " << k << " from " << n); VCHECK(u.empty() || (*u.begin() >= 0 && *u.rbegin() < n), "big sample out of range"); VCHECK(sample_with_replacement(q, n, k, r), "big sample refused"); VEQ((int)r.size(), k, "big sample size"); for (int v : r) VCHECK(v >= 0 && v < n, "big sample element " << v); n_samples++; }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("streams of random and special seeds compared word by word with an independent MT19937 and std::mt19937; bounded draws and samples from real and scripted extreme generators checked against their ranges; distinct = (seed, length)"); V::cases("long streams", 3, 9, longs); V::cases("mixed", 300, 9, mixed); V::cases("spread", 40, 9, spread); V::cases("big samples", 6, 9, bigsample); V::cases("streams", 4000, 0.5, stream); V::cases("draws", 4000, 0.6, draws); V::cases("samples", 20000, 0.8, samples); V::cases("distributions", 60, 1, dist); V::count("words", n_words); V::count("draws", n_draws); V::count("samples", n_samples); return V::finish(); }
