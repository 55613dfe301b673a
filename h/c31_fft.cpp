#include <math/fft.h>
#include "common.h"
#include <complex>
#include <deque>
using namespace pfi::math;
typedef long double L; typedef std::complex<L> CL;
static std::atomic<uint64_t> n_full, n_spot, n_rej, n_2d; static double worst;
template <class F> static std::vector<std::complex<F> > gen(V::Rng &g, size_t n) { std::vector<std::complex<F> > v(n); int k = g.below(7); F sc = k == 5 ? (F)1e20 : k == 6 ? (F)1e-20 : (F)1; size_t at = n ? g.below(n) : 0; size_t f = n ? g.below(n) : 0;
  for (size_t i = 0; i < n; i++) switch (k) { case 0: v[i] = i == at ? std::complex<F>(1, 2) : std::complex<F>(0, 0); break; case 1: { F t = (F)(2 * M_PI * (double)((f * i) % n) / n); v[i] = std::complex<F>(cos(t), sin(t)); break; } case 2: v[i] = std::complex<F>((F)g.range(-1000, 1000), 0); break; case 3: v[i] = std::complex<F>(0, (F)g.range(-9, 9)); break; default: v[i] = std::complex<F>((F)((g.unit() - .5)) * sc, (F)((g.unit() - .5)) * sc); } return v; }
static const L PI2 = 2 * acosl(-1.0L);
static std::vector<CL> roots(size_t n, int flip) { std::vector<CL> r(n); for (size_t i = 0; i < n; i++) { L t = PI2 * i / n * flip; r[i] = CL(cosl(t), sinl(t)); } return r; }
template <class F> struct Tol; template <> struct Tol<double> { static L t() { return 1e-12L; } }; template <> struct Tol<float> { static L t() { return 1e-5L; } };
template <class F> static L l1(const std::vector<std::complex<F> > &v) { L s = 0; for (auto &x : v) s += fabsl(x.real()) + fabsl(x.imag()); return s; }
template <class F> static void near(const std::complex<F> &got, const CL &want, L scale, const char *what, size_t n, size_t k) { L e = fabsl(got.real() - want.real()) + fabsl(got.imag() - want.imag()), lim = Tol<F>::t() * scale + 1e-30L; if (scale > 0) { double w = (double)(e / (Tol<F>::t() * scale)); if (w > worst) worst = w; } VCHECK(e <= lim, what << " length " << n << " element " << k << ": got " << got << " want " << (double)want.real() << "," << (double)want.imag() << " error " << (double)e << " limit " << (double)lim); }
// the transform with positive exponent, as the library's own reference vectors have it
template <class F> static CL dft(const std::vector<std::complex<F> > &v, size_t k, const std::vector<CL> &r) { CL s(0, 0); size_t n = v.size(); for (size_t j = 0; j < n; j++) s += CL(v[j].real(), v[j].imag()) * r[(j * k) & (n - 1)]; return s; }
template <class F> static void one1(V::Rng &g, uint64_t idx) {
  typedef std::complex<F> C; unsigned maxk = sizeof(F) == 8 ? (g.chance(1, 60) ? 16 : g.chance(1, 6) ? 11 : 7) : 8; size_t n = (size_t)1 << g.below(maxk + 1); std::vector<C> v = gen<F>(g, n), t; bool inv = g.chance(1, 2); size_t pre = g.below(3), post = g.below(3);
  V::cur(std::string(inv ? "ifft" : "fft") + " length " + std::to_string(n) + " pre " + std::to_string(pre)); C mark((F)12345.5, (F)-3); int how = g.below(3);
  if (how == 0) { t.assign(pre, mark); t.insert(t.end(), v.begin(), v.end()); t.insert(t.end(), post, mark); typename std::vector<C>::iterator b = t.begin() + pre; if (inv) ifft(b, b + n); else fft(b, b + n); }
  else if (how == 1) { std::unique_ptr<C[]> p(new C[n]); std::copy(v.begin(), v.end(), p.get()); if (inv) ifft(p.get(), p.get() + n); else fft(p.get(), p.get() + n); t.assign(pre, mark); t.insert(t.end(), p.get(), p.get() + n); t.insert(t.end(), post, mark); }
  else { std::deque<C> d(pre, mark); d.insert(d.end(), v.begin(), v.end()); d.insert(d.end(), post, mark); if (inv) ifft(d.begin() + pre, d.begin() + pre + n); else fft(d.begin() + pre, d.begin() + pre + n); t.assign(d.begin(), d.end()); }
  for (size_t i = 0; i < pre; i++) VCHECK(t[i] == mark, "element before the range changed"); for (size_t i = 0; i < post; i++) VCHECK(t[pre + n + i] == mark, "element after the range changed"); std::vector<C> o(t.begin() + pre, t.begin() + pre + n);
  std::vector<CL> r = roots(n, inv ? -1 : 1); L sc = l1(v); if (n <= 512) { for (size_t k = 0; k < n; k++) near<F>(o[k], dft<F>(v, k, r), sc, inv ? "ifft" : "fft", n, k); n_full++; } else { for (int q = 0; q < 24; q++) { size_t k = q < 3 ? (size_t)q : q < 6 ? n - q + 2 : g.below(n); near<F>(o[k], dft<F>(v, k, r), sc, inv ? "ifft" : "fft", n, k); } n_spot++; }
  if (inv) fft(o.begin(), o.end()); else ifft(o.begin(), o.end()); for (size_t k = 0; k < n; k++) near<F>(o[k] / (F)n, CL(v[k].real(), v[k].imag()), sc, "round trip", n, k);
  V::nontrivial(V::hash_bytes(&v[0], n * sizeof(C)) + inv); if (idx < 3) V::sample("length " + std::to_string(n) + (inv ? " inverse" : " forward")); }
static void reject(V::Rng &g, uint64_t) {
  typedef std::complex<double> C; int how = g.below(4); n_rej++; size_t n = g.chance(1, 8) ? 0 : 1 + g.below(300); 
  if (how == 0) { if (n && !(n & (n - 1))) n++; if (n && !(n & (n - 1))) n += 1; V::cur("length " + std::to_string(n)); std::vector<C> v = gen<double>(g, n), t = v; bool th = false; try { if (g.chance(1, 2)) fft(t.begin(), t.end()); else ifft(t.begin(), t.end()); } catch (const std::length_error &) { th = true; } VCHECK(th, "length " << n << " accepted"); VCHECK(t == v, "rejected length " << n << " changed the data"); return; }
  if (how == 1) { size_t h = g.below(10), w = g.below(10), extra = g.below(3); n = h * w + extra; size_t pitch = g.chance(1, 6) ? 0 : g.chance(1, 8) ? n + 1 + g.below(5) : w; V::cur("fft2d of " + std::to_string(n) + " pitch " + std::to_string(pitch)); bool ok = pitch && n % pitch == 0 && !(pitch & (pitch - 1)) && n / pitch && !((n / pitch) & (n / pitch - 1)); std::vector<C> v = gen<double>(g, n), t = v; bool th = false; try { if (g.chance(1, 2)) fft2d(t.begin(), t.end(), pitch); else ifft2d(t.begin(), t.end(), pitch); } catch (const std::length_error &) { th = true; } VEQ(th, !ok, "fft2d of " << n << " elements with pitch " << pitch); if (th) VCHECK(t == v, "rejected fft2d of " << n << " elements with pitch " << pitch << " changed the data"); return; }
  size_t h = g.below(10), w = g.below(10); std::vector<std::vector<C> > m(h); bool rect = true; for (auto &row : m) row = gen<double>(g, w); if (how == 3 && h > 1) { size_t y = g.below(h), nw = g.below(10); m[y] = gen<double>(g, nw); rect = nw == w; } V::cur("fft2d matrix " + std::to_string(h) + "x" + std::to_string(w)); bool ok = rect && h && w && !(h & (h - 1)) && !(w & (w - 1)); std::vector<std::vector<C> > t = m; bool th = false; try { if (g.chance(1, 2)) fft2d(t); else ifft2d(t); } catch (const std::length_error &) { th = true; } VEQ(th, !ok, "fft2d matrix " << h << "x" << w << (rect ? "" : " ragged")); if (th) VCHECK(t == m, "rejected fft2d matrix " << h << "x" << w << " changed the data"); }
static void twod(V::Rng &g, uint64_t idx) {
  typedef std::complex<double> C; size_t h = (size_t)1 << g.below(6), w = (size_t)1 << g.below(6); bool inv = g.chance(1, 2), mat = g.chance(1, 2); int flip = inv ? -1 : 1; std::vector<C> v = gen<double>(g, h * w), o; V::cur("2d " + std::to_string(h) + "x" + std::to_string(w) + (mat ? " matrix" : " pitch") + (inv ? " inverse" : ""));
  if (mat) { if (g.chance(1, 2)) { std::vector<std::vector<C> > m(h); for (size_t y = 0; y < h; y++) m[y].assign(v.begin() + y * w, v.begin() + (y + 1) * w); if (inv) ifft2d(m); else fft2d(m); for (auto &row : m) o.insert(o.end(), row.begin(), row.end()); } else { std::deque<std::deque<C> > m(h); for (size_t y = 0; y < h; y++) m[y].assign(v.begin() + y * w, v.begin() + (y + 1) * w); if (inv) ifft2d(m); else fft2d(m); for (auto &row : m) o.insert(o.end(), row.begin(), row.end()); } VEQ(o.size(), h * w, "shape changed"); }
  else { o = v; if (g.chance(1, 2)) { if (inv) ifft2d(o.begin(), o.end(), w); else fft2d(o.begin(), o.end(), w); } else { if (inv) ifft2d(&o[0], &o[0] + o.size(), w); else fft2d(&o[0], &o[0] + o.size(), w); } }
  std::vector<CL> rw = roots(w, flip), rh = roots(h, flip); L sc = l1(v); std::vector<CL> a(h * w); for (size_t y = 0; y < h; y++) for (size_t k = 0; k < w; k++) { CL s(0, 0); for (size_t x = 0; x < w; x++) s += CL(v[y * w + x].real(), v[y * w + x].imag()) * rw[(x * k) & (w - 1)]; a[y * w + k] = s; }
  for (size_t l = 0; l < h; l++) for (size_t k = 0; k < w; k++) { CL s(0, 0); for (size_t y = 0; y < h; y++) s += a[y * w + k] * rh[(y * l) & (h - 1)]; near<double>(o[l * w + k], s, sc, "2d", h * w, l * w + k); } n_2d++; V::nontrivial(V::hash_bytes(&v[0], v.size() * sizeof(C)) + mat * 2 + inv); if (idx == 0) V::sample("2d " + std::to_string(h) + "x" + std::to_string(w)); }
template <class F> static void large(V::Rng &g, uint64_t i) { typedef std::complex<F> C; size_t n = (size_t)1 << (i < 2 ? 18 + i : 12 + g.below(6)); bool inv = g.chance(1, 2); std::vector<C> v = gen<F>(g, n), o = v; V::cur("large length " + std::to_string(n)); if (inv) ifft(o.begin(), o.end()); else fft(o.begin(), o.end()); std::vector<CL> r = roots(n, inv ? -1 : 1); L sc = l1(v); for (int q = 0; q < 12; q++) { size_t k = q < 2 ? (size_t)q : q < 4 ? n - q + 1 : q < 6 ? n / 2 + q - 4 : g.below(n); near<F>(o[k], dft<F>(v, k, r), sc, "large", n, k); } if (inv) fft(o.begin(), o.end()); else ifft(o.begin(), o.end()); for (size_t k = 0; k < n; k++) near<F>(o[k] / (F)n, CL(v[k].real(), v[k].imag()), sc, "large round trip", n, k); n_spot++; }
static void large2d(V::Rng &g, uint64_t i) { typedef std::complex<double> C; size_t h = (size_t)1 << (i & 1 ? 9 : 4 + g.below(4)), w = (size_t)1 << (i & 1 ? 4 + g.below(4) : 9); bool inv = g.chance(1, 2), mat = g.chance(1, 2); int flip = inv ? -1 : 1; std::vector<C> v = gen<double>(g, h * w), o; V::cur("large 2d " + std::to_string(h) + "x" + std::to_string(w)); std::vector<std::vector<C> > m(h); if (mat) { for (size_t y = 0; y < h; y++) m[y].assign(v.begin() + y * w, v.begin() + (y + 1) * w); if (inv) ifft2d(m); else fft2d(m); for (auto &row : m) o.insert(o.end(), row.begin(), row.end()); } else { o = v; if (inv) ifft2d(o.begin(), o.end(), w); else fft2d(o.begin(), o.end(), w); } std::vector<CL> rh = roots(h, flip), rw = roots(w, flip); L sc = l1(v); for (int q = 0; q < 10; q++) { size_t ky = q < 2 ? (q ? h - 1 : 0) : g.below(h), kx = q < 2 ? (q ? w - 1 : 0) : g.below(w); CL s(0, 0); for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) s += CL(v[y * w + x].real(), v[y * w + x].imag()) * rh[(y * ky) & (h - 1)] * rw[(x * kx) & (w - 1)]; near<double>(o[ky * w + kx], s, sc, "large 2d", h * w, ky * w + kx); } n_2d++; }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("impulses, pure tones, integer and random data of every power-of-two length up to 524288 and shape up to 32x32 and 512x128 against the Fourier sum in extended precision (all coefficients up to 512, 24 beyond), the inverse, guard elements round the range, and rejected lengths and shapes compared bit for bit with their input; distinct = distinct data"); V::cases("large double", 6, 9, large<double>); V::cases("large float", 5, 9, large<float>); V::cases("large 2d", 6, 9, large2d); V::cases("rejected shapes", 6000, 9, reject); V::cases("double", 20000, .6, one1<double>); V::cases("float", 5000, .75, one1<float>); V::cases("2d", 6000, 1, twod); V::count("full transforms", n_full); V::count("spot-checked transforms", n_spot); V::count("rejections", n_rej); V::count("2d transforms", n_2d); V::count("worst error, millionths of the limit", (uint64_t)(worst * 1e6)); return V::finish(); }
