#include "common.h"
#include <deque>
#include <list>
#include <data/string/utility.h>
#include <data/string/ustring.h>
using namespace pfi::data::string;
namespace S = pfi::data::string;
static std::atomic<uint64_t> n_split, n_strip, n_rep, n_aff, n_join;
template <class Str> static std::string show(const Str &s) { std::ostringstream o; o << "<"; for (size_t i = 0; i < s.size() && i < 80; i++) { unsigned long c = (unsigned long)(typename std::conditional<sizeof(s[0]) == 1, unsigned char, uint32_t>::type)s[i]; if (c > 32 && c < 127) o << (char)c; else o << "\\" << std::hex << c << ";"; } o << ">"; return o.str(); }
template <class Str> static Str rnd(V::Rng &g, const std::vector<typename Str::value_type> &ab, size_t n) { Str s; for (size_t i = 0; i < n; i++) s.push_back(ab[g.below(ab.size())]); return s; }
// first occurrence at or after p, naive
template <class Str> static size_t at(const Str &s, const Str &q, size_t p) { for (size_t i = p; i + q.size() <= s.size(); i++) { size_t j = 0; while (j < q.size() && s[i + j] == q[j]) j++; if (j == q.size()) return i; } return (size_t)-1; }
template <class Str> static std::vector<Str> ref_split(const Str &s, const Str &sep) { std::vector<Str> r; if (sep.size() == 0) return r; size_t p = 0; for (;;) { size_t q = at(s, sep, p); if (q == (size_t)-1) { r.push_back(Str(s.begin() + p, s.end())); return r; } r.push_back(Str(s.begin() + p, s.begin() + q)); p = q + sep.size(); } }
template <class Str> static Str ref_join(const std::vector<Str> &v, const Str &sep) { Str r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r; }
static bool sp(unsigned long c) { return c == ' ' || (c >= 9 && c <= 13); }
template <class C> static unsigned long code(C c) { return (unsigned long)(typename std::conditional<sizeof(C) == 1, unsigned char, uint32_t>::type)c; }
template <class Str> static void one(V::Rng &g, const std::vector<typename Str::value_type> &ab, uint64_t idx) {
  typedef typename Str::value_type C; Str s = rnd<Str>(g, ab, V::rand_len(g, 60)), sep = rnd<Str>(g, ab, g.chance(1, 10) ? 0 : 1 + g.below(3)), to = rnd<Str>(g, ab, g.below(5)); if (g.chance(1, 3) && s.size()) { size_t p = g.below(s.size()); sep = Str(s.begin() + p, s.begin() + p + std::min<size_t>(s.size() - p, 1 + g.below(4))); } if (g.chance(1, 6)) { s = sep + s + sep; }
  std::string d = show(s) + " sep/from " + show(sep) + " to " + show(to); V::cur(d);
  // split by string and by character, join
  std::vector<Str> w = ref_split(s, sep), r = split(s, sep); VCHECK(r == w, "split gives " << r.size() << " pieces, expected " << w.size() << ": " << d);
  std::list<Str> l = split<std::list<Str> >(s, sep); VCHECK(std::vector<Str>(l.begin(), l.end()) == w, "split<list>: " << d); std::deque<Str> dq; split(s, sep, std::back_inserter(dq)); VCHECK(std::vector<Str>(dq.begin(), dq.end()) == w, "split to iterator: " << d); n_split += 3;
  C ch = ab[g.below(ab.size())]; Str one1(1, ch); std::vector<Str> w1 = ref_split(s, one1), r1 = split(s, ch); VCHECK(r1 == w1, "split by character: " << d); n_split++;
  if (sep.size()) { VCHECK(join(r, sep) == s, "join(split) " << d); Str o; join(r, sep, o); VCHECK(o == s, "join into " << d); } VCHECK(join(r1, one1) == s, "join(split char) " << d);
  std::vector<Str> parts; int np = g.below(5); for (int i = 0; i < np; i++) parts.push_back(rnd<Str>(g, ab, g.below(4))); Str jw = ref_join(parts, to); VCHECK(join(parts, to) == jw, "join " << d); VCHECK(join(parts.begin(), parts.end(), to) == jw, "join range " << d); Str jo = s; join(parts.begin(), parts.end(), to, jo); VCHECK(jo == jw, "join range into " << d); n_join += 5;
  // strip
  size_t b = 0, e = s.size(); while (b < e && sp(code(s[b]))) b++; size_t e0 = e; while (e > b && sp(code(s[e - 1]))) e--; Str wl(s.begin() + b, s.begin() + e0), ws(s.begin() + b, s.begin() + e); size_t er = s.size(); while (er > 0 && sp(code(s[er - 1]))) er--; Str wr(s.begin(), s.begin() + er);
  VCHECK(strip(s) == ws, "strip gives " << show(strip(s)) << ": " << d); VCHECK(lstrip(s) == wl, "lstrip gives " << show(lstrip(s)) << ": " << d); VCHECK(rstrip(s) == wr, "rstrip gives " << show(rstrip(s)) << ": " << d); Str x = s; strip(x, x); VCHECK(x == ws, "strip in place " << d); x = s; lstrip(x, x); VCHECK(x == wl, "lstrip in place"); x = s; rstrip(x, x); VCHECK(x == wr, "rstrip in place"); n_strip += 6;
  // affixes
  bool pre = s.size() >= sep.size() && Str(s.begin(), s.begin() + sep.size()) == sep, suf = s.size() >= sep.size() && Str(s.end() - sep.size(), s.end()) == sep; VCHECK(starts_with(s, sep) == pre, "starts_with: " << d); VCHECK(ends_with(s, sep) == suf, "ends_with: " << d); Str tail = s.size() ? Str(s.begin() + g.below(s.size()), s.end()) : s; VCHECK(ends_with(s, tail) && starts_with(s, Str(s.begin(), s.end() - tail.size())), "affix of itself " << d); VCHECK(!starts_with(s, Str(s + one1)) && !ends_with(s, Str(one1 + s)), "longer affix " << d); n_aff += 6;
  // replace: leftmost, non-overlapping
  Str rw = sep.size() ? ref_join(w, to) : s; VCHECK(S::replace(s, sep, to) == rw, "replace gives " << show(S::replace(s, sep, to)) << " expected " << show(rw) << ": " << d); x = s; S::replace(x, sep, to, x); VCHECK(x == rw, "replace in place " << d); VCHECK(S::replace(s, sep, sep) == s, "replace by itself " << d); n_rep += 3;
  V::nontrivial(V::hash_str(d)); if (idx < 4) V::sample(d);
}
static void large(V::Rng &g, uint64_t i) { static const size_t K[] = {300, 1025, 5000, 70000, 140000}; size_t n = K[i % 5]; V::cur("strings of " + std::to_string(n)); V::count("large strings"); std::string s = V::rand_text(g, n, i % 2 ? "ab," : "abcdefgh,"), sep = i % 3 == 0 ? "," : i % 3 == 1 ? "a," : V::rand_text(g, 300, "ab"); if (i % 3 == 2) { std::string t; for (int k = 0; k < 20; k++) t += sep + s.substr(0, n / 20); s = t; }
  std::vector<std::string> w = ref_split(s, sep), r = split(s, sep); VCHECK(r == w, "split of " << s.size() << " bytes gives " << r.size() << " pieces instead of " << w.size()); VCHECK(join(r, sep) == s, "join of " << r.size() << " pieces"); VCHECK(S::replace(s, sep, std::string("<>")) == ref_join(w, std::string("<>")), "replace in " << s.size() << " bytes"); std::vector<std::string> w1 = ref_split(s, std::string(",")), r1 = split(s, ','); VCHECK(r1 == w1, "split by character of " << s.size() << " bytes"); std::string sp(n, ' '); VCHECK(strip(sp + s + sp) == s && lstrip(sp + s + sp) == s + sp && rstrip(sp + s + sp) == sp + s && strip(sp) == "", "strip of " << n << " blanks"); VCHECK(starts_with(s + sep, s) && ends_with(sep + s, s) && !ends_with(s, s + "x"), "affixes of " << n); std::string s2 = s; s2[s.size() - 1] ^= 1; VCHECK(!starts_with(s + "x", s2), "starts_with ignores the last character of " << s.size()); s2 = s; s2[0] ^= 1; VCHECK(!ends_with("x" + s, s2), "ends_with ignores the first character of " << s.size()); V::nontrivial(V::hash_str(s)); }
static void huge(V::Rng &g, uint64_t i) { size_t n = (size_t)(i % 2 ? 17 : 2) << 20; V::cur("strings of " + std::to_string(n)); std::string s = V::rand_bytes(g, n); for (size_t k = 0; k < n; k += 1 + k % 70001) s[k] = ','; for (int k = 0; k < 30; k++) s.replace(g.below(n - 9), 5, "ab,ab");
  std::vector<std::string> w; { size_t p = 0, q; while ((q = s.find(',', p)) != std::string::npos) { w.push_back(s.substr(p, q - p)); p = q + 1; } w.push_back(s.substr(p)); }
  VCHECK(split(s, ',') == w && split(s, std::string(",")) == w, "split of " << n << " bytes"); VCHECK(join(w, std::string(",")) == s, "join to " << n << " bytes"); std::string r = ref_join(w, std::string("<comma>")), x = S::replace(s, std::string(","), std::string("<comma>")); VCHECK(x == r, "replace in " << n << " bytes gives " << x.size() << " bytes, expected " << r.size()); VCHECK(S::replace(s, std::string("\x01"), std::string()).size() == n - std::count(s.begin(), s.end(), '\x01'), "removal in " << n << " bytes"); V::nontrivial(n); V::cmax("longest string", n); }
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("random strings, separators and replacements (byte and Unicode strings, biased to separators at the ends, overlaps, white space) against naive definitions; distinct = distinct inputs");
  // every byte / many code points as the stripped character
  for (unsigned c = 0; c < 0x11000; c++) { ustring u; u.push_back(c); u.push_back('x'); u.push_back(c); if (c % 4096 == 0) V::cur("code point " + std::to_string(c)); bool want = sp(c); VCHECK((strip(u).size() == 1) == want && (strip(u).size() == 3) != want, "strip of code point " << c); VEQ(lstrip(u).size(), (size_t)(want ? 2 : 3), c); VEQ(rstrip(u).size(), (size_t)(want ? 2 : 3), c); if (c < 256) { std::string s(3, (char)c); s[1] = 'x'; VEQ(strip(s).size(), (size_t)(want ? 1 : 3), "byte " << c); } V::eval(); }
  V::cases("large", 15, 9, large); V::cases("huge", 2, 9, huge); V::cases("strings", 60000, 1, [](V::Rng &g, uint64_t i) { switch (i % 5) { case 0: one<std::string>(g, {'a', 'b'}, i); break; case 1: one<std::string>(g, {'a', ' ', '\t', '\n', '\r', '\v', '\f', '\0', '\x85', '\xa0'}, i); break; case 2: { std::vector<char> ab; for (int k = 0; k < 256; k++) ab.push_back((char)k); one<std::string>(g, ab, i); break; } case 3: one<ustring>(g, {'a', ' ', 0x3042, 0x3000, 0x415c, 0x1f600, '\n'}, i); break; default: one<std::string>(g, {'a', ',', ' '}, i); } });
  V::count("splits", n_split); V::count("joins", n_join); V::count("strips", n_strip); V::count("replacements", n_rep); V::count("affix tests", n_aff);
  return V::finish();
}
