#include "common.h"
#include <unordered_map>
#include <data/string/aho_corasick.h>
#include <data/string/kmp.h>
using namespace pfi::data::string;
typedef std::vector<std::pair<int, int> > Hits;
static std::atomic<uint64_t> n_hits, n_nested, n_texts, n_kmp, n_kmp_hit;
// strings whose borders nest deeply: Fibonacci and Thue-Morse words, powers with a defect
static std::string nested(V::Rng &g, const std::string &ab, size_t mx) { char x = ab[g.below(ab.size())], y = ab[g.below(ab.size())]; std::string s(1, x); switch (g.below(3)) { case 0: { std::string t(1, y); while (s.size() < mx) { std::string u = s + t; t = s; s = u; } break; } case 1: while (s.size() < mx) { std::string u = s; for (auto &c : u) c = c == x ? y : x; s += u; } break; default: { std::string L = "abcdefg"; size_t lv = 0; while (s.size() < mx) { std::string u = s; s += L[lv++ % 7]; s += u; } size_t k = g.below(s.size()); s = s.substr(0, k + 1) + V::rand_text(g, 1 + g.below(2), "abc") + s; } } return s.substr(0, mx); }
static std::string word(V::Rng &g, const std::string &ab, size_t mx) {
  if (g.chance(1, 6)) return nested(g, ab, mx);
  if (g.chance(1, 4)) { std::string u = V::rand_text(g, 1 + g.below(3), ab), s; while (s.size() < mx) s += u; return s.substr(0, 1 + g.below(mx)); }
  return V::rand_text(g, 1 + g.below(mx), ab);
}
static std::string alphabet(V::Rng &g) { switch (g.below(7)) { case 5: return std::string("a\0", 2); case 6: { std::string s; for (int i = 0; i < 256; i++) s += (char)i; return s; } case 0: return "a"; case 1: return "ab"; case 2: return "abc"; case 3: return std::string("\x01\x7f\x80\xfe\xff", 5); default: { std::string s; for (int i = 1; i < 256; i++) s += (char)i; return s; } } }
static void aho(V::Rng &g, uint64_t idx) {
  std::string ab = alphabet(g); size_t mx = 1 + g.below(g.chance(1, 4) ? 30 : 6), nw = g.chance(1, 20) ? g.below(2) : 1 + g.below(g.chance(1, 10) ? 200 : 12);
  std::set<std::string> ws; for (size_t i = 0; i < nw; i++) { std::string w = word(g, ab, mx); ws.insert(w); if (g.chance(1, 2) && w.size() > 1) { ws.insert(w.substr(g.below(w.size() - 1) + 1)); ws.insert(w.substr(0, 1 + g.below(w.size() - 1))); } }
  std::vector<std::string> words(ws.begin(), ws.end()); g.shuffle(words); std::string desc = "words:"; for (size_t i = 0; i < words.size() && i < 40; i++) desc += " " + V::quote(words[i], 40); V::cur(desc);
  aho_corasick ac(words); aho_corasick copy(ac);
  for (int t = 0; t < 4; t++) {
    std::string text; size_t tl = V::rand_len(g, 200); while (text.size() < tl) if (words.size() && g.chance(2, 3)) { std::string w = g.pick(words); text += g.chance(1, 3) ? w.substr(0, g.below(w.size() + 1)) : w; } else text += g.chance(1, 12) ? std::string(1, (char)g.below(256)) : V::rand_text(g, 1 + g.below(4), ab);
    V::cur(desc + " text: " + V::quote(text));
    Hits want, got; for (size_t w = 0; w < words.size(); w++) for (size_t p = text.find(words[w]); p != std::string::npos; p = text.find(words[w], p + 1)) want.push_back(std::make_pair((int)w, (int)(p + words[w].size())));
    (t & 1 ? copy : ac).search(text, got); for (size_t i = 1; i < got.size(); i++) VCHECK(got[i - 1].second <= got[i].second, "reports are not in order of their end position: " << desc << " text " << V::quote(text));
    for (size_t i = 1; i < got.size(); i++) if (got[i].second == got[i - 1].second) n_nested++;
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    if (want != got) { std::ostringstream o; o << "reported"; for (auto &h : got) o << " (" << h.first << "," << h.second << ")"; o << " but a naive scan finds"; for (auto &h : want) o << " (" << h.first << "," << h.second << ")"; VFAIL(o.str() << " " << desc << " text " << V::quote(text)); }
    // results are appended to what the caller already has
    Hits keep(1, std::make_pair(-7, -7)); ac.search(text, keep); VCHECK(keep.size() == want.size() + 1 && keep[0].first == -7, "search does not append to the caller's vector");
    n_hits += want.size(); n_texts++;
  }
  V::nontrivial(V::hash_str(desc)); if (idx < 3) V::sample(desc);
}
template <class T> static size_t naive(const T &text, const T &q, size_t off) { for (size_t i = off; i + q.size() <= text.size(); i++) if (std::equal(q.begin(), q.end(), text.begin() + i)) return i; return std::string::npos; }
template <class T> static void kmp_one(V::Rng &g, const T &q, const T &text, const std::string &d) {
  kmp<T> k(q); for (size_t off = 0; off <= text.size() + 1; off += 1 + (text.size() > 40 ? g.below(9) : 0)) { size_t w = naive(text, q, off), r = off == 0 && g.chance(1, 2) ? k.find(text) : k.find(text, off); n_kmp++; if (w != std::string::npos) n_kmp_hit++; VCHECK(r == w, "kmp find from " << off << " gives " << (long)r << " instead of " << (long)w << ": " << d); }
}
static void kmpc(V::Rng &g, uint64_t idx) {
  std::string ab = alphabet(g); if (g.chance(1, 6)) ab += '\0'; std::string q = g.chance(1, 12) ? "" : word(g, ab, 1 + g.below(g.chance(1, 3) ? 60 : 12)), text; size_t tl = V::rand_len(g, g.chance(1, 4) ? 400 : 120); if (g.chance(1, 5)) { text = nested(g, ab, 40 + g.below(200)); q = text.substr(g.chance(1, 2) ? 0 : g.below(10), g.below(60)); if (g.chance(1, 2)) { text = q; for (int k = 0; k < 6; k++) text += q.substr(0, g.below(q.size() + 1)) + (g.chance(1, 2) ? q : V::rand_text(g, 1, "abc")); } if (q.size() && g.chance(1, 2)) q[q.size() - 1] = ab[g.below(ab.size())]; } while (text.size() < tl) text += g.chance(1, 2) ? q.substr(0, g.below(q.size() + 1)) + V::rand_text(g, g.chance(1, 2), ab) : word(g, ab, 5);
  std::string d = "query " + V::quote(q) + " text " + V::quote(text); V::cur(d); kmp_one(g, q, text, d); if (idx % 3 == 0) kmp_one(g, std::vector<int>(q.begin(), q.end()), std::vector<int>(text.begin(), text.end()), d + " (vector)");
  V::nontrivial(V::hash_str(d)); if (idx < 3) V::sample(d);
}
// thousands of words and long texts: the trie spans many pages
static void large(V::Rng &g, uint64_t idx) {
  std::string ab = idx % 3 == 0 ? "ab" : alphabet(g); size_t nw = 500 + g.below(3000); std::set<std::string> ws; for (size_t i = 0; i < nw; i++) ws.insert(word(g, ab, 1 + g.below(g.chance(1, 20) ? 300 : 12))); std::vector<std::string> words(ws.begin(), ws.end()); g.shuffle(words); V::cur("large dictionary of " + std::to_string(words.size())); aho_corasick ac(words); V::tick();
  std::string text; while (text.size() < 5000) { std::string w = g.pick(words); text += g.chance(1, 3) ? w.substr(0, g.below(w.size() + 1)) : w; if (g.chance(1, 4)) text += V::rand_text(g, 1 + g.below(3), ab); }
  std::unordered_map<std::string, int> id; std::set<size_t> lens; for (size_t i = 0; i < words.size(); i++) { id[words[i]] = i; lens.insert(words[i].size()); } Hits want, got; for (size_t p = 0; p < text.size(); p++) for (size_t L : lens) if (p + L <= text.size()) { auto f = id.find(text.substr(p, L)); if (f != id.end()) want.push_back(std::make_pair(f->second, (int)(p + L))); }
  V::tick(); ac.search(text, got); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); VCHECK(want == got, "dictionary of " << words.size() << " words, text of " << text.size() << ": " << got.size() << " reports, a naive scan finds " << want.size()); n_hits += want.size(); n_texts++; V::cmax("largest dictionary", words.size()); V::nontrivial(V::hash_str(text));
}
// all small cases
static void exhaustive(char A, char B) {
  std::vector<std::string> all; for (int l = 1; l <= 3; l++) for (int m = 0; m < 1 << l; m++) { std::string s; for (int i = 0; i < l; i++) s += m >> i & 1 ? B : A; all.push_back(s); }
  std::string text = "aaababbabbbaababaaabbbb"; for (auto &c : text) c = c == 'a' ? A : B;
  for (int m = 1; m < 1 << 14; m += V::S().thorough ? 1 : A ? 3 : 7) { std::vector<std::string> w; for (int i = 0; i < 14; i++) if (m >> i & 1) w.push_back(all[i]); if ((m & 1023) == 0 || m < 3) V::cur("exhaustive " + std::to_string(m)); aho_corasick ac(w); Hits got, want; ac.search(text, got); for (size_t k = 0; k < w.size(); k++) for (size_t p = text.find(w[k]); p != std::string::npos; p = text.find(w[k], p + 1)) want.push_back(std::make_pair((int)k, (int)(p + w[k].size()))); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); VCHECK(got == want, "dictionary #" << m << " of the words of length 1..3 over two letters (" << (int)A << ", " << (int)B << ")"); n_hits += want.size(); V::eval(); }
  V::count("exhaustive small dictionaries", (1 << 14) / (V::S().thorough ? 1 : 3));
}
// every query over two letters up to length 14, in every text made of one of its prefixes and itself
static void exhaustive_kmp() {
  uint64_t n = 0; for (int l = 1; l <= (V::S().thorough ? 16 : 14); l++) for (int m = 0; m < 1 << l; m++) { std::string q; for (int i = 0; i < l; i++) q += m >> i & 1 ? 'b' : 'a'; if (!(m & 255)) V::cur("kmp query " + q); kmp<std::string> k(q); for (int p = 0; p <= l; p++) { std::string t = q.substr(0, p) + q; size_t w = t.find(q), r = k.find(t); n++; VCHECK(r == w, "kmp finds " << q << " in " << t << " at " << (long)r << " instead of " << w); size_t w2 = t.find(q, w + 1), r2 = k.find(t, w + 1); VCHECK(r2 == w2, "kmp finds " << q << " in " << t << " from " << w + 1 << " at " << (long)r2 << " instead of " << (long)w2); } }
  V::count("exhaustive kmp searches", 2 * n); V::eval(n);
}
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("random dictionaries with nested/overlapping/periodic words and texts built from them, compared with a naive scan; all subsets of the words of length <= 3 over two letters; distinct = distinct dictionaries and queries");
  exhaustive('a', 'b'); exhaustive('\0', '\xff'); exhaustive_kmp(); V::cases("large dictionaries", 12, 0.45, large); V::cases("aho-corasick", 20000, 0.75, aho); V::cases("kmp", 60000, 1, kmpc);
  V::count("occurrences reported", n_hits); V::count("several words ending at one position", n_nested); V::count("texts searched", n_texts); V::count("kmp searches", n_kmp); V::count("kmp searches with a match", n_kmp_hit);
  return V::finish();
}
