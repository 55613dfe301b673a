#include "common.h"
#include <data/fenwick_tree.h>
#include <data/config_file.h>
#include <lang/exception.h>
using namespace pfi::data;
static std::atomic<uint64_t> n_q, n_u, n_cfg, n_key, n_rej;
template <class T> static void fen(V::Rng &g, uint64_t idx) {
  int n = 1 + (g.chance(1, 3) ? g.below(5) : g.below(g.chance(1, 4) ? 600 : 70)), ops = 1 + g.below(120); fenwick_tree<T> f(n); std::vector<T> a(n); std::ostringstream log; log << "n=" << n << " ";
  for (int i = 0; i < ops; i++) {
    if (g.chance(1, 2)) { int k = g.below(n); T d = (T)g.range(-1000, 1000); log << "+" << k << ":" << d << " "; f.increase(k, d); a[k] += d; n_u++; }
    else { int x = g.range(-1, n - 1); if (g.chance(1, 2)) { T s = 0; for (int j = 0; j <= x; j++) s += a[j]; VCHECK(f.query(x) == s, "prefix sum up to " << x << " is " << f.query(x) << " instead of " << s << " after " << log.str()); } else { int y = g.range(x, n - 1); if (x < 0) x = 0; if (y < x - 1) y = x - 1; T s = 0; for (int j = x; j <= y; j++) s += a[j]; VCHECK(f.query(x, y) == s, "range sum " << x << ".." << y << " after " << log.str()); } n_q++; }
    if (i % 32 == 0) V::cur(log.str());
  }
  T s = 0; for (int i = 0; i < n; i++) { s += a[i]; VCHECK(f.query(i) == s, "prefix " << i << " after " << log.str()); VCHECK(f.query(i, i) == a[i], "element " << i << " after " << log.str()); n_q += 2; }
  V::nontrivial(V::hash_str(log.str())); if (idx < 2) V::sample(log.str());
}
template <class T> static void bigfen(V::Rng &g, uint64_t idx) { static const int K[] = {1000, 4096, 32768, 65535, 65536, 65537, 131071, 200003}; int n = K[idx % 8]; V::cur("fenwick tree of " + std::to_string(n)); fenwick_tree<T> f(n); std::vector<T> a(n); int ops = 3000 + g.below(3000); for (int i = 0; i < ops; i++) { int k = g.chance(1, 4) ? n - 1 - (int)g.below(3) : g.chance(1, 4) ? (1 << g.below(18)) % n : g.below(n); T d = (T)g.range(-100000, 100000); f.increase(k, d); a[k] += d; n_u++; }
  T s = 0; for (int i = 0; i < n; i++) { s += a[i]; T q = f.query(i); VCHECK(q == s, "prefix " << i << " of " << n << " is " << q << " instead of " << s); n_q++; if (i % 997 == 0) { int x = g.below(i + 1); T w = 0; for (int j = x; j <= i; j++) w += a[j]; VCHECK(f.query(x, i) == w, "range " << x << ".." << i << " of " << n); V::tick(); } } V::cmax("largest tree", n); V::nontrivial(n * 7 + sizeof(T)); }
static const char *const WS[] = {"", " ", "\t", "  ", " \t ", "\r"};
static std::string ws(V::Rng &g, int lim = 6) { return g.chance(1, 2) ? "" : WS[g.below(lim)]; }
static std::string trimmed(V::Rng &g, const std::string &ab, size_t mx) { std::string s = V::rand_text(g, g.below(mx), ab); size_t b = s.find_first_not_of(" \t\r\v\f"), e = s.find_last_not_of(" \t\r\v\f"); return b == std::string::npos ? "" : s.substr(b, e - b + 1); }
typedef std::map<std::string, std::map<std::string, std::string> > Cfg;
static void compare(config_file &c, const Cfg &w, const std::string &text) {
  const config_file &cc = c; size_t n = 0; for (config_file::const_iterator p = cc.begin(); p != cc.end(); ++p, ++n) { auto q = w.find(p->first); VCHECK(q != w.end(), "section " << V::quote(p->first) << " is not in the file: " << V::quote(text, 2000)); std::map<std::string, std::string> got(p->second.begin(), p->second.end()); VCHECK(got == q->second, "section " << V::quote(p->first) << " differs for file " << V::quote(text, 2000)); }
  VEQ(n, w.size(), "number of sections for file " << V::quote(text, 2000));
  for (auto &s : w) { VCHECK(cc.find(s.first) != cc.end(), "section not found"); for (auto &k : s.second) { VCHECK(cc[s.first][k.first] == k.second, "[" << s.first << "] " << k.first << " = " << V::quote(cc[s.first][k.first]) << " expected " << V::quote(k.second) << " file " << V::quote(text, 2000)); VCHECK(cc[s.first].find(k.first) != cc[s.first].end() && cc[s.first].find(k.first)->second == k.second, "find"); VCHECK(c[s.first][k.first] == k.second, "non-const lookup"); n_key++; } VCHECK(cc[s.first]["no such key"] == "" && cc[s.first].find("no such key") == cc[s.first].end(), "absent key"); }
  VCHECK(cc.find("no such section") == cc.end() && cc["no such section"]["x"] == "" && cc.find("no such section") == cc.end(), "absent section");
}
static void cfg(V::Rng &g, uint64_t idx) {
  static const std::string AB = "abcXYZ012 .-_/\\\"';[]\xe3\x81\x82\xff\t"; Cfg w; std::string text, cur; int lines = g.below(25); const char *nl = g.chance(1, 4) ? "\r\n" : "\n"; int bad = g.chance(1, 5) ? g.below(lines + 1) : -1; bool broken = false; int bad_line = 0;
  std::vector<std::string> secs, keys; for (int i = 0; i < 4; i++) { std::string s = V::rand_text(g, g.below(8), AB); s.erase(std::remove(s.begin(), s.end(), ']'), s.end()); secs.push_back(s); }
  for (int i = 0; i < 6; i++) { std::string k = trimmed(g, AB, 8); k.erase(std::remove(k.begin(), k.end(), '='), k.end()); while (k.size() && (k[0] == '[' || k[0] == ';' || k[0] == ' ' || k[0] == '\t')) k.erase(0, 1); keys.push_back(k); }
  for (int i = 0; i < lines; i++) {
    std::string l; int x = g.below(10);
    if (i == bad && !broken) { broken = true; bad_line = i + 1; switch (g.below(6)) { case 0: l = ws(g, 5) + "key without a value"; break; case 3: l = "[a]b]"; break; case 4: l = "[sec] ;x"; break; case 5: l = "[s]]" + ws(g); break; case 1: l = "[open"; break; default: l = "[sec] trailing"; } }
    else if (x == 0) l = ws(g); else if (x == 1) l = ws(g, 5) + ";" + V::rand_text(g, g.below(12), AB + "="); else if (x < 4) { std::string s = g.pick(secs); l = ws(g, 5) + "[" + s + "]" + ws(g); if (!broken) { cur = s; w[cur]; } }
    else { std::string k = g.pick(keys), v = trimmed(g, AB + "==", 14), raw = v; bool q = g.chance(1, 3); if (q) { raw = "\"" + V::rand_text(g, g.below(8), AB + "=") + "\""; v = raw.substr(1, raw.size() - 2); } else if (v.size() >= 2 && v[0] == '"' && v[v.size() - 1] == '"') v = v.substr(1, v.size() - 2); l = ws(g, 5) + k + ws(g, 5) + "=" + ws(g, 5) + raw + ws(g); if (!broken) w[cur][k] = v; }
    text += l; if (i + 1 < lines || g.chance(1, 2)) text += nl;
  }
  V::cur(text); bool thrown = false; std::string fn = std::string(getenv("VH_SCRATCH") ? getenv("VH_SCRATCH") : ".") + "/c.ini"; bool file = g.chance(1, 4);
  try { if (file) { std::ofstream o(fn.c_str(), std::ios::binary); o << text; o.close(); config_file c(fn); if (!broken) compare(c, w, text); } else { std::istringstream is(text); config_file c(is); if (!broken) compare(c, w, text); } } catch (const pfi::lang::parse_error &e) { thrown = true; (void)bad_line; }
  VCHECK(thrown == broken, (broken ? "malformed file accepted: " : "well-formed file rejected: ") << V::quote(text, 2000)); if (broken) n_rej++; n_cfg++; V::nontrivial(V::hash_str(text)); if (idx < 3) V::sample(V::quote(text));
}
static void bigcfg(V::Rng &g, uint64_t idx) { Cfg w; std::string text; size_t secs = idx % 3 == 0 ? 2000 : 3, keys = idx % 3 == 1 ? 3000 : 4, vl = idx % 3 == 2 ? (size_t)1 << (12 + g.below(6)) : 8; for (size_t i = 0; i < secs; i++) { std::string s = "section " + std::to_string(i * 7919 % 10007) + (idx % 3 == 2 ? std::string(5000, 's') : ""); text += "[" + s + "]\n"; w[s]; for (size_t k = 0; k < keys; k++) { std::string key = "key" + std::to_string(k * 31 % 5003) + (idx % 3 == 2 ? std::string(3000 + k, 'k') : ""), v = "v" + V::rand_text(g, vl + g.below(3), "abc =;[]") + "e"; text += key + " = " + v + "\n"; w[s][key] = v; } }
  V::cur("large configuration of " + std::to_string(text.size()) + " bytes"); std::istringstream is(text); try { config_file c(is); compare(c, w, text); } catch (const std::exception &e) { VFAIL("a large well-formed file was refused: " << e.what()); } V::count("large configuration files"); V::nontrivial(V::hash_str(text)); }
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("random update/query histories against a plain array for int, long long and double (integer-valued) trees; generated configuration files with known contents and files with one malformed line; distinct = distinct histories and files");
  V::cases("large trees", 8, 9, bigfen<long long>); V::cases("large int trees", 8, 9, bigfen<int>); V::cases("large files", 9, 9, bigcfg); V::cases("fenwick int", 8000, 0.5, fen<int>); V::cases("fenwick long long", 8000, 0.6, fen<long long>); V::cases("fenwick double", 4000, 0.7, fen<double>); V::cases("config", 40000, 1, cfg);
  V::count("sums compared", n_q); V::count("updates", n_u); V::count("configuration files", n_cfg); V::count("keys looked up", n_key); V::count("malformed files rejected", n_rej);
  return V::finish();
}
