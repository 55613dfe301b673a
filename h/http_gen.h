// Generation of HTTP messages on the wire and of what a receiver must see.
#ifndef VERIF_HTTP_GEN_H
#define VERIF_HTTP_GEN_H
#include "net.h"
namespace G {
typedef std::vector<std::pair<std::string, std::string> > Fields;
inline std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline bool has(const Fields &f, const std::string &k) { for (auto &x : f) if (lower(x.first) == lower(k)) return true; return false; }
inline std::string token(V::Rng &g) { return V::rand_text(g, 1 + g.below(14), "abcdefXYZ0123-_!#$%&'*+.^`|~"); }
inline std::string value(V::Rng &g) { size_t n = g.chance(1, 12) ? V::rand_len(g, 4000) : g.below(40); std::string s; for (size_t i = 0; i < n; i++) { char c = g.chance(1, 6) ? ' ' : g.chance(1, 8) ? (char)(128 + g.below(128)) : (char)(33 + g.below(94)); s += c; } while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s[s.size() - 1] == ' ') s.erase(s.size() - 1); return s; }
inline Fields fields(V::Rng &g, int most = 8) { Fields f; int n = g.below(most + 1); for (int i = 0; i < n; i++) { std::string k = token(g); std::string l = lower(k); if (has(f, k) || l == "content-length" || l == "transfer-encoding") continue; f.push_back(std::make_pair(k, value(g))); } return f; }
inline std::string body(V::Rng &g, size_t most = 30000) { std::string s = V::rand_bytes(g, V::rand_len(g, most)); if (g.chance(1, 3)) for (auto &c : s) c = "\xff\r\n0a\0"[g.below(6)]; if (g.chance(1, 4)) s = "0\r\n\r\n" + s; return s; }
inline std::string spell(V::Rng &g, std::string s) { for (auto &c : s) if (g.chance(1, 3)) c = (c >= 'a' && c <= 'z') ? c - 32 : (c >= 'A' && c <= 'Z') ? c + 32 : c; return s; }
inline std::string eol(V::Rng &g, bool strict) { return !strict && g.chance(1, 6) ? "\n" : "\r\n"; }
// chunked coding of a body
inline std::string chunked(V::Rng &g, const std::string &b, bool strict) { std::string r; size_t at = 0; while (at < b.size()) { size_t n = std::min(b.size() - at, 1 + V::rand_len(g, g.chance(1, 2) ? 40 : 12000)); char h[40]; snprintf(h, 40, g.chance(1, 2) ? "%zx" : "%zX", n); r += std::string(g.chance(1, 5) ? g.below(4) : 0, '0') + h; if (g.chance(1, 6)) r += ";ext=" + token(g); r += eol(g, strict) + b.substr(at, n) + eol(g, strict); at += n; } r += g.chance(1, 4) ? "000" : "0"; if (g.chance(1, 6)) r += ";last"; r += eol(g, strict); int t = g.chance(1, 4) ? 1 + g.below(3) : 0; for (int i = 0; i < t; i++) { r += "X-T" + std::to_string(i) + ": " + token(g) + eol(g, strict); if (!strict && g.chance(1, 3)) r += std::string(1 + g.below(3), g.chance(1, 3) ? '\t' : ' ') + token(g) + eol(g, strict); } return r + eol(g, strict); }
// header section of the fields, with optional white space and folding; f is what has to come out
inline std::string head(V::Rng &g, Fields &f, bool strict) { std::string r; for (auto &x : f) { r += x.first; if (!strict && g.chance(1, 8)) r += std::string(1 + g.below(4), g.chance(1, 3) ? '\t' : ' '); r += ":"; r += strict ? " " : std::string(g.below(3), ' '); std::string v = x.second; if (!strict && g.chance(1, 8) && v.find(' ') != std::string::npos && v.find("  ") == std::string::npos) { size_t p = v.find(' '); r += v.substr(0, p) + eol(g, strict) + std::string(1 + g.below(3), g.chance(1, 4) ? '\t' : ' ') + v.substr(p + 1); size_t q = r.size() - (v.size() - p - 1); size_t w = q; while (w > 0 && (r[w - 1] == ' ' || r[w - 1] == '\t')) w--; x.second = v.substr(0, p) + r[w] + v.substr(p + 1); } else r += v; r += eol(g, strict); } return r + eol(g, strict); }
}
#endif
