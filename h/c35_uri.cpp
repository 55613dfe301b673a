// C35: uri parsing against an independent RFC 3986 oracle (appendix-B split, then per-component
// character classes; IPv6 through inet_pton), and percent encoding both ways.
#include "common.h"
#include <network/uri.h>
#include <arpa/inet.h>
using pfi::network::uri;
static std::atomic<uint64_t> n_valid, n_invalid, n_v6, n_enc, n_rt;
struct Parts { bool ok, has_auth; std::string scheme, user, host, port, path, query, frag; Parts() : ok(false), has_auth(false) {} };
static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool xdig(char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool in(char c, const char *set) { return c && strchr(set, c); }
static const char *SUB = "!$&'()*+,;=";
// every character unreserved, a sub-delim, one of extra or part of a complete escape
static bool chars(const std::string &s, const char *extra) {
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (alpha(c) || digit(c) || in(c, "-._~") || in(c, SUB) || in(c, extra)) continue;
    if (c == '%' && i + 2 < s.size() + 0 && xdig(s[i + 1]) && xdig(s[i + 2])) { i += 2; continue; }
    return false;
  }
  return true;
}
static bool literal(const std::string &h) { // contents of [...]
  if (!h.empty() && h[0] == 'v') {
    size_t d = h.find('.'); if (d == std::string::npos || d < 2 || d + 1 >= h.size()) return false;
    for (size_t i = 1; i < d; i++) if (!xdig(h[i])) return false;
    for (size_t i = d + 1; i < h.size(); i++) if (!(alpha(h[i]) || digit(h[i]) || in(h[i], "-._~:") || in(h[i], SUB))) return false;
    return true;
  }
  for (size_t i = 0; i < h.size(); i++) if (!xdig(h[i]) && h[i] != ':' && h[i] != '.') return false;
  unsigned char b[16]; n_v6++; return inet_pton(AF_INET6, h.c_str(), b) == 1;
}
static Parts oracle(const std::string &s) {
  Parts p; std::string r = s; size_t at;
  if ((at = r.find('#')) != std::string::npos) { p.frag = r.substr(at + 1); r.resize(at); }
  if ((at = r.find('?')) != std::string::npos) { p.query = r.substr(at + 1); r.resize(at); }
  if (!chars(p.frag, ":@/?") || !chars(p.query, ":@/?")) return Parts();
  bool scheme = false;
  if ((at = r.find_first_of(":/")) != std::string::npos && r[at] == ':' && at > 0 && alpha(r[0])) {
    scheme = true; for (size_t i = 0; i < at; i++) if (!(alpha(r[i]) || digit(r[i]) || in(r[i], "+-."))) scheme = false;
    if (scheme) { p.scheme = r.substr(0, at); r = r.substr(at + 1); }
  }
  if (r.compare(0, 2, "//") == 0) {
    p.has_auth = true; at = r.find('/', 2); std::string a = r.substr(2, at == std::string::npos ? at : at - 2); r = at == std::string::npos ? "" : r.substr(at);
    if ((at = a.find('@')) != std::string::npos) { p.user = a.substr(0, at); a = a.substr(at + 1); }
    if (!chars(p.user, ":")) return Parts();
    if (!a.empty() && a[0] == '[') { at = a.find(']'); if (at == std::string::npos || !literal(a.substr(1, at - 1))) return Parts(); p.host = a.substr(0, at + 1); a = a.substr(at + 1); if (!a.empty() && a[0] != ':') return Parts(); }
    else { at = a.find(':'); p.host = a.substr(0, at); a = at == std::string::npos ? "" : a.substr(at); if (!chars(p.host, "")) return Parts(); }
    if (!a.empty()) p.port = a.substr(1);
    for (size_t i = 0; i < p.port.size(); i++) if (!digit(p.port[i])) return Parts();
    if (!chars(r, ":@/")) return Parts();
  } else {
    if (!chars(r, ":@/")) return Parts();
    if (!scheme) { size_t c = r.find(':'), sl = r.find('/'); if (c != std::string::npos && (sl == std::string::npos || c < sl)) return Parts(); }
  }
  p.path = r; p.ok = true; return p;
}
static std::string pc(V::Rng &g, size_t n, const std::string &al) { std::string r; for (size_t i = 0; i < n; i++) { if (g.chance(1, 8)) { char b[8]; snprintf(b, sizeof b, g.chance(1, 2) ? "%%%02X" : "%%%02x", (unsigned)g.below(256)); r += b; } else r += al[g.below(al.size())]; } return r; }
static const std::string UN = "abcxyzABCXYZ0123456789-._~", US = UN + "!$&'()*+,;=";
static std::string v6(V::Rng &g) { std::string r; int n = g.below(10); int gap = g.chance(2, 3) ? (int)g.below(n + 1) : -1; bool v4 = g.chance(1, 3); for (int i = 0; i < n; i++) { if (i == gap) r += i ? ":" : "::"; char b[48]; if (i == n - 1 && v4) snprintf(b, sizeof b, "%d.%d.%d.%d", (int)g.below(g.chance(1, 4) ? 300 : 256), (int)g.below(256), (int)g.below(g.chance(1, 8) ? 300 : 256), (int)g.below(g.chance(1, 6) ? 1000 : 256)); else snprintf(b, sizeof b, "%x", (unsigned)g.below(g.chance(1, 12) ? 0x20000 : g.chance(1, 2) ? 16 : 65536)); r += b; if (i + 1 < n || gap == n) r += ":"; } if (gap == n) r += n ? ":" : "::"; if (g.chance(1, 12)) { if (!r.empty()) r.erase(g.below(r.size()), 1); } return r; }
static std::string host(V::Rng &g) { switch (g.below(7)) { case 0: return "[" + v6(g) + "]"; case 1: { char b[64]; snprintf(b, sizeof b, "%d.%d.%d.%d", (int)g.below(260), (int)g.below(256), (int)g.below(256), (int)g.below(400)); return b; } case 2: { char b[64]; snprintf(b, sizeof b, "%d.%d.%d.%d", (int)g.below(260), (int)g.below(256), (int)g.below(256), (int)g.below(400)); return b + pc(g, g.below(5), US); } case 3: return "[v" + std::string(g.chance(1, 8) ? "" : g.chance(1, 2) ? "1" : "aF3") + "." + V::rand_text(g, g.below(6), US + ":") + "]"; case 4: return ""; default: return pc(g, V::rand_len(g, 40), US); } }
static std::string path(V::Rng &g) { std::string r; int n = g.below(5); for (int i = 0; i < n; i++) r += "/" + pc(g, V::rand_len(g, 12), US + ":@"); return r; }
static std::string make(V::Rng &g) {
  std::string r; bool sch = g.chance(4, 5); if (sch) { r += (char)((g.chance(1, 2) ? 'a' : 'A') + g.below(26)); r += V::rand_text(g, V::rand_len(g, 12), "abzABZ059+-."); r += ":"; }
  switch (g.below(6)) { case 0: r += path(g); break; case 1: r += pc(g, g.below(10), US + ":@") + path(g); break; default: r += "//"; if (g.chance(1, 3)) r += pc(g, V::rand_len(g, 20), US + ":") + "@"; r += host(g); if (g.chance(1, 3)) r += ":" + V::rand_text(g, g.below(7), "0123456789"); r += path(g); }
  if (g.chance(1, 2)) r += "?" + pc(g, V::rand_len(g, 30), US + ":@/?"); if (g.chance(1, 2)) r += "#" + pc(g, V::rand_len(g, 20), US + ":@/?"); return r; }
static std::string damage(V::Rng &g, std::string s) { int n = 1 + g.below(3); static const std::string odd = "%[]<>\"{}|\\^` #?/:@%%\x7f\x80\xff\x01v."; for (int i = 0; i < n; i++) { size_t at = g.below(s.size() + 1); switch (g.below(5)) { case 0: if (at < s.size()) s.erase(at, 1); break; case 1: s.insert(at, 1, odd[g.below(odd.size())]); break; case 2: if (at < s.size()) s[at] = odd[g.below(odd.size())]; break; case 3: s.resize(at); break; default: { size_t b = g.below(s.size() + 1); if (b > at && b - at < 20) s.insert(at, s.substr(at, b - at)); } } } return s; }
static void same(const uri &u, const Parts &e, const std::string &s) { std::string q = V::quote(s); VEQ(u.scheme(), e.scheme, "scheme of " << q); VEQ(u.userinfo(), e.user, "userinfo of " << q); VEQ(u.host(), e.host, "host of " << q); VEQ(u.port(), e.port, "port of " << q); VEQ(u.path(), e.path, "path of " << q); VEQ(u.query(), e.query, "query of " << q); VEQ(u.fragment(), e.frag, "fragment of " << q); std::string a = (e.user.empty() ? "" : e.user + "@") + e.host + (e.port.empty() ? "" : ":" + e.port); VEQ(u.authority(), a, "authority of " << q); }
static void parse(V::Rng &g, uint64_t idx) {
  std::string s = make(g); if (g.chance(1, 2)) s = damage(g, s); std::string t; for (char c : s) if (c) t += c; s = t; if (s.find("[V") != std::string::npos) return; V::cur("uri " + V::quote(s)); Parts e = oracle(s); uri u(s); same(u, e, s); V::nontrivial(V::hash_str(s)); if (!e.ok) { n_invalid++; return; } n_valid++; if (idx < 5) V::sample(s);
  std::string a = u.authority(); bool ab = !e.path.empty() && e.path[0] == '/'; bool rt = e.scheme.empty() ? (a.empty() && !e.path.empty() && e.path.compare(0, 2, "//")) : (!a.empty() || ab); if (rt) { std::ostringstream o; o << u; uri w(o.str()); Parts f = e; if (f.path.empty()) f.path = "/"; same(w, f, o.str() + " printed from " + s); n_rt++; } }
static void encode(V::Rng &g, uint64_t idx) {
  std::string s; if (idx < 256) s = std::string(1, (char)idx); else s = V::rand_bytes(g, V::rand_len(g, 300)); if (g.chance(1, 2)) for (auto &c : s) if (g.chance(1, 2)) c = " %+-_.~aZ09/&="[g.below(14)]; V::cur("encode " + V::quote(s)); std::string want; for (unsigned char c : s) { if (alpha(c) || digit(c) || in(c, "-._~")) want += c; else if (c == ' ') want += '+'; else { char b[4]; snprintf(b, 4, "%%%02X", c); want += b; } } std::string en = pfi::network::uri_encode(s); VEQ(en, want, "uri_encode(" << V::quote(s) << ")"); VCHECK(pfi::network::uri_decode(en) == s, "decode(encode(x)) for " << V::quote(s)); n_enc++;
  // decoding: any escape, either case of the digits; everything else literally, '+' as a blank
  std::string d, w; int n = g.below(30); for (int i = 0; i < n; i++) { switch (g.below(4)) { case 0: { unsigned c = g.below(256); char b[4]; snprintf(b, 4, g.chance(1, 2) ? "%%%02x" : "%%%02X", c); d += b; w += (char)c; break; } case 1: d += '+'; w += ' '; break; default: { char c; do c = (char)g.u32(); while (c == '%' || c == '+'); d += c; w += c; } } } V::cur("decode " + V::quote(d)); VCHECK(pfi::network::uri_decode(d) == w, "uri_decode(" << V::quote(d) << ") is " << V::quote(pfi::network::uri_decode(d)) << ", expected " << V::quote(w));
  std::string junk = V::rand_text(g, V::rand_len(g, 40), "%%%%aG1+ z\xff"); V::cur("decode " + V::quote(junk)); std::string r = pfi::network::uri_decode(junk); VCHECK(r.size() <= junk.size(), "decoding grew " << V::quote(junk)); }
static void large(V::Rng &g, uint64_t idx) { static const size_t sz[] = {32767, 32768, 65535, 65536, 70000, 131073, 1000003}; std::string s = V::rand_bytes(g, sz[idx % 7]); V::cur("encode " + std::to_string(s.size()) + " bytes"); std::string want; for (unsigned char c : s) { if (alpha(c) || digit(c) || in(c, "-._~")) want += c; else if (c == ' ') want += '+'; else { char b[4]; snprintf(b, 4, "%%%02X", c); want += b; } } std::string en = pfi::network::uri_encode(s); VEQ(en.size(), want.size(), "length of the encoding of " << s.size() << " bytes"); VCHECK(en == want, "encoding of " << s.size() << " bytes"); VCHECK(pfi::network::uri_decode(en) == s, "decode(encode(x)) for " << s.size() << " bytes"); n_enc++; std::string p = "http://h/" + V::rand_text(g, s.size(), UN); std::string q = V::rand_text(g, 40000, UN); uri u(p + "?" + q); VCHECK(u.path() == p.substr(8) && u.query() == q && u.host() == "h", "parts of a URI of " << s.size() << " bytes"); }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("generated RFC 3986 URIs and relative references, half of them damaged, against an independent appendix-B split with character-class and inet_pton oracles; print and reparse; percent encoding and decoding of every byte; distinct = distinct inputs parsed"); V::cases("large", 7, 9, large); V::cases("encode", 60000, .3, encode); V::cases("parse", 1500000, 1, parse); V::count("valid inputs", n_valid); V::count("inputs to reject", n_invalid); V::count("IPv6 literals judged", n_v6); V::count("print and reparse", n_rt); V::count("byte strings encoded", n_enc); return V::finish(); }
