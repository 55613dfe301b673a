// C43: ipv4_address against plain octets and an independent dotted-quad reader.
#include "common.h"
#include <network/ipv4.h>
typedef pfi::network::ipv4_address A;
static std::atomic<uint64_t> n_ok, n_bad, n_cmp;
static bool read4(const std::string &s, int o[4]) { size_t at = 0; for (int i = 0; i < 4; i++) { if (i) { if (at >= s.size() || s[at] != '.') return false; at++; } size_t b = at; int v = 0; while (at < s.size() && s[at] >= '0' && s[at] <= '9' && at - b < 4) v = v * 10 + (s[at++] - '0'); if (at == b || at - b > 3 || v > 255) return false; o[i] = v; } return at == s.size(); }
static std::string dotted(const int *o) { std::ostringstream s; s << o[0] << "." << o[1] << "." << o[2] << "." << o[3]; return s.str(); }
static int oct(V::Rng &g) { static const int e[] = {0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 249, 250, 254, 255}; return g.chance(1, 2) ? e[g.below(14)] : (int)g.below(256); }
static void good(V::Rng &g, uint64_t idx) {
  int o[4], q[4]; for (int i = 0; i < 4; i++) { o[i] = oct(g); q[i] = g.chance(2, 3) ? o[i] : oct(g); } if (idx < 1024) o[idx / 256] = idx % 256; V::cur("address " + dotted(o) + " against " + dotted(q)); A a(o[0], o[1], o[2], o[3]), b(q[0], q[1], q[2], q[3]); VEQ(a.to_string(), dotted(o), "to_string"); A p(dotted(o)); VCHECK(p == a && !(p != a), "printing and parsing " << dotted(o) << " gives " << p.to_string()); bool lt = std::lexicographical_compare(o, o + 4, q, q + 4), eq = std::equal(o, o + 4, q); VEQ(a < b, lt, "order of " << dotted(o) << " and " << dotted(q)); VEQ(b < a, !lt && !eq, "order of " << dotted(q) << " and " << dotted(o)); VEQ(a == b, eq, "equality"); VEQ(a != b, !eq, "inequality"); A c(a); c = b; VCHECK(c == b && a.to_string() == dotted(o), "copies"); n_ok++; n_cmp += 2; V::nontrivial(V::hash_str(dotted(o) + dotted(q))); }
static void text(V::Rng &g, uint64_t idx) {
  int o[4]; for (int i = 0; i < 4; i++) o[i] = g.chance(1, 6) ? (int)g.below(100000) : g.chance(1, 8) ? 256 + (int)g.below(3) : oct(g); std::string s; for (int i = 0; i < 4; i++) { std::string n = std::to_string(o[i]); if (g.chance(1, 10)) n = std::string(g.below(3), '0') + n; if (g.chance(1, 30)) n = std::to_string(4294967296ULL + o[i]); s += (i ? "." : "") + n; } if (g.chance(1, 2)) { int n = 1 + g.below(2); for (int k = 0; k < n; k++) { size_t at = g.below(s.size() + 1); switch (g.below(4)) { case 0: if (at < s.size()) s.erase(at, 1); break; case 1: s.insert(at, 1, " .-+x0\t\n\0e"[g.below(10)]); break; case 2: s += "."; break; default: s.resize(at); } } } V::cur("text " + V::quote(s)); int r[4]; bool ok = read4(s, r); A a(s); if (ok) { VEQ(a.to_string(), dotted(r), "parsing " << V::quote(s)); n_ok++; } else { VCHECK(a == A::none, V::quote(s) << " is no address and was read as " << a.to_string()); n_bad++; } V::nontrivial(V::hash_str(s)); if (idx < 5) V::sample(s); }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("random and boundary octets and dotted texts, half of them damaged, against plain integers; distinct = distinct addresses and texts");
  VEQ(A::any.to_string(), std::string("0.0.0.0"), "any"); VEQ(A::broadcast.to_string(), std::string("255.255.255.255"), "broadcast"); VEQ(A::loopback.to_string(), std::string("127.0.0.1"), "loopback"); VCHECK(A::none == A::broadcast, "none"); VCHECK(A() == A::any, "default address");
  V::cases("octets", 200000, .5, good); V::cases("text", 300000, 1, text); V::count("addresses round-tripped", n_ok); V::count("texts rejected", n_bad); V::count("comparisons", n_cmp); return V::finish(); }
