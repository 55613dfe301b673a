#include "common.h"
#include <data/encoding/base64.h>
using namespace pfi::data::encoding;
static const std::string AB = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_enc(const std::string &s) { std::string r; unsigned acc = 0; int nb = 0; for (unsigned char c : s) { acc = acc << 8 | c; nb += 8; while (nb >= 6) { r += AB[acc >> (nb - 6) & 63]; nb -= 6; } acc &= 0xffff; } if (nb) r += AB[acc << (6 - nb) & 63]; while (r.size() % 4) r += '='; return r; }
// strict grammar: multiple of four; alphabet only; '=' only as the last one or two characters
static bool ref_dec(const std::string &s, std::string &out) {
  out.clear(); if (s.size() % 4) return false; size_t n = s.size(), pad = 0; if (n && s[n - 1] == '=') pad = 1; if (n > 1 && pad && s[n - 2] == '=') pad = 2;
  unsigned acc = 0; int nb = 0; for (size_t i = 0; i < n - pad; i++) { size_t v = AB.find(s[i]); if (v == std::string::npos) return false; acc = (acc << 6 | v) & 0xffff; nb += 6; if (nb >= 8) { out += (char)(acc >> (nb - 8) & 255); nb -= 8; } }
  return true;
}
static std::atomic<uint64_t> n_rt, n_acc, n_rej;
static void roundtrip(const std::string &s) { std::string w = ref_enc(s), e = base64_encode(s); VCHECK(e == w, "encode(" << V::quote(s) << ") = " << V::quote(e) << ", RFC 4648 says " << V::quote(w)); std::string d = base64_decode(e); VCHECK(d == s, "decode(encode(s)) = " << V::quote(d) << " for s = " << V::quote(s)); n_rt++; }
static void decode(const std::string &t) {
  std::string want, got; bool ok = ref_dec(t, want), acc = true; try { got = base64_decode(t); } catch (const std::invalid_argument &) { acc = false; } catch (const std::exception &e) { VFAIL("decode(" << V::quote(t) << ") threw " << e.what()); }
  if (ok) { VCHECK(acc, "well-formed text " << V::quote(t) << " rejected"); VCHECK(got == want, "decode(" << V::quote(t) << ") = " << V::quote(got) << " instead of " << V::quote(want)); n_acc++; } else { VCHECK(!acc, "malformed text " << V::quote(t) << " decoded to " << V::quote(got)); n_rej++; }
}
int main(int argc, char **argv) {
  V::init(argc, argv);
  V::rule("all strings of up to 2 bytes, random byte strings of boundary-heavy lengths, and valid texts with mutations, judged by an independent RFC 4648 codec; distinct = distinct inputs");
  roundtrip(""); decode("");
  for (int a = 0; a < 256; a++) { roundtrip(std::string(1, (char)a)); for (int b = 0; b < 256; b++) { std::string s; s += (char)a; s += (char)b; V::cur("2 bytes"); roundtrip(s); } V::eval(257); V::nontrivial(a); }
  for (int k = 0; k < 256; k++) for (int pos = 0; pos < 8; pos++) { std::string t = "TWFuQUJD"; t[pos] = (char)k; V::cur(t); decode(t); t = "TWFuQQ=="; t[pos] = (char)k; decode(t); t = "TWFuQUI="; t[pos] = (char)k; decode(t); V::eval(3); }
  V::cases("long", 9, 9, [](V::Rng &g, uint64_t i) { static const size_t K[] = {65536, 65537, 131071, 300001, 300002, 1048575, 5000000, 5000001, 17000002}; std::string s = V::rand_bytes(g, K[i % 9]); V::cur("encode " + std::to_string(s.size()) + " bytes"); roundtrip(s); std::string t = ref_enc(s); t[t.size() / 2 + g.below(100)] = "~=\n"[i % 3]; decode(t); V::nontrivial(V::hash_str(s)); V::cmax("longest string", s.size()); });
  V::cases("bytes", 200000, 0.6, [](V::Rng &g, uint64_t i) { std::string s = V::rand_bytes(g, V::rand_len(g, i % 50 ? 300 : 70000)); if (g.chance(1, 5)) for (auto &c : s) c = g.chance(1, 2) ? '\xff' : '\0'; V::cur("encode " + V::quote(s)); roundtrip(s); V::nontrivial(V::hash_str(s)); if (i < 2) V::sample("encode " + V::quote(s, 60)); });
  V::cases("texts", 200000, 1, [](V::Rng &g, uint64_t i) {
    std::string t = g.chance(1, 3) ? V::rand_text(g, g.below(14), AB + "====\r\n -_") : ref_enc(V::rand_bytes(g, V::rand_len(g, 40)));
    int m = g.below(4); for (int k = 0; k < m; k++) switch (g.below(6)) { case 0: if (t.size()) t[g.below(t.size())] = (char)g.u32(); break; case 1: if (t.size()) t.erase(g.below(t.size()), 1); break; case 2: t.insert(g.below(t.size() + 1), 1, "=\n\0A~"[g.below(5)]); break; case 3: t += ref_enc(V::rand_bytes(g, g.below(5))); break; case 4: if (t.size()) t[g.below(t.size())] = '='; break; case 5: t = t.substr(0, g.below(t.size() + 1)); break; }
    V::cur("decode " + V::quote(t)); decode(t); V::nontrivial(V::hash_str(t)); if (i < 3) V::sample("decode " + V::quote(t, 60)); });
  V::count("encode/decode round trips", n_rt); V::count("texts accepted", n_acc); V::count("malformed texts rejected", n_rej);
  return V::finish();
}
