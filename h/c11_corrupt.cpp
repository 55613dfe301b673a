#include "archive_types.h"
#include <data/intern.h>
#include <stddef.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
using namespace A;
static std::atomic<uint64_t> n_trunc, n_corrupt, n_failed, n_survived, big_alloc;
static void on_malloc(const volatile void *, size_t n) { if (n > big_alloc) big_alloc = n; }
static void on_free(const volatile void *) {}
template <class T> static bool attempt(const std::string &bytes, T &v, V::Rng &g, uint64_t seed) {  // true: archive still good
  if (g.chance(1, 2)) { std::istringstream is(bytes); binary_iarchive ia(is); ia >> v; return (bool)ia; }
  Dribble db(bytes, seed); std::istream is(&db); binary_iarchive ia(is); ia >> v; return (bool)ia;
}
static void note(const std::string &ctx, size_t in) { size_t b = big_alloc.exchange(0); V::cmax("largest allocation while reading (bytes)", b); VCHECK(b <= (64u << 20), "reading a damaged archive of " << in << " bytes allocated " << b << " bytes at once: " << ctx); }
template <class B> static void damage(V::Rng &g, const char *name) {
  Gen G(g, 10); B b; rnd(G, b.v); std::string good; enc(good, b.v); std::string ctx = name;
  // every truncation point for short archives, random ones for long
  for (size_t i = 0; i < (good.size() < 60 ? good.size() : 25); i++) { size_t cut = good.size() < 60 ? i : g.below(good.size()); std::string part = good.substr(0, cut); V::cur(ctx + " truncated at " + std::to_string(cut) + ": " + V::quote(part, 2000)); B r; if (g.chance(1, 3)) rnd(G, r.v); big_alloc = 0; bool ok = attempt(part, r.v, g, g.u64()); VCHECK(!ok, ctx << " read from the first " << cut << " of " << good.size() << " bytes left the archive good: " << V::quote(part)); note(ctx, part.size()); n_trunc++; V::eval(); }
  for (int k = 0; k < 12; k++) { std::string bad = good; int m = 1 + g.below(3); for (int j = 0; j < m && bad.size(); j++) switch (g.below(5)) { case 0: bad[g.below(bad.size())] = (char)g.u32(); break; case 1: bad[g.below(bad.size())] ^= 1 << g.below(8); break; case 2: { size_t p = g.below(bad.size()); for (size_t q = p; q < p + 4 && q < bad.size(); q++) bad[q] = g.chance(1, 2) ? '\xff' : '\x7f'; break; } case 3: bad.insert(g.below(bad.size() + 1), V::rand_bytes(g, 1 + g.below(6))); break; default: bad.erase(g.below(bad.size()), 1 + g.below(4)); } if (g.chance(1, 8)) bad = V::rand_bytes(g, g.below(40));
    V::cur(ctx + " corrupted: " + V::quote(bad, 2000)); B r; big_alloc = 0; bool ok = attempt(bad, r.v, g, g.u64()); note(ctx, bad.size()); (ok ? n_survived : n_failed)++;
    if (ok) { std::string again; enc(again, r.v); VCHECK(again.size() <= bad.size() + 64, "value invented from " << bad.size() << " bytes"); }  // sets may drop duplicates, nothing may grow
    n_corrupt++; V::eval(); }
  V::nontrivial(V::hash_str(good) ^ V::hash_str(ctx)); 
}
static void strm(V::Rng &g, uint64_t) { std::string d; for (size_t n = V::rand_len(g, 60); n; n--) d += g.chance(1, 3) ? '\xff' : (char)g.u32(); std::string want; for (char c : d) { want += c; if (c == '\xff') want += c; } want += std::string("\xff\0", 2);
  for (size_t cut = 0; cut < want.size(); cut++) { V::cur("stream member truncated at " + std::to_string(cut) + " of " + V::quote(want)); std::stringstream dst; stream<> s(dst); bool ok = attempt(want.substr(0, cut), s, g, g.u64()); VCHECK(!ok, "truncated stream member left the archive good"); VCHECK(dst.str().size() <= d.size() && d.compare(0, dst.str().size(), dst.str()) == 0, "truncated stream member gave wrong bytes"); n_trunc++; } V::nontrivial(V::hash_str(want)); }
static void interned(V::Rng &g, uint64_t) {
  pfi::data::intern<std::string> im; int n = g.below(6); for (int i = 0; i < n; i++) im.key2id(V::rand_bytes(g, g.below(3))); std::stringstream ss; { binary_oarchive oa(ss); oa << im; } std::string good = ss.str();
  for (int k = 0; k < 12; k++) { std::string bad = good; if (g.chance(1, 2)) bad = bad.substr(0, g.below(bad.size() + 1)); else if (bad.size()) { size_t p = g.below(bad.size()); if (g.chance(1, 2)) bad[p] = (char)g.u32(); else bad[p] ^= 1 << g.below(8); } if (g.chance(1, 5) && bad.size() >= 4) for (size_t q = bad.size() - 4; q < bad.size(); q++) bad[q] = '\xff';
    V::cur("intern: " + V::quote(bad)); pfi::data::intern<std::string> r; r.key2id("old"); bool thrown = false, ok = false; try { ok = attempt(bad, r, g, g.u64()); } catch (const std::runtime_error &) { thrown = true; } 
    if (bad.size() < good.size() && good.compare(0, bad.size(), bad) == 0) VCHECK(!ok, "truncated dictionary accepted"); 
    if (!ok || thrown) { VCHECK(r.size() == 1 && r.key2id_nogen("old") == 0 && r.id2key(0) == "old", "a damaged dictionary archive changed the dictionary"); n_failed++; } else { std::set<std::string> keys; for (size_t i = 0; i < r.size(); i++) { VCHECK(r.exist_id(i) && r.key2id_nogen(r.id2key(i)) == (int)i, "dictionary restored from a damaged archive is not a bijection: " << V::quote(bad)); keys.insert(r.id2key(i)); } VEQ(keys.size(), r.size(), "bijection"); n_survived++; } n_corrupt++; V::eval(); }
  V::nontrivial(V::hash_str(good));
}
int main(int argc, char **argv) {
  V::init(argc, argv, 20); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  V::rule("valid archives of 32 types cut at every or random points and corrupted (bit flips, maxed counts, insertions, deletions), read under ASan/UBSan with an allocation-size monitor and a progress watchdog; distinct = distinct base archives");
  V::cases("embedded streams", 300, 0.15, strm); V::cases("dictionaries", 2000, 0.3, interned);
  V::cases("types", 100000, 1, [](V::Rng &g, uint64_t i) { int pick = i % 32, k = 0; all_types([&](auto *p, const char *nm) { if (k++ == pick) { typedef typename std::remove_pointer<decltype(p)>::type B; damage<B>(g, nm); if (i < 32 && i % 8 == 0) V::sample(nm); } }); });
  V::count("truncations read", n_trunc); V::count("corruptions read", n_corrupt); V::count("corruptions that failed the archive", n_failed); V::count("corruptions still readable", n_survived);
  return V::finish();
}
