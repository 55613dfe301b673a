#include "common.h"
#include <data/serialization.h>
#include <data/intern.h>
using namespace pfi::data; using namespace pfi::data::serialization;
static std::atomic<uint64_t> n_ops, n_new, n_arch, n_copy;
template <class K> K key(V::Rng &g, int n);
template <> std::string key<std::string>(V::Rng &g, int n) { int i = g.below(n); switch (i % 4) { case 0: return std::string(i, 'a'); case 1: return std::string(i / 4, '\0'); case 2: return "k" + std::to_string(i); default: return std::string(1, (char)i) + '\xff'; } }
template <> int key<int>(V::Rng &g, int n) { int i = g.below(n); return i % 3 ? i * 1000003 : -i; }
template <> unsigned long key<unsigned long>(V::Rng &g, int n) { return (unsigned long)g.below(n) << 33; }
template <class K> struct Model { std::vector<K> l; std::map<K, int> m; };
template <class K> static void same(const intern<K> &im, const Model<K> &m, V::Rng &g, int nk, const std::string &log) {
  VEQ(im.size(), m.l.size(), "size after " << log); VEQ(im.empty(), m.l.empty(), "empty after " << log);
  for (size_t i = 0; i < m.l.size(); i++) { VCHECK(im.exist_id(i), "id " << i << " missing after " << log); VCHECK(im.id2key(i) == m.l[i], "id2key(" << i << ") is wrong after " << log); VEQ(im.key2id_nogen(m.l[i]), (int)i, "key2id after " << log); VCHECK(im.exist_key(m.l[i]), "exist_key after " << log); }
  VCHECK(!im.exist_id(m.l.size()) && !im.exist_id(-1) && !im.exist_id(INT32_MAX) && !im.exist_id(INT32_MIN), "ids outside 0..n-1 exist after " << log);
  for (int k = 0; k < 3; k++) { K x = key<K>(g, nk * 2); bool in = m.m.count(x); VCHECK(im.exist_key(x) == in && (im.key2id_nogen(x) >= 0) == in, "membership after " << log); if (!in) VEQ(im.key2id_nogen(x), -1, "absent key"); }
}
template <class K> static void history(V::Rng &g, uint64_t idx) {
  const int N = 3; intern<K> im[N]; Model<K> m[N]; int nk = 1 + g.below(40), n = 1 + g.below(80); std::string log;
  for (int s = 0; s < n; s++) {
    int a = g.below(N), b = g.below(N); n_ops++;
    switch (g.below(12)) {
    case 0: if (g.chance(1, 3)) { log += "clear" + std::to_string(a) + " "; im[a].clear(); m[a] = Model<K>(); } break;
    case 1: log += "swap" + std::to_string(a) + std::to_string(b) + " "; if (g.chance(1, 2)) im[a].swap(im[b]); else pfi::data::swap(im[a], im[b]); std::swap(m[a], m[b]); break;
    case 2: { log += "archive" + std::to_string(a) + ">" + std::to_string(b) + " "; std::stringstream ss; { binary_oarchive oa(ss); oa << im[a]; int z = 77; oa << z; } { binary_iarchive ia(ss); ia >> im[b]; int z = 0; ia >> z; VCHECK((bool)ia && z == 77, "value after the dictionary, " << log); } m[b] = Model<K>(m[a]); n_arch++; same(im[b], m[b], g, nk, log); break; }
    case 3: log += "copy" + std::to_string(a) + ">" + std::to_string(b) + " "; im[b] = im[a]; m[b] = Model<K>(m[a]); n_copy++; break;
    case 4: { K k = key<K>(g, nk); log += "peek "; int w = m[a].m.count(k) ? m[a].m[k] : -1; VEQ(im[a].key2id(k, false), w, "key2id without generation after " << log); break; }
    default: { K k = key<K>(g, nk); std::ostringstream o; o << "add" << a << " "; log += o.str(); int w; if (m[a].m.count(k)) w = m[a].m[k]; else { w = m[a].l.size(); m[a].m[k] = w; m[a].l.push_back(k); n_new++; } VEQ(g.chance(1, 2) ? im[a].key2id(k) : im[a].key2id(k, true), w, "id of key " << k << " after " << log); } }
    if (s % 8 == 0) { V::cur(log); for (int i = 0; i < N; i++) same(im[i], m[i], g, nk, log); }
  }
  for (int i = 0; i < N; i++) same(im[i], m[i], g, nk, log); V::nontrivial(V::hash_str(log) + idx); if (idx < 3) V::sample(log);
}
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("random histories over three dictionaries (insert, peek, clear, swap, copy, archive round trip) against a vector+map model, checked fully every 8 steps; distinct = distinct histories");
  V::cases("strings", 20000, 0.4, history<std::string>); V::cases("ints", 20000, 0.7, history<int>); V::cases("unsigned long", 20000, 1, history<unsigned long>);
  V::cases("large", 3, 2, [](V::Rng &g, uint64_t) { intern<int> im; std::vector<int> ks; for (int i = 0; i < 70000; i++) { int k = i * 7919 ^ 0x5555; VEQ(im.key2id(k), i, "large"); ks.push_back(k); } for (int i = 0; i < 70000; i++) VCHECK(im.key2id(ks[i]) == i && im.id2key(i) == ks[i], "large"); std::stringstream ss; { binary_oarchive oa(ss); oa << im; } intern<int> r; { binary_iarchive ia(ss); ia >> r; VCHECK((bool)ia, "large archive"); } VEQ(r.size(), (size_t)70000, "large archive"); for (int i = 0; i < 70000; i += 7) VCHECK(r.id2key(i) == ks[i] && r.key2id(ks[i]) == i, "large archive"); });
  V::count("operations", n_ops); V::count("keys added", n_new); V::count("archive round trips", n_arch); V::count("copies", n_copy);
  return V::finish();
}
