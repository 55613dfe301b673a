#include "common.h"
#include <list>
#include <data/lru.h>
using pfi::data::lru;
static std::atomic<uint64_t> n_ops, n_evict, n_hit, n_miss;
template <class K> K key(int i);
template <> int key<int>(int i) { return i - 3; }
template <> std::string key<std::string>(int i) { return i ? std::string(i % 3, 'a') + std::to_string(i) : ""; }
struct Model { size_t cap; std::vector<std::pair<int, int> > e;  // front = least recently used
  int find(int k) { for (size_t i = 0; i < e.size(); i++) if (e[i].first == k) return i; return -1; }
  void touch(int k) { int p = find(k); if (p < 0) return; auto x = e[p]; e.erase(e.begin() + p); e.push_back(x); }
  void set(int k, int v) { if (find(k) >= 0) return; while (e.size() >= cap) { e.erase(e.begin()); n_evict++; } e.push_back(std::make_pair(k, v)); } };
template <class K> static void history(V::Rng &g, uint64_t idx) {
  int cap = 1 + (g.chance(1, 3) ? g.below(3) : g.below(20)), keys = 1 + g.below(cap * 2 + 3), n = 1 + g.below(250); std::ostringstream log; log << "cap=" << cap << ": ";
  lru<K, int> c(cap); Model m; m.cap = cap; int wt_get = 1 + g.below(6), wt_set = 1 + g.below(6), wt_rm = g.below(3), wt_br = g.below(3), wt_t = g.below(3), val = 0, tot = wt_get + wt_set + wt_rm + wt_br + wt_t + 1;
  for (int i = 0; i < n; i++) {
    int k = g.below(keys), x = g.below(tot); K kk = key<K>(k); ++n_ops;
    if (i % 16 == 0) V::cur(log.str().substr(0, 3000));
    if ((x -= wt_get) < 0) { log << "get" << k << " "; int p = m.find(k); bool thrown = false; int v = 0; try { v = c.get(kk); } catch (const std::runtime_error &) { thrown = true; } if (p < 0) { VCHECK(thrown, "get of an absent key returned " << v << " after " << log.str()); n_miss++; } else { VCHECK(!thrown && v == m.e[p].second, "get(" << k << ") = " << v << (thrown ? " (threw)" : "") << " expected " << m.e[p].second << " after " << log.str()); m.touch(k); n_hit++; } }
    else if ((x -= wt_set) < 0) { ++val; log << "set" << k << "=" << val << " "; c.set(kk, val); m.set(k, val); }
    else if ((x -= wt_rm) < 0) { log << "rm" << k << " "; c.remove(kk); int p = m.find(k); if (p >= 0) m.e.erase(m.e.begin() + p); }
    else if ((x -= wt_br) < 0) { int p = m.find(k); if (g.chance(1, 2)) { ++val; log << "[" << k << "]=" << val << " "; c[kk] = val; if (p < 0) { m.set(k, 0); p = m.find(k); } else { m.touch(k); p = m.find(k); } m.e[p].second = val; } else { log << "[" << k << "] "; int v = c[kk]; if (p < 0) { VEQ(v, 0, "new entry is default constructed"); m.set(k, 0); } else { VEQ(v, m.e[p].second, log.str()); m.touch(k); } } }
    else if ((x -= wt_t) < 0) { log << "touch" << k << " "; c.touch(kk); m.touch(k); }
    else if (g.chance(1, 10)) { log << "clear "; c.clear(); m.e.clear(); }
    for (int q = 0; q < keys; q++) VCHECK(c.has(key<K>(q)) == (m.find(q) >= 0), "has(" << q << ") = " << c.has(key<K>(q)) << " with capacity " << cap << " after " << log.str());
  }
  // values of what is left, oldest first so that the reads do not disturb what follows
  std::vector<std::pair<int, int> > left = m.e; for (auto &p : left) VEQ(c.get(key<K>(p.first)), p.second, "final value of " << p.first << " after " << log.str());
  // eviction order of what is left
  for (size_t i = 0; i < left.size(); i++) { for (size_t fill = 0; i == 0 && left.size() + fill < (size_t)cap; fill++) c.set(key<K>(1000 + fill), 1); c.set(key<K>(5000 + i), 1); VCHECK(!c.has(key<K>(left[i].first)), "entry " << left[i].first << " should have been evicted " << i << "th; " << log.str()); for (size_t j = i + 1; j < left.size(); j++) VCHECK(c.has(key<K>(left[j].first)), "entry " << left[j].first << " evicted too early; " << log.str()); }
  V::nontrivial(V::hash_str(log.str())); if (idx < 3) V::sample(log.str());
}
// large capacities and many operations: a linked-list model with an index
static void large(V::Rng &g, uint64_t idx) {
  int cap = (int)(1u << (5 + g.below(8))) + (int)g.range(-1, 1), keys = cap + g.below(cap * 2) + 1, n = idx == 0 ? 140000 : 30000 + g.below(60000); lru<int, int> c(cap); std::list<std::pair<int, int> > l; std::map<int, std::list<std::pair<int, int> >::iterator> ix; std::string d = "cap=" + std::to_string(cap) + " keys=" + std::to_string(keys) + " ops=" + std::to_string(n); V::cur(d); bool local = g.chance(1, 2); int base = 0;
  for (int i = 0; i < n; i++) {
    if (i % 1000 == 0) { V::tick(); base = g.below(keys); } int k = local ? (base + g.below(cap + cap / 8 + 1)) % keys : g.below(keys); auto p = ix.find(k); n_ops++;
    auto touch = [&]() { l.splice(l.end(), l, p->second); }; auto add = [&](int v) { while ((int)l.size() >= cap) { int gone = l.front().first; ix.erase(gone); l.pop_front(); n_evict++; if (i % 7 == 0) { c.set(k, v); VCHECK(!c.has(gone), "least recently used entry " << gone << " is still there: " << d << " at operation " << i); } } l.push_back(std::make_pair(k, v)); ix[k] = --l.end(); };
    switch (g.below(8)) { case 0: case 1: if (p == ix.end()) add(i); c.set(k, i); break; case 2: case 3: case 4: if (p != ix.end()) { VCHECK(c.has(k), "entry " << k << " was lost: " << d << " at operation " << i); VEQ(c.get(k), p->second->second, "get: " << d << " at operation " << i); touch(); n_hit++; } else { VCHECK(!c.has(k), "entry " << k << " outlived its eviction: " << d << " at operation " << i); n_miss++; } break; case 5: c.touch(k); if (p != ix.end()) touch(); break; case 6: { int &v = c[k]; if (p != ix.end()) { VEQ(v, p->second->second, "[]: " << d << " at operation " << i); touch(); } else { VEQ(v, 0, "new entry"); l.push_back(std::make_pair(k, 0)); ix[k] = --l.end(); while ((int)l.size() > cap) { ix.erase(l.front().first); l.pop_front(); n_evict++; } } break; } default: if (g.chance(1, 4)) { c.remove(k); if (p != ix.end()) { l.erase(p->second); ix.erase(p); } } } }
  for (int k = 0; k < keys; k++) VCHECK(c.has(k) == (ix.count(k) > 0), "has(" << k << ") = " << c.has(k) << " at the end: " << d);
  V::nontrivial(V::hash_str(d) + idx); V::cmax("largest capacity", cap); V::cmax("longest history", n);
}
// arguments that are references into the cache itself
static void alias(V::Rng &g, uint64_t i) {
  int cap = 1 + g.below(5); std::ostringstream o; o << "alias cap=" << cap; lru<std::string, std::string> c(cap); std::vector<std::pair<std::string, std::string> > m; auto pay = [&](int k) { return "a-value-that-lives-on-the-heap-" + std::to_string(k); };
  auto find = [&](const std::string &k) { for (size_t j = 0; j < m.size(); j++) if (m[j].first == k) return (int)j; return -1; }; auto touch = [&](int p) { auto x = m[p]; m.erase(m.begin() + p); m.push_back(x); };
  for (int s = 0; s < 40; s++) {
    if (m.empty() || g.chance(1, 4)) { std::string k = pay(1000 + g.below(8)), v = pay(s); o << " set"; V::cur(o.str()); c.set(k, v); if (find(k) < 0) { while ((int)m.size() >= cap) m.erase(m.begin()); m.push_back(std::make_pair(k, v)); } }
    else { int p = g.below(m.size()); std::string from = m[p].first, v = m[p].second; switch (g.below(3)) { case 0: { std::string k = pay(1000 + g.below(8)); o << " copy" << p; V::cur(o.str()); c.set(k, c.get(from)); touch(p); if (find(k) < 0) { while ((int)m.size() >= cap) m.erase(m.begin()); m.push_back(std::make_pair(k, v)); } break; } case 1: { o << " keyof" << p; V::cur(o.str()); c.set(c.get(from), pay(s)); touch(p); if (find(v) < 0) { while ((int)m.size() >= cap) m.erase(m.begin()); m.push_back(std::make_pair(v, pay(s))); } break; } default: o << " rm" << p; V::cur(o.str()); c.remove(from); m.erase(m.begin() + p); } }
    for (auto &e : m) VCHECK(c.has(e.first), "entry lost after " << o.str());
  }
  for (auto &e : std::vector<std::pair<std::string, std::string> >(m)) VEQ(c.get(e.first), e.second, "value after " << o.str()); V::nontrivial(V::hash_str(o.str()));
}
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("random operation histories compared after every step with a list model (membership of every key, values, eviction order at the end); distinct = distinct histories");
  V::cases("aliases", 400, 9, alias); V::cases("large", 12, 0.4, large); V::cases("int keys", 20000, 0.7, history<int>); V::cases("string keys", 10000, 1, history<std::string>);
  V::count("operations", n_ops); V::count("evictions", n_evict); V::count("hits", n_hit); V::count("misses", n_miss);
  return V::finish();
}
