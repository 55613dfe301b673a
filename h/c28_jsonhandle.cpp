#include "json_ref.h"
using namespace JR; using namespace pfi::text::json;
static std::atomic<uint64_t> n_ops, n_wrong, n_shared, n_nodes;
struct Node { T t; int64_t i; double d; std::string s; std::vector<int> a; std::map<std::string, int> o; Node(T x = Nul) : t(x), i(0), d(0) {} };
struct Model { std::vector<Node> n; int mk(const Node &x) { n.push_back(x); return n.size() - 1; }
  bool reach(int from, int to) { if (from == to) return true; for (int x : n[from].a) if (reach(x, to)) return true; for (auto &x : n[from].o) if (reach(x.second, to)) return true; return false; }
  int clone(int k) { Node c = n[k]; for (auto &x : c.a) x = clone(x); for (auto &x : c.o) x.second = clone(x.second); return mk(c); }
  size_t size(int k, size_t lim = 300) { size_t s = 1; for (int x : n[k].a) { if (s > lim) return s; s += size(x, lim); } for (auto &x : n[k].o) { if (s > lim) return s; s += size(x.second, lim); } return s; }
  bool eq(int p, int q, bool nc) { Node &a = n[p], &b = n[q]; if (nc && a.t == Int && b.t == Flt) return a.i == b.d; if (nc && a.t == Flt && b.t == Int) return a.d == b.i; if (a.t != b.t) return false; switch (a.t) { case Nul: return true; case Int: case Bol: return a.i == b.i; case Flt: return a.d == b.d; case Str: return a.s == b.s; case Arr: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!eq(a.a[i], b.a[i], nc)) return false; return true; default: if (a.o.size() != b.o.size()) return false; for (auto &x : a.o) { auto y = b.o.find(x.first); if (y == b.o.end() || !eq(x.second, y->second, nc)) return false; } return true; } } };
typedef std::map<int, const json_value *> Ids;
static void cmp(Model &m, int k, const json &j, Ids &ids, std::map<const json_value *, int> &rev, const std::string &log) {
  n_nodes++; const json_value *p = j.get(); auto it = ids.find(k); if (it == ids.end()) { VCHECK(rev.find(p) == rev.end(), "two values that should be separate share one node after " << log); ids[k] = p; rev[p] = k; } else { VCHECK(it->second == p, "handles that should share one value do not, after " << log); n_shared++; }
  Node &x = m.n[k]; static const json::json_type_t ty[] = {json::Null, json::Integer, json::Float, json::Bool, json::String, json::Array, json::Object}; VCHECK(j.type() == ty[x.t], "type " << j.type() << " expected " << x.t << " after " << log);
  switch (x.t) { case Nul: break; case Int: VEQ(json_cast<int64_t>(j), x.i, log); break; case Flt: VEQ(json_cast<double>(j), x.d, log); break; case Bol: VEQ(json_cast<bool>(j), x.i != 0, log); break; case Str: VEQ(json_cast<std::string>(j), x.s, log); break;
  case Arr: VEQ(j.size(), x.a.size(), "array size after " << log); for (size_t i = 0; i < x.a.size(); i++) cmp(m, x.a[i], j[i], ids, rev, log); break;
  default: { VEQ(j.size(), x.o.size(), "object size after " << log); size_t seen = 0; for (json::const_iterator p2 = j.begin(); p2 != j.end(); ++p2, ++seen) { VCHECK(x.o.count(p2->first), "unexpected member " << V::quote(p2->first) << " after " << log); VEQ(j.count(p2->first), 1u, log); } VEQ(seen, x.o.size(), "iterated members after " << log); for (auto &y : x.o) cmp(m, y.second, j[y.first], ids, rev, log); } } }
struct Pick { int mode; template <class A, class B> json operator()(const A &a, const B &b) const { if (mode == 0) return a; if (mode == 1) return b; json r(new json_array); r.add(a); r.add(b); return r; } };
static void history(V::Rng &g, uint64_t idx) {
  const int K = 4; Model m; json h[K]; int id[K]; for (int i = 0; i < K; i++) id[i] = m.mk(Node()); std::ostringstream log; int n = 1 + g.below(60); static const char *keys[] = {"a", "b", "", "key with \xe3\x81\x82", "c"};
  for (int s = 0; s < n; s++) {
    int i = g.below(K), j = g.below(K), op = g.below(21); const char *k = keys[g.below(5)]; int x = g.below(7); log << op << ":" << i << "," << j << "," << k[0] << x << " "; V::cur(log.str()); ++n_ops; std::string L = log.str();
    Node &ni = m.n[id[i]]; bool obj = ni.t == Obj, arr = ni.t == Arr; bool cyc = m.reach(id[j], id[i]); if (m.size(id[i]) + m.size(id[j]) > 50 && op != 0) op = 1;
#define WRONG(stmt) { bool th = false; try { stmt; } catch (const std::bad_cast &) { th = true; } VCHECK(th, #stmt << " on the wrong kind of value did not throw bad_cast after " << L); ++n_wrong; break; }
    switch (op) {
    case 0: { Node v; v.t = (T)x; json w; switch (v.t) { case Nul: w = json(new json_null); break; case Int: v.i = g.range(-3, 3); w = json(new json_integer(v.i)); break; case Flt: v.d = g.range(-6, 6) / 2.0; w = json(new json_float(v.d)); break; case Bol: v.i = g.below(2); w = json(new json_bool(v.i)); break; case Str: v.s = k; w = json(new json_string(k)); break; case Arr: w = json(new json_array); break; default: w = json(new json_object); } h[i] = w; id[i] = m.mk(v); break; }
    case 1: { bool o = g.chance(1, 2); h[i] = o ? json(new json_object) : json(new json_array); id[i] = m.mk(Node(o ? Obj : Arr)); break; }
    case 2: h[i] = h[j]; id[i] = id[j]; break;
    case 3: case 4: if (!obj) WRONG(h[i].add(k, h[j])) if (cyc) break; h[i].add(k, h[j]); ni.o[k] = id[j]; break;
    case 5: case 6: if (!arr) WRONG(h[i].add(h[j])) if (cyc) break; h[i].add(h[j]); ni.a.push_back(id[j]); break;
    case 7: if (!obj) WRONG(h[i][k] = h[j]) if (cyc) break; h[i][k] = h[j]; ni.o[k] = id[j]; break;
    case 8: if (!obj) WRONG(h[i][k]) { json &r = h[i][k]; bool isnew = !ni.o.count(k); if (isnew) { VCHECK(r.type() == json::Null, "a new member is null"); int z = m.mk(Node()); m.n[id[i]].o[k] = z; } int z = m.n[id[i]].o[k]; json t = r; h[i] = t; id[i] = z; } break;
    case 9: if (!obj) WRONG(((const json &)h[i])[k]) { bool th = false; try { const json &r = ((const json &)h[i])[k]; json t = r; h[j] = t; id[j] = ni.o.at(k); } catch (const std::out_of_range &) { th = true; } VCHECK(th == !m.n[id[i]].o.count(k) || i == j, "const access to a member after " << L); } break;
    case 10: if (!arr) WRONG(h[i][(size_t)0]) if (!ni.a.empty() && !cyc) { size_t q = g.below(ni.a.size()); h[i][q] = h[j]; ni.a[q] = id[j]; } break;
    case 11: if (!arr) WRONG(((const json &)h[i])[(size_t)0]) if (!ni.a.empty()) { size_t q = g.below(ni.a.size()); int z = ni.a[q]; h[j] = ((const json &)h[i])[q]; id[j] = z; } break;
    case 12: { json c = h[i].clone(); int z = m.clone(id[i]); h[j] = c; id[j] = z; break; }
    case 13: case 14: { if (!obj) WRONG(h[i].merge(h[j])) if (m.n[id[j]].t != Obj) WRONG(h[i].merge(h[j])) json r = g.chance(1, 2) ? h[i].merge(h[j]) : merge(h[i], h[j]); Node v(Obj); v.o = ni.o; for (auto &y : m.n[id[j]].o) v.o[y.first] = y.second; int z = m.mk(v), t = g.below(K); h[t] = r; id[t] = z; break; }
    case 15: { if (!obj || m.n[id[j]].t != Obj) WRONG(h[i].merge_with(h[j], Pick())) Pick f; f.mode = x % 3; json r = g.chance(1, 2) ? h[i].merge_with(h[j], f) : merge_with(h[i], h[j], f); Node v(Obj); v.o = ni.o; std::map<std::string, int> oj = m.n[id[j]].o; for (auto &y : oj) { auto p = v.o.find(y.first); if (p == v.o.end()) v.o[y.first] = y.second; else if (f.mode == 1) p->second = y.second; else if (f.mode == 2) { Node av(Arr); av.a.push_back(p->second); av.a.push_back(y.second); p->second = m.mk(av); } } int z = m.mk(v), t = g.below(K); h[t] = r; id[t] = z; break; }
    case 16: if (!obj) WRONG(h[i].count(k)) VEQ(h[i].count(k), m.n[id[i]].o.count(k), L); break;
    case 17: if (!obj && !arr) WRONG(h[i].size()) VEQ(h[i].size(), obj ? ni.o.size() : ni.a.size(), L); break;
    case 18: if (!obj) WRONG(h[i].begin()) { int cnt = 0; for (json::iterator p = h[i].begin(); p != h[i].end(); ++p) if (++cnt && g.chance(1, 3) && !m.reach(id[j], id[i])) { p->second = h[j]; m.n[id[i]].o[p->first] = id[j]; } } break;
    case 19: if (!obj) WRONG(h[i].end()) break;
    case 20: { bool th = false; if (ni.t != Int) { try { json_cast<int>(h[i]); } catch (const std::bad_cast &) { th = true; } VCHECK(th, "json_cast<int> of another kind after " << L); } break; }
    }
    Ids ids; std::map<const json_value *, int> rev; for (int q = 0; q < K; q++) cmp(m, id[q], h[q], ids, rev, L);
    for (int p = 0; p < K; p++) for (int q = 0; q < K; q++) { bool e = m.eq(id[p], id[q], true), e2 = m.eq(id[p], id[q], false); VCHECK((h[p] == h[q]) == e && (h[p] != h[q]) == !e && equals(h[p], h[q]) == e, "== of handles " << p << "," << q << " after " << L); VCHECK(equals(h[p], h[q], false) == e2, "strict equals of handles " << p << "," << q << " after " << L); }
  }
  V::nontrivial(V::hash_str(log.str())); if (idx < 3) V::sample(log.str());
}
// pairs of trees of one shape that differ in the kind of a number, a value, a member or nothing
static void tweak(J &j, V::Rng &g, int &k, int kind) { if (k-- == 0) switch (kind) { case 0: if (j.t == Int) { j.t = Flt; j.d = j.i; } else if (j.t == Flt && j.d == (int64_t)j.d) { j.t = Int; j.i = (int64_t)j.d; } return; case 1: if (j.t == Int) j.i++; else if (j.t == Flt) j.d += 0.5; else if (j.t == Bol) j.i = !j.i; else if (j.t == Str) j.s += "x"; else if (j.t == Arr) j.a.push_back(J()); else if (j.t == Obj) j.o["new"] = J(); else { j.t = Int; j.i = 0; } return; case 2: if (j.t == Arr && j.a.size()) j.a.pop_back(); else if (j.t == Obj && j.o.size()) { J v = j.o.begin()->second; j.o.erase(j.o.begin()); if (g.chance(1, 2)) j.o["renamed"] = v; } return; default: return; } for (auto &x : j.a) tweak(x, g, k, kind); for (auto &x : j.o) tweak(x.second, g, k, kind); }
static int load(Model &m, const J &j) { Node n(j.t); n.i = j.i; n.d = j.d; n.s = j.s; for (auto &x : j.a) n.a.push_back(load(m, x)); for (auto &x : j.o) n.o[x.first] = load(m, x.second); return m.mk(n); }
static void small(J &j, V::Rng &g) { if (j.t == Int) j.i = g.range(-2, 2); if (j.t == Flt) j.d = g.range(-4, 4) / 2.0; for (auto &x : j.a) small(x, g); for (auto &x : j.o) small(x.second, g); }
static void equality(V::Rng &g, uint64_t) { int fuel = 1 + g.below(14); J a = JR::gen(g, 5, fuel); small(a, g); J b = a; int m = g.below(3); for (int i = 0; i < m; i++) { int k = g.below(14), kind = g.chance(2, 3) ? 0 : 1 + g.below(2); tweak(b, g, k, kind); } V::cur(show(a) + " and " + show(b)); Model md; int p = load(md, a), q = load(md, b); json x = to_lib(a), y = to_lib(b); bool e = md.eq(p, q, true), e2 = md.eq(p, q, false);
  VCHECK((x == y) == e && (y == x) == e && (x != y) == !e && equals(x, y, true) == e, "== of " << show(a) << " and " << show(b)); VCHECK(equals(x, y, false) == e2 && equals(y, x, false) == e2, "strict equals of " << show(a) << " and " << show(b)); VCHECK(equals(x, x.clone(), false), "a clone differs"); V::count(e2 ? "pairs equal" : e ? "pairs equal but for number kinds" : "pairs different"); V::nontrivial(V::hash_str(show(a) + show(b))); }
// containers of thousands of elements, with the same model
static void large(V::Rng &g, uint64_t idx) {
  static const size_t K[] = {257, 1500, 5000, 20000, 66000}; size_t n = K[idx % 5]; V::cur("large containers of " + std::to_string(n)); Model m; m.n.reserve(12 * n + 100); int ids[4] = {m.mk(Node(Arr)), m.mk(Node(Obj)), m.mk(Node(Obj)), 0}; json a(new json_array), o(new json_object), o2(new json_object);
  for (size_t i = 0; i < n; i++) { Node v(Int); v.i = i; int k = m.mk(v); json j(new json_integer(i)); a.add(j); m.n[ids[0]].a.push_back(k); std::string key = "k" + std::to_string(g.below(2 * n)); if (g.chance(1, 2)) o.add(key, j); else o[key] = j; m.n[ids[1]].o[key] = k; key = "k" + std::to_string(g.below(2 * n)); Node w(Str); w.s = key; int k2 = m.mk(w); json s(new json_string(key)); o2[key] = s; m.n[ids[2]].o[key] = k2; n_ops += 3; }
  for (size_t i = 0; i < n / 8; i++) { size_t q = g.below(n); Node v(Bol); v.i = q & 1; int k = m.mk(v); json j(new json_bool(q & 1)); a[q] = j; m.n[ids[0]].a[q] = k; } V::tick();
  json mg = o.merge(o2); Node v(Obj); v.o = m.n[ids[1]].o; for (auto &y : m.n[ids[2]].o) v.o[y.first] = y.second; int im = m.mk(v); Pick f; f.mode = 0; json mw = o.merge_with(o2, f); Node v2(Obj); v2.o = m.n[ids[2]].o; for (auto &y : m.n[ids[1]].o) v2.o[y.first] = y.second; int iw = m.mk(v2); json cl = a.clone(); int ic = m.clone(ids[0]); V::tick();
  Ids idm; std::map<const json_value *, int> rev; std::string L = "large containers of " + std::to_string(n); cmp(m, ids[0], a, idm, rev, L); cmp(m, ids[1], o, idm, rev, L); V::tick(); cmp(m, ids[2], o2, idm, rev, L); cmp(m, im, mg, idm, rev, L); V::tick(); cmp(m, iw, mw, idm, rev, L); cmp(m, ic, cl, idm, rev, L);
  VCHECK(cl == a, "a large array differs from its clone"); size_t q = idx % 2 ? n - 1 : g.below(n); cl[q] = json(new json_string("changed")); VCHECK(cl != a, "two arrays of " << n << " elements that differ at " << q << " compare equal"); json oc = o.clone(); VCHECK(oc == o, "a large object differs from its clone"); oc.begin()->second = json(new json_string("changed")); VCHECK(oc != o, "two large objects that differ compare equal"); V::nontrivial(n * 31 + idx); V::count("large containers"); }
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("random edit histories over four json handles; after every step the whole trees, the sharing of nodes and the equality of all pairs are compared with a node-graph model; distinct = distinct histories");
  V::cases("large", 5, 9, large); V::cases("equality", 12000, 0.6, equality); V::cases("histories", 60000, 1, history); V::count("operations", n_ops); V::count("wrong-kind operations refused", n_wrong); V::count("shared nodes observed", n_shared); V::count("nodes compared", n_nodes); return V::finish();
}
