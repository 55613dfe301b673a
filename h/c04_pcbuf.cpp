#include "conc.h"
#include <concurrent/pcbuf.h>
using namespace pfi::concurrent;

enum { PUSH, TPUSH, POP, TPOP, CLEAR, SIZE, EMPTY };
static const char *const NAMES[] = {"push", "tpush", "pop", "tpop", "clear", "size", "empty"};
struct Model {
  typedef std::vector<int64_t> State; size_t cap;
  State init() const { return State(); }
  uint64_t key(const State &s) const { uint64_t x = 3; for (size_t i = 0; i < s.size(); i++) x = V::mix64(x ^ (uint64_t)s[i]); return x; }
  bool apply(State &s, const V::Op &o) const {
    switch (o.kind) {
    case PUSH: if (s.size() >= cap) return false; s.push_back(o.arg); return true;
    case TPUSH: if (o.ok) { if (s.size() >= cap) return false; s.push_back(o.arg); return true; } return s.size() >= cap;
    case POP: if (s.empty() || s[0] != o.res) return false; s.erase(s.begin()); return true;
    case TPOP: if (o.ok) { if (s.empty() || s[0] != o.res) return false; s.erase(s.begin()); return true; } return s.empty();
    case CLEAR: s.clear(); return true;
    case SIZE: return (size_t)o.res == s.size();
    case EMPTY: return o.ok == s.empty();
    }
    return false;
  }
};
struct Item { std::string s; Item() {} explicit Item(int64_t v) : s("item-payload-on-the-heap-" + std::to_string(v)) {} int64_t v() const { return s.size() > 25 ? atoll(s.c_str() + 25) : -1; } };
static std::atomic<uint64_t> n_ops, n_to, n_rescue, n_blocked, n_items;
static void nap(long us) { struct timespec ts = {0, us * 1000}; nanosleep(&ts, 0); }

static void round_(V::Rng &g, uint64_t idx) {
  size_t cap = 1 + g.below(3); int nt = 2 + g.below(4), per = 3 + g.below(4); bool clears = g.chance(1, 3);
  pcbuf<Item> q(cap); Model mod; mod.cap = cap; V::PT().level = g.below(4); V::PT().spurious = g.chance(1, 2);
  V::cur("round cap " + std::to_string(cap) + " threads " + std::to_string(nt));
  VEQ(q.capacity(), cap, "capacity");
  std::vector<std::vector<V::Op> > log(nt + 1); std::vector<std::atomic<int> > pend(nt); std::atomic<uint64_t> steps(0); std::atomic<int> fin(0);
  for (int t = 0; t < nt; t++) pend[t] = -1;
  V::Gate gate(nt); std::vector<std::thread> ts; int bias = g.below(3);
  for (int t = 0; t < nt; t++) {
    uint64_t sd = g.u64();
    ts.emplace_back([&, t, sd]() {
      V::Rng r(sd); V::perturb_me(sd + 5); gate.arrive();
      for (int i = 0; i < per; i++) {
        V::Op o; o.thread = t; o.arg = t * 100 + i; o.res = 0; o.ok = true;
        int k = r.below(12); o.kind = k < 3 ? PUSH : k < 5 ? TPUSH : k < 8 ? POP : k < 10 ? TPOP : clears && k == 10 ? CLEAR : r.chance(1, 2) ? SIZE : EMPTY;
        if (bias == 1 && t % 2 == 0 && o.kind == POP) o.kind = PUSH;
        if (bias == 1 && t % 2 == 1 && o.kind == PUSH) o.kind = POP;
        double to = r.chance(1, 3) ? 0 : r.chance(1, 5) ? -1 : r.unit() * 0.003; Item it; if (o.kind == PUSH || o.kind == TPUSH) it = Item(o.arg);
        pend[t] = o.kind; uint64_t t0 = V::real_us();
        o.inv = V::stamp();
        switch (o.kind) {
        case PUSH: q.push(it); break;
        case TPUSH: o.ok = q.push(it, to); break;
        case POP: q.pop(it); break;
        case TPOP: o.ok = q.pop(it, to); break;
        case CLEAR: q.clear(); break;
        case SIZE: o.res = q.size(); break;
        case EMPTY: o.ok = q.empty(); break;
        }
        o.ret = V::stamp();
        if (o.kind == POP || (o.kind == TPOP && o.ok)) o.res = it.v();
        double e = (V::real_us() - t0) / 1e6;
        if ((o.kind == TPUSH || o.kind == TPOP) && !o.ok) { n_to++; VCHECK(e + 0.0003 >= to, NAMES[o.kind] << " with timeout " << to << " gave up after " << e); }
        if ((o.kind == PUSH || o.kind == POP) && e > 0.001) n_blocked++;
        pend[t] = -1; log[t].push_back(o); steps++; n_ops++; V::tick();
      }
      fin++;
    });
  }
  // rescuer: when everybody is blocked and nothing is enabled, make one step; when something is enabled and stays blocked, that is a lost wake-up
  uint64_t last = ~0ULL, since = V::now_us(); int64_t rv = 9000;
  while (fin < nt) {
    nap(150);
    uint64_t s = steps; if (s != last) { last = s; since = V::now_us(); continue; }
    if (V::now_us() - since < 4000) continue;
    size_t sz = q.size(); bool wp = false, wc = false; for (int t = 0; t < nt; t++) { int k = pend[t]; if (k == PUSH) wp = true; if (k == POP) wc = true; }
    if ((wp && sz < cap) || (wc && sz > 0)) {
      if (V::now_us() - since > 15000000) VFAIL("a blocked " << (wp && sz < cap ? "push" : "pop") << " is not released although the buffer holds " << sz << " of " << cap);
      V::tick();
      continue;
    }
    if (!wp && !wc) continue;
    V::Op o; o.thread = nt; o.res = 0; Item it; n_rescue++;
    if (wc) { o.kind = TPUSH; o.arg = rv++; it = Item(o.arg); o.inv = V::stamp(); o.ok = q.push(it, 0); o.ret = V::stamp(); }
    else { o.kind = TPOP; o.arg = 0; o.inv = V::stamp(); o.ok = q.pop(it, 0); o.ret = V::stamp(); if (o.ok) o.res = it.v(); }
    log[nt].push_back(o); since = V::now_us();
  }
  for (auto &t : ts) t.join();
  std::vector<V::Op> h; for (auto &l : log) h.insert(h.end(), l.begin(), l.end());
  { V::Op o; o.thread = nt; o.kind = SIZE; o.arg = 0; o.ok = true; o.inv = V::stamp(); o.res = q.size(); o.ret = V::stamp(); h.push_back(o); VCHECK((size_t)o.res <= cap, "size over capacity"); }
  for (;;) { V::Op o; Item it; o.thread = nt; o.kind = TPOP; o.arg = 0; o.res = 0; o.inv = V::stamp(); o.ok = q.pop(it, 0); o.ret = V::stamp(); if (o.ok) o.res = it.v(); h.push_back(o); if (!o.ok) break; }
  if (h.size() <= 62) {
    V::Lin<Model> lin(mod, h);
    if (!lin.run()) VFAIL("history is not linearizable to a FIFO queue of capacity " << cap << ": " << V::show_history(h, NAMES));
    if (lin.gaveup) V::count("linearizability search gave up"); else V::count("histories checked");
  }
  V::nontrivial(V::shape_of(h));
  if (idx < 2) V::sample("cap " + std::to_string(cap) + ": " + V::show_history(h, NAMES));
}

static void pipeline(V::Rng &g, uint64_t idx) {
  size_t cap = 1 + g.below(5); int np = 1 + g.below(4), nc = 1 + g.below(4), per = 60; pcbuf<Item> q(cap);
  V::PT().level = g.below(3); V::PT().spurious = g.chance(1, 2);
  V::cur("pipeline cap " + std::to_string(cap) + " " + std::to_string(np) + "x" + std::to_string(nc));
  std::vector<std::vector<int64_t> > got(nc); std::vector<std::thread> ts; std::atomic<int> left(np * per); std::atomic<bool> stop(false);
  for (int t = 0; t < np; t++) { uint64_t sd = g.u64(); ts.emplace_back([&, t, sd]() { V::Rng r(sd); V::perturb_me(sd); for (int i = 0; i < per; i++) { Item it(t * 1000 + i); if (r.chance(1, 3)) { while (!q.push(it, r.unit() * 0.001)) n_to++; } else q.push(it); V::tick(); } }); }
  for (int t = 0; t < nc; t++) { uint64_t sd = g.u64(); ts.emplace_back([&, t, sd]() { V::Rng r(sd); V::perturb_me(sd); while (left.fetch_sub(1) > 0) { Item it; if (r.chance(1, 3)) { while (!q.pop(it, r.unit() * 0.001)) n_to++; } else q.pop(it); got[t].push_back(it.v()); V::tick(); } }); }
  std::thread mon([&]() { while (!stop) { size_t s = q.size(); VCHECK(s <= cap, "buffer of capacity " << cap << " holds " << s); q.empty(); nap(50); } });
  for (auto &t : ts) t.join();
  stop = true; mon.join();
  std::set<int64_t> all; for (int c = 0; c < nc; c++) { std::vector<int> last(np, -1); for (int64_t v : got[c]) { VCHECK(v >= 0 && v / 1000 < np && v % 1000 < per, "invented element " << v); VCHECK(all.insert(v).second, "element " << v << " delivered twice"); VCHECK(last[v / 1000] < v % 1000, "producer " << v / 1000 << " reordered"); last[v / 1000] = v % 1000; n_items++; } }
  VCHECK((int)all.size() == np * per && q.empty() && q.size() == 0, "lost elements: " << all.size() << " of " << np * per);
  V::nontrivial(V::mix64(idx + 0x888));
}
// timeouts: honest lower bound, best-of-n upper bound, unaffected by wake-ups that do not help
static void timing(V::Rng &g, uint64_t) {
  static const double T[] = {0.0, 0.001, 0.01, 0.03, 0.06}; double to = T[g.below(5)]; bool pushing = g.chance(1, 2), noise = g.chance(1, 2); double best = 1e9;
  std::ostringstream o; o << "timing " << (pushing ? "push " : "pop ") << to << (noise ? " noisy" : ""); V::cur(o.str());
  for (int k = 0; k < 5 && best > to * 1.3 + 0.02; k++) {
    pcbuf<int> q(2); if (pushing) { q.push(1); q.push(2); } std::atomic<bool> stop(false), fin(false);
    // noise: wake-ups that leave the buffer as it is for the waiter (pop-then-push under full cannot be atomic, so only the empty case is noisy)
    std::thread nz([&]() { while (!stop) { if (!pushing && noise) q.clear(); nap(1500); } });
    uint64_t t0 = V::real_us(); int v = 77; bool r = pushing ? q.push(3, to) : q.pop(v, to); double e = (V::real_us() - t0) / 1e6; stop = true; nz.join();
    VCHECK(!r, o.str() << ": reported success on a " << (pushing ? "full" : "empty") << " buffer"); VCHECK(e + 0.0003 >= to, o.str() << " gave up after " << e);
    VCHECK(q.size() == (pushing ? 2u : 0u), "failed operation changed the buffer"); if (!pushing) VCHECK(v == 77, "failed pop wrote its result");
    best = std::min(best, e); V::tick();
  }
  VCHECK(best < to * 1.6 + 0.1, o.str() << " took at least " << best << " s");
  V::nontrivial(V::hash_str(o.str()));
}
// clear releases blocked producers; a long timed operation succeeds once possible
static void release(V::Rng &g, uint64_t i) {
  int what = g.below(4); V::cur("release " + std::to_string(what));
  pcbuf<int> q(2); std::atomic<int> done(0); int v = 0; std::vector<std::thread> ts; int n = 1 + g.below(3);
  if (what < 2) { q.push(1); q.push(2); if (what == 0 && n > 2) n = 2; for (int k = 0; k < n; k++) ts.emplace_back([&, k]() { V::perturb_me(i + k); if (what == 0) q.push(10 + k); else VCHECK(q.push(10 + k, 30), "timed push with room made failed"); done++; });
    nap(500 + g.below(2000)); VCHECK(done == 0, "push into a full buffer returned"); q.clear(); if (what == 1 && n > 2) { while (done < 2) nap(100); VCHECK(q.pop(v, 30), "pop"); } for (auto &t : ts) t.join(); VCHECK((int)q.size() == (what == 1 && n > 2 ? n - 1 : n), "size after clear and released pushes " << q.size()); }
  else { std::vector<int> got(n, 0); for (int k = 0; k < n; k++) ts.emplace_back([&, k]() { V::perturb_me(i + k); int x = 0; if (what == 2) q.pop(x); else VCHECK(q.pop(x, 30), "timed pop with an element failed"); got[k] = x; done++; });
    nap(500 + g.below(2000)); VCHECK(done == 0, "pop from an empty buffer returned"); for (int k = 0; k < n; k++) q.push(10 + k); for (auto &t : ts) t.join(); std::sort(got.begin(), got.end()); for (int k = 0; k < n; k++) VEQ(got[k], 10 + k, "released pops"); VCHECK(q.empty(), "not empty"); }
  V::nontrivial(V::mix64(what * 8 + n));
}
// long backlogs: order, size and the capacity limit hold for thousands of waiting elements
static void backlog(V::Rng &g, uint64_t i) {
  static const size_t K[] = {17, 40, 129, 257, 1025, 4097, 33000, 66000, 100003}; size_t cap = K[i % 9], n = i % 2 ? cap : cap - 1; std::ostringstream o; o << "backlog of " << n << " in a buffer of " << cap; V::cur(o.str()); pcbuf<int64_t> q(cap); V::PT().spurious = false;
  VEQ(q.capacity(), cap, o.str());
  for (int round = 0; round < 2; round++) {
    for (size_t k = 0; k < n; k++) { if ((k + round) % 3 == 0) VCHECK(q.push(k, 10.0), o.str() << ": timed push " << k << " refused"); else q.push(k); if (k % 1000 == 0) { VEQ(q.size(), k + 1, o.str()); V::tick(); } }
    VEQ(q.size(), n, o.str()); VCHECK(!q.empty(), o.str()); if (n == cap) { VCHECK(!q.push(-1, 0.001), o.str() << ": push into a full buffer succeeded"); VEQ(q.size(), n, o.str()); } else { VCHECK(q.push(n, 0.5), o.str() << ": the last place was refused"); VCHECK(!q.push(-1, 0.001), o.str() << ": push over capacity succeeded"); }
    if (i % 9 < 5 && round == 1) { q.clear(); VCHECK(q.empty() && q.size() == 0, o.str() << ": clear left elements"); continue; }
    for (size_t k = 0; k < cap; k++) { int64_t v = -5; if ((k + round) % 2) VCHECK(q.pop(v, 10.0), o.str() << ": timed pop " << k); else q.pop(v); VCHECK(v == (int64_t)k, o.str() << ": element " << k << " came out as " << v); if (k % 1000 == 0) { VEQ(q.size(), cap - k - 1, o.str()); V::tick(); } }
    int64_t v = -5; VCHECK(!q.pop(v, 0) && v == -5 && q.empty(), o.str() << ": not empty at the end");
  }
  // one producer far ahead of one consumer
  { pcbuf<int64_t> p(cap); size_t tot = std::min<size_t>(cap * 2 + 100, 60000); std::thread t([&]() { for (size_t k = 0; k < tot; k++) p.push(k); }); while (p.size() < std::min(cap, tot)) nap(50); for (size_t k = 0; k < tot; k++) { int64_t v = -5; p.pop(v); VCHECK(v == (int64_t)k, o.str() << ": concurrent element " << k << " came out as " << v); if (k % 1000 == 0) V::tick(); } t.join(); VCHECK(p.empty(), o.str()); }
  V::nontrivial(V::hash_str(o.str())); V::cmax("longest backlog", n);
}
int main(int argc, char **argv) {
  V::init(argc, argv, 40); V::PT().on = true;
  V::rule("random concurrent histories of push/pop/timed/clear/size/empty over capacity 1-3 checked for linearizability (Wing-Gong); pipelines checked for conservation and order; distinct = distinct invocation/response orders (interleavings)");
  V::cases("backlog", 9, 9, backlog); V::cases("timing", 40, 0.25, timing); V::cases("release", 80, 0.4, release); V::cases("pipeline", 60, 0.6, pipeline); V::cases("rounds", 1500, 1, round_);
  V::count("operations", n_ops); V::count("timeouts", n_to); V::count("blocked operations", n_blocked); V::count("rescues", n_rescue); V::count("items through pipelines", n_items); V::count("spurious wake-ups injected", V::PT().spurious_n);
  return V::finish();
}
