#include "conc.h"
#include <concurrent/mvar.h>
#include <concurrent/lock.h>
using namespace pfi::concurrent;
enum { PUT, TAKE, READ, TPUT, TTAKE, SWAP, EMPTY };
static const char *const NAMES[] = {"put", "take", "read", "try_put", "try_take", "swap", "empty"};
struct Model {
  typedef int64_t State; int64_t first; State init() const { return first; } uint64_t key(const State &s) const { return V::mix64(s); }
  bool apply(State &s, const V::Op &o) const {
    switch (o.kind) {
    case PUT: if (s) return false; s = o.arg; return true;
    case TAKE: if (!s || s != o.res) return false; s = 0; return true;
    case READ: return s && s == o.res;
    case TPUT: if (o.ok) { if (s) return false; s = o.arg; return true; } return s != 0;
    case TTAKE: if (o.ok) { if (!s || s != o.res) return false; s = 0; return true; } return s == 0;
    case SWAP: if (!s || s != o.res) return false; s = o.arg; return true;
    case EMPTY: return o.ok == (s == 0);
    }
    return false;
  }
};
struct Item { std::string s; Item() {} Item(int64_t v) : s("mvar-payload-living-on-the-heap-" + std::to_string(v)) {} int64_t v() const { return s.size() > 32 ? atoll(s.c_str() + 32) : -1; } };
static std::atomic<uint64_t> n_ops, n_rescue, n_blocked, n_tryfail;
static void nap(long us) { struct timespec ts = {0, us * 1000}; nanosleep(&ts, 0); }

static void round_(V::Rng &g, uint64_t idx) {
  int nt = 2 + g.below(4), per = 3 + g.below(5); bool full = g.chance(1, 3); int mode = g.below(4);
  std::unique_ptr<mvar<Item> > mv(full ? new mvar<Item>(Item(7777)) : new mvar<Item>()); Model mod; mod.first = full ? 7777 : 0;
  V::PT().level = g.below(4); V::PT().spurious = g.chance(1, 2); V::cur("round threads " + std::to_string(nt) + " mode " + std::to_string(mode));
  std::vector<std::vector<V::Op> > log(nt + 1); std::vector<std::atomic<int> > pend(nt); for (auto &p : pend) p = -1; std::atomic<uint64_t> steps(0); std::atomic<int> fin(0); V::Gate gate(nt); std::vector<std::thread> ts;
  for (int t = 0; t < nt; t++) { uint64_t sd = g.u64(); ts.emplace_back([&, t, sd]() {
      V::Rng r(sd); V::perturb_me(sd + 1); gate.arrive();
      for (int i = 0; i < per; i++) {
        V::Op o; o.thread = t; o.arg = (t + 1) * 100 + i; o.res = 0; o.ok = true; int k = r.below(14);
        o.kind = k < 3 ? PUT : k < 6 ? TAKE : k < 7 ? READ : k < 9 ? TPUT : k < 11 ? TTAKE : k < 13 ? SWAP : EMPTY;
        if (mode == 1 && o.kind == SWAP) o.kind = TAKE; if (mode == 2) o.kind = t % 2 ? (r.chance(3, 4) ? PUT : TPUT) : (r.chance(1, 3) ? TAKE : r.chance(1, 2) ? SWAP : READ);
        if (mode == 3 && (o.kind == TPUT || o.kind == TTAKE)) o.kind = r.chance(1, 2) ? PUT : TAKE;
        Item it(o.arg), out; pend[t] = o.kind; uint64_t t0 = V::now_us(); o.inv = V::stamp();
        switch (o.kind) { case PUT: mv->put(it); break; case TAKE: out = mv->take(); break; case READ: out = mv->read(); break; case TPUT: o.ok = mv->try_put(it); break; case TTAKE: o.ok = mv->try_take(out); break; case SWAP: out = mv->swap(it); break; case EMPTY: o.ok = mv->empty(); break; }
        o.ret = V::stamp(); if (o.kind == TAKE || o.kind == READ || o.kind == SWAP || (o.kind == TTAKE && o.ok)) o.res = out.v();
        if (o.kind == TTAKE && !o.ok) { n_tryfail++; VCHECK(out.v() == -1, "failed try_take wrote its result"); } if (o.kind == TPUT && !o.ok) n_tryfail++;
        if (V::now_us() - t0 > 1000) n_blocked++;
        pend[t] = -1; log[t].push_back(o); steps++; n_ops++; V::tick();
      }
      fin++; }); }
  uint64_t last = ~0ULL, since = V::now_us(); int64_t rv = 9000;
  while (fin < nt) {
    nap(120); uint64_t s = steps; if (s != last) { last = s; since = V::now_us(); continue; } if (V::now_us() - since < 3000) continue;
    bool em = mv->empty(), wput = false, wtake = false; for (auto &p : pend) { int k = p; if (k == PUT) wput = true; if (k == TAKE || k == READ || k == SWAP) wtake = true; if (k == TPUT || k == TTAKE || k == EMPTY) { if (V::now_us() - since > 15000000) VFAIL(NAMES[k] << " blocks"); } }
    if ((wput && em) || (wtake && !em)) { if (V::now_us() - since > 15000000) VFAIL("an operation stays blocked although the variable is " << (em ? "empty" : "full") << " (waiting: " << (wput ? "put " : "") << (wtake ? "take/read/swap" : "") << ")"); V::tick(); continue; }
    if (!wput && !wtake) continue;
    V::Op o; o.thread = nt; o.res = 0; o.arg = 0; Item out; n_rescue++;
    if (wtake) { o.kind = TPUT; o.arg = rv++; Item it(o.arg); o.inv = V::stamp(); o.ok = mv->try_put(it); o.ret = V::stamp(); } else { o.kind = TTAKE; o.inv = V::stamp(); o.ok = mv->try_take(out); o.ret = V::stamp(); if (o.ok) o.res = out.v(); }
    log[nt].push_back(o); since = V::now_us();
  }
  for (auto &t : ts) t.join();
  std::vector<V::Op> h; for (auto &l : log) h.insert(h.end(), l.begin(), l.end());
  for (int k = 0; k < 2; k++) { V::Op o; Item out; o.thread = nt; o.kind = k ? EMPTY : TTAKE; o.arg = o.res = 0; o.inv = V::stamp(); o.ok = k ? mv->empty() : mv->try_take(out); o.ret = V::stamp(); if (!k && o.ok) o.res = out.v(); h.push_back(o); }
  if (h.size() <= 62) { V::Lin<Model> lin(mod, h); if (!lin.run()) VFAIL("history is not linearizable to a one-place cell (initially " << mod.first << "): " << V::show_history(h, NAMES)); V::count(lin.gaveup ? "gave up" : "histories checked"); }
  V::nontrivial(V::shape_of(h)); if (idx < 2) V::sample(V::show_history(h, NAMES));
}
static void blocked(V::Rng &g, uint64_t i) {
  int what = g.below(4), n = 1 + g.below(4); V::cur("blocked " + std::to_string(what) + " x" + std::to_string(n)); V::PT().spurious = g.chance(1, 2);
  mvar<Item> mv; if (what == 0) mv.put(Item(50)); std::atomic<int> done(0); std::vector<std::thread> ts; std::vector<int64_t> got(n);
  for (int k = 0; k < n; k++) ts.emplace_back([&, k]() { V::perturb_me(i * 7 + k); if (what == 0) mv.put(Item(100 + k)); else if (what == 1) got[k] = mv.take().v(); else if (what == 2) got[k] = mv.read().v(); else got[k] = mv.swap(Item(100 + k)).v(); done++; });
  nap(200 + g.below(1200)); VCHECK(done == 0, NAMES[what == 3 ? 5 : what] << " did not block");
  V::perturb_me(i);
  if (what == 0) { std::set<int64_t> s; for (int k = 0; k <= n; k++) s.insert(mv.take().v()); VCHECK(s.size() == (size_t)n + 1 && s.count(50) && mv.empty(), "puts"); }
  else if (what == 1) { for (int k = 0; k < n; k++) mv.put(Item(100 + k)); }
  else mv.put(Item(99));
  V::unperturb_me();
  for (auto &t : ts) t.join();
  if (what == 1) { std::sort(got.begin(), got.end()); for (int k = 0; k < n; k++) VEQ(got[k], (int64_t)100 + k, "takes"); VCHECK(mv.empty(), "not empty"); }
  if (what == 2) { for (int k = 0; k < n; k++) VEQ(got[k], (int64_t)99, "reads"); VEQ(mv.take().v(), (int64_t)99, "value removed by read"); }
  if (what == 3) { std::set<int64_t> s(got.begin(), got.end()); s.insert(mv.take().v()); VCHECK(s.size() == (size_t)n + 1 && s.count(99), "swaps lost or duplicated a value"); VCHECK(mv.empty(), "empty"); }
  V::nontrivial(V::mix64(what * 16 + n));
}
// ownership transfer chain: the value protects non-atomic data
static void token(V::Rng &g, uint64_t idx) {
  int nt = 2 + g.below(4); mvar<int> mv(1); long a = 0, b = 0; V::PT().level = g.below(3); V::PT().spurious = true; V::cur("token"); std::vector<std::thread> ts; int per = 60;
  for (int t = 0; t < nt; t++) ts.emplace_back([&, t]() { V::perturb_me(idx * 5 + t); for (int i = 0; i < per; i++) { int tok = mv.take(); VCHECK(a == b, "two holders of one token"); a++; if (i % 3 == 0) sched_yield(); b++; VCHECK(a == b, "two holders"); mv.put(tok + 1); V::tick(); } });
  for (auto &t : ts) t.join();
  VEQ(mv.take(), 1 + nt * per, "token count"); VEQ(a, (long)nt * per, "updates"); V::nontrivial(idx + 12345);
}
int main(int argc, char **argv) {
  V::init(argc, argv, 40); V::PT().on = true;
  V::rule("random concurrent histories of put/take/read/try_put/try_take/swap/empty checked for linearizability to a one-place cell; distinct = distinct invocation/response orders");
  V::cases("blocked", 120, 0.25, blocked); V::cases("token", 60, 0.45, token); V::cases("rounds", 2500, 1, round_);
  V::count("operations", n_ops); V::count("blocked operations", n_blocked); V::count("refused try operations", n_tryfail); V::count("rescues", n_rescue); V::count("spurious wake-ups injected", V::PT().spurious_n);
  return V::finish();
}
