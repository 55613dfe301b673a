#include "conc.h"
#include <concurrent/qsem.h>
using namespace pfi::concurrent;
static std::atomic<uint64_t> n_w, n_s, n_peak, n_contended;
static void nap(long us) { struct timespec ts = {0, us * 1000}; nanosleep(&ts, 0); }
// outstanding = acquired - released, as seen between "wait returned" and "before signal": a lower bound of the true
// holding, so exceeding the supply is always a violation.
static void stress(V::Rng &g, uint64_t idx) {
  int init = g.below(6), nt = 2 + g.below(5), per = 40 + g.below(40), maxq = 1 + g.below(init > 0 ? init : 1); bool extra = init == 0 || g.chance(1, 3);
  std::ostringstream o; o << "stress init=" << init << " threads=" << nt << " maxq=" << maxq << (extra ? " extra" : ""); V::cur(o.str());
  V::PT().level = g.below(3); V::PT().spurious = g.chance(1, 2);
  qsem s(init); std::atomic<int> out(0), supply(init); int late = extra ? 1 + (int)g.below(4) : 0; if (init == 0) late = std::max(late, maxq);
  std::vector<std::thread> ts; V::Gate gate(nt); long excl_a = 0, excl_b = 0; bool binary = init + late == 1;
  for (int t = 0; t < nt; t++) { uint64_t sd = g.u64(); ts.emplace_back([&, t, sd]() {
      V::Rng r(sd); V::perturb_me(sd + 2); gate.arrive();
      for (int i = 0; i < per; i++) {
        int q = 1 + r.below(maxq), how = r.below(4); if (how == 1 || how == 2) q = 1;
        if (how == 0 || how == 3) VCHECK(s.wait(q), "wait returned false"); else if (how == 1) VCHECK(s.lock(), "lock returned false"); else { scoped_lock lk(s); VCHECK(lk, "scoped"); int v = ++out; VCHECK(v <= supply, o.str() << ": " << v << " units out, supply " << supply.load()); if (r.chance(1, 3)) sched_yield(); if (binary) { excl_a++; sched_yield(); excl_b++; VCHECK(excl_a == excl_b, "binary semaphore does not exclude"); } --out; n_w++; n_s++; V::tick(); continue; }
        int v = out += q; if (v > (int)n_peak) n_peak = v; if (v > 1) n_contended++;
        VCHECK(v <= supply, o.str() << ": " << v << " units out while the supply is " << supply.load() << " (after wait(" << q << "))");
        if (r.chance(1, 3)) sched_yield(); if (r.chance(1, 20)) nap(r.below(60));
        if (binary) { excl_a++; sched_yield(); excl_b++; VCHECK(excl_a == excl_b, "binary semaphore does not exclude"); }
        out -= q; n_w++;
        if (how == 1) VCHECK(s.unlock(), "unlock"); else if (q > 1 && r.chance(1, 3)) { int a = 1 + r.below(q - 1); VCHECK(s.signal(a), "signal"); VCHECK(s.signal(q - a), "signal"); } else if (q == 1) VCHECK(s.signal(), "signal"); else VCHECK(s.signal(q), "signal");
        n_s++; V::tick();
      } }); }
  if (late) { nap(g.below(2000)); supply += late; s.signal(late); }
  for (auto &t : ts) t.join();
  // conservation: exactly init+late units are available now
  for (int i = 0; i < init + late; i++) VCHECK(s.wait(1), "wait");
  std::atomic<int> got(0); std::thread probe([&]() { s.wait(1); got = 1; }); nap(1500); VCHECK(!got, o.str() << ": more units available at the end than were ever put in"); s.signal(1); probe.join(); VCHECK(got == 1, "probe");
  V::nontrivial(V::mix64(idx * 131 + init * 17 + nt)); if (idx < 3) V::sample(o.str());
}
// wait(q) blocks with fewer than q units and proceeds with exactly q; takes exactly q
static void exact(V::Rng &g, uint64_t i) {
  int q = 1 + g.below(9), have = g.below(q), more = g.below(4); std::ostringstream o; o << "exact q=" << q << " have=" << have << " surplus=" << more; V::cur(o.str()); V::PT().spurious = g.chance(1, 2);
  qsem s(have); std::atomic<int> done(0); std::thread t([&]() { V::perturb_me(i); VCHECK(s.wait(q), "wait"); done = 1; });
  nap(200 + g.below(500)); VCHECK(!done, o.str() << ": wait returned with too few units");
  int need = q - have; while (need > 1 && g.chance(1, 2)) { int a = 1 + g.below(need - 1); VCHECK(s.signal(a), "signal"); need -= a; nap(g.below(300)); VCHECK(!done, o.str() << ": wait returned with too few units"); }
  VCHECK(s.signal(need + more), "signal"); t.join();
  // exactly `more` units remain
  for (int k = 0; k < more; k++) VCHECK(s.lock(), "lock");
  std::atomic<int> got(0); std::thread p([&]() { s.wait(1); got = 1; }); nap(500); VCHECK(!got, o.str() << ": wait(q) took fewer than q units"); s.unlock(); p.join();
  V::nontrivial(V::hash_str(o.str()));
}
// several waiters with different needs: everyone whose need is met proceeds
static void herd(V::Rng &g, uint64_t i) {
  int n = 2 + g.below(5); V::cur("herd " + std::to_string(n)); V::PT().spurious = g.chance(1, 2); qsem s(0); std::atomic<int> done(0); std::vector<std::thread> ts; int sum = 0;
  for (int k = 0; k < n; k++) { int q = 1 + g.below(4); sum += q; ts.emplace_back([&, k, q]() { V::perturb_me(i * 3 + k); VCHECK(s.wait(q), "wait"); done++; }); }
  nap(200 + g.below(800)); VCHECK(done == 0, "wait on an empty semaphore returned"); if (g.chance(1, 2)) s.signal(sum); else { int left = sum; while (left) { int a = 1 + g.below(std::min(left, 3)); s.signal(a); left -= a; if (g.chance(1, 3)) nap(100); } }
  for (auto &t : ts) t.join(); VEQ(done.load(), n, "released");
  std::atomic<int> got(0); std::thread p([&]() { s.wait(1); got = 1; }); nap(400); VCHECK(!got, "units left over"); s.signal(); p.join();
  V::nontrivial(V::mix64(i * 3 + n));
}
// units are put in one by one while waiters with different needs wait: whoever the units suffice for proceeds
static void starve(V::Rng &g, uint64_t i) {
  int n = 2 + g.below(4); std::ostringstream o; o << "starve needs"; std::vector<int> need(n); for (auto &q : need) { q = g.chance(1, 2) ? 1 + g.below(2) : 2 + g.below(6); o << " " << q; } V::cur(o.str()); V::PT().spurious = false;
  qsem s(0); std::vector<std::atomic<int> > done(n); for (auto &d : done) d = 0; std::vector<std::thread> ts;
  for (int k = 0; k < n; k++) { ts.emplace_back([&, k]() { V::perturb_me(i * 5 + k); VCHECK(s.wait(need[k]), "wait"); done[k] = 1; }); if (g.chance(1, 2)) nap(g.below(200)); }
  nap(g.below(500)); int put = 0, sum = 0; for (int q : need) sum += q;
  while (put < sum) { int a = g.chance(2, 3) ? 1 : std::min<int>(1 + g.below(3), sum - put); VCHECK(s.signal(a), "signal"); put += a;
    for (;;) { int used = 0, least = 1 << 20; for (int k = 0; k < n; k++) if (done[k]) used += need[k]; int used2 = 0; for (int k = 0; k < n; k++) if (!done[k]) least = std::min(least, need[k]); for (int k = 0; k < n; k++) if (done[k]) used2 += need[k]; VCHECK(used2 <= put, o.str() << ": " << used2 << " units taken of " << put); if (used == used2 && least > put - used) break; nap(20); } V::tick(); }
  for (auto &t : ts) t.join(); V::nontrivial(V::hash_str(o.str())); n_w += n; n_s++;
}
// quantities up to the range of int
static void amounts(V::Rng &g, uint64_t i) {
  static const int K[] = {127, 128, 255, 256, 257, 32767, 32768, 40000, 65535, 65536, 70000, 1000000, 16777217, 2147483646, 2147483647}; int q = K[i % 15]; std::ostringstream o; o << "quantity " << q; V::cur(o.str()); V::PT().spurious = false;
  { qsem s(q); VCHECK(s.wait(q), o.str()); std::atomic<int> done(0); std::thread t([&]() { VCHECK(s.wait(q), o.str()); done = 1; }); nap(300); VCHECK(!done, o.str() << ": granted twice"); VCHECK(s.signal(q - 1), "signal"); nap(500); VCHECK(!done, o.str() << ": granted with one unit missing"); s.signal(1); t.join(); std::atomic<int> got(0); std::thread p([&]() { s.wait(1); got = 1; }); nap(500); VCHECK(!got, o.str() << ": units left over"); s.signal(); p.join(); }
  { qsem s(0); int h = q / 2; s.signal(h); s.signal(q - h); VCHECK(s.wait(q - 1), o.str()); VCHECK(s.lock(), o.str()); std::atomic<int> got(0); std::thread p([&]() { s.lock(); got = 1; }); nap(300); VCHECK(!got, o.str() << ": units left over"); s.unlock(); p.join(); }
  V::nontrivial(V::hash_str(o.str())); n_w += 6;
}
int main(int argc, char **argv) {
  V::init(argc, argv, 40); V::PT().on = true;
  V::rule("random wait(q)/signal(q)/lock/unlock by 2-6 threads with an outstanding-units monitor and an end-of-round conservation probe; distinct = parameter combinations and rounds");
  V::cases("amounts", 15, 9, amounts); V::cases("exact", 150, 0.4, exact); V::cases("herd", 120, 0.55, herd); V::cases("starve", 150, 0.7, starve); V::cases("stress", 200, 1, stress);
  V::count("waits", n_w); V::count("signals", n_s); V::count("peak units out", n_peak); V::count("waits granted while others held units", n_contended); V::count("spurious wake-ups injected", V::PT().spurious_n);
  return V::finish();
}
