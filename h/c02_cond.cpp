#include "conc.h"
#include <concurrent/mutex.h>
#include <concurrent/condition.h>
#include <concurrent/lock.h>
using namespace pfi::concurrent;

struct Cell { bool rec; mutex pm; r_mutex rm; condition c; int owner, depth; long a, b;
  explicit Cell(bool r) : rec(r), owner(0), depth(0), a(0), b(0) {}
  mutex_base &m() { if (rec) return rm; return pm; } };

static void enter(Cell &p, int me) {
  if (p.depth == 0) { VCHECK(p.owner == 0, "thread " << me << " inside together with " << p.owner); p.owner = me; }
  VCHECK(p.owner == me, "owner " << p.owner << " not " << me); p.depth++;
}
static void leave(Cell &p, int me) { VCHECK(p.owner == me, "owner changed to " << p.owner << " under thread " << me); if (--p.depth == 0) p.owner = 0; }
static void touch(Cell &p, int me, V::Rng &r) {
  long a = p.a; VCHECK(a == p.b, "torn"); p.a = a + 1; if (r.chance(1, 3)) sched_yield(); VCHECK(p.b == a && p.owner == me, "exclusion broken"); p.b = a + 1;
}
static int take(Cell &c, int me, int d) { for (int i = 0; i < d; i++) { VCHECK(c.m().lock(), "lock"); enter(c, me); } return d; }
static void drop(Cell &c, int me, int d) {
  for (int i = 0; i < d; i++) { leave(c, me); VCHECK(c.m().unlock(), "unlock " << i << " of " << d << " refused after wait"); }
  if (c.rec) VCHECK(!c.rm.unlock(), "one unlock too many accepted: wait returned with a greater depth than it was called with");
}
static std::atomic<uint64_t> waits, notified, timeouts;
// wait with the ownership monitor: released during the wait, reacquired at the same depth after it
static bool mwait(Cell &c, int me, double sec) {
  int d = c.depth; VCHECK(c.owner == me, "not owner before wait"); c.owner = 0; c.depth = 0; long a0 = c.a; (void)a0;
  bool ok = true;
  if (sec < 0) c.c.wait(c.m()); else ok = c.c.wait(c.m(), sec);
  VCHECK(c.owner == 0 && c.depth == 0, "wait returned while thread " << c.owner << " is inside the region");
  c.owner = me; c.depth = d; waits++;
  VCHECK(c.a == c.b, "torn state after wait");
  return ok;
}

// tokens: every notify under the mutex with a waiting thread lets one waiter through
static void tokens(V::Rng &g, uint64_t idx) {
  Cell c(g.chance(1, 2)); int nw = 1 + g.below(5); bool all = g.chance(1, 3);
  int tokens = 0, waiting = 0, through = 0, gen = 0; std::vector<std::thread> ts;
  V::PT().level = g.below(3);
  V::cur("tokens waiters=" + std::to_string(nw) + (all ? " notify_all" : " notify") + (c.rec ? " rec" : ""));
  for (int i = 0; i < nw; i++) {
    uint64_t sd = g.u64();
    ts.emplace_back([&, i, sd]() {
      V::Rng r(sd); V::perturb_me(sd + 1); int me = i + 1;
      for (int k = 0; k < 6; k++) {
        int d = c.rec ? 1 + r.below(4) : 1; take(c, me, d); touch(c, me, r);
        if (all) { int g0 = gen; waiting++; while (gen == g0) { if (r.chance(1, 5)) { if (!mwait(c, me, r.unit() * 0.004)) timeouts++; } else mwait(c, me, -1); } }
        else { waiting++; while (tokens == 0) { if (r.chance(1, 6)) { if (!mwait(c, me, r.unit() * 0.004)) timeouts++; } else mwait(c, me, -1); } tokens--; }
        through++; touch(c, me, r); drop(c, me, d); V::tick();
      }
    });
  }
  std::thread nt([&]() {
    V::perturb_me(idx * 31 + 7); V::Rng r(idx); int me = 100, total = nw * 6;
    for (;;) {
      int d = c.rec ? 1 + r.below(2) : 1; take(c, me, d); touch(c, me, r);
      bool fin = through == total;
      if (!fin) {
        if (all) { if (waiting == nw || (through + waiting > 0 && waiting > 0)) { gen++; waiting = 0; c.c.notify_all(); notified++; } }
        else if (waiting > 0) { waiting--; tokens++; c.c.notify(); notified++; }
      }
      drop(c, me, d);
      if (fin) break;
      if (r.chance(1, 3)) sched_yield();
    }
  });
  for (auto &t : ts) t.join();
  nt.join();
  VCHECK(tokens == 0 && through == nw * 6, "tokens " << tokens << " through " << through);
  V::nontrivial(V::mix64(idx * 64 + nw * 4 + all * 2 + c.rec));
}

static double secs(uint64_t us) { return us / 1e6; }
// nobody notifies: false, not early, and (best of several tries) not late; lock held again at the same depth
static void timed(V::Rng &g, uint64_t) {
  static const double T[] = {0, -1, -0.001, 1e-7, 1e-5, 0.0005, 0.001, 0.003, 0.01, 0.02, 0.037, 0.08};
  bool rec = g.chance(1, 2); double t = T[g.below(12)]; int d = rec ? 1 + g.below(5) : 1;
  if (g.chance(1, 8)) {  // cross a second boundary of the wall clock
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); double f = ts.tv_nsec / 1e9; t = (1 - f) + 0.004; if (t > 0.35) t = 0.02;
  }
  V::cur("timed " + std::to_string(t) + " depth " + std::to_string(d) + (rec ? " rec" : ""));
  double best = 1e9;
  for (int k = 0; k < 6; k++) {
    Cell c(rec); take(c, 1, d); uint64_t a = V::real_us(); bool r = mwait(c, 1, t < 0 ? 0 : t);
    double e = secs(V::real_us() - a);
    if (t < 0) { a = V::now_us(); r = c.c.wait(c.m(), t); e = secs(V::now_us() - a); }
    VCHECK(!r, "timed wait(" << t << ") returned true though nobody notified");
    VCHECK(e + 0.0003 >= t, "timed wait(" << t << ") gave up after only " << e << " s");
    std::atomic<int> got(0); std::thread pr([&]() { VCHECK(c.m().lock(), "lock"); got = 1; c.m().unlock(); });
    struct timespec z = {0, 100000}; nanosleep(&z, 0);
    VCHECK(!got, "mutex free after a timed-out wait");
    drop(c, 1, d); pr.join(); timeouts++;
    best = std::min(best, e); if (best < std::max(t, 0.0) * 1.25 + 0.02) break;
  }
  VCHECK(best < std::max(t, 0.0) * 1.5 + 0.1, "timed wait(" << t << ") never returned before " << best << " s");
  V::nontrivial(V::mix64((uint64_t)(t * 1e9)) ^ d ^ rec);
}
// notified well before the timeout: true, promptly
static void timed_notified(V::Rng &g, uint64_t i) {
  bool rec = g.chance(1, 2); static const double T[] = {20, 60, 1000, 1e6, 20.5, 31.999999}; double t = T[g.below(6)]; int d = rec ? 1 + g.below(4) : 1; bool all = g.chance(1, 2);
  V::cur("timed_notified " + std::to_string(t));
  Cell c(rec); bool waiting = false, go = false;
  std::thread w([&]() {
    V::perturb_me(i); take(c, 1, d); waiting = true; uint64_t a = V::now_us();
    while (!go) { bool r = mwait(c, 1, t); VCHECK(r, "timed wait(" << t << ") reported a timeout after " << secs(V::now_us() - a) << " s though it was notified"); }
    VCHECK(secs(V::now_us() - a) < 15, "woke late"); drop(c, 1, d);
  });
  for (;;) { take(c, 2, 1); bool f = waiting; if (f) { go = true; if (all) c.c.notify_all(); else c.c.notify(); notified++; } drop(c, 2, 1); if (f) break; sched_yield(); }
  w.join();
  V::nontrivial(V::mix64(i + 0x5555));
}
// a wait by a non-holder does not block and does not disturb the lock
static void nonholder(V::Rng &g, uint64_t i) {
  bool rec = g.chance(1, 2), held = g.chance(2, 3); Cell c(rec); int d = rec ? 1 + g.below(3) : 1;
  V::cur(std::string("nonholder ") + (held ? "held" : "free") + (rec ? " rec" : ""));
  if (g.chance(1, 2)) { take(c, 1, d); drop(c, 1, d); }
  if (held) take(c, 1, d);
  auto body = [&]() {
    uint64_t a = V::now_us(); c.c.wait(c.m()); bool r = c.c.wait(c.m(), 25.0);
    VCHECK(!r, "timed wait by a non-holder returned true"); VCHECK(secs(V::now_us() - a) < 12, "non-holder's wait blocked");
    if (rec) VCHECK(!c.rm.unlock(), "non-holder became holder");
  };
  if (held) { std::thread t(body); t.join(); } else if (g.chance(1, 2)) body(); else { std::thread t(body); t.join(); }
  if (held) drop(c, 1, d);
  std::thread t2([&]() { take(c, 3, d); drop(c, 3, d); }); t2.join();
  V::nontrivial(V::mix64(held * 2 + rec) ^ d);
}
int main(int argc, char **argv) {
  V::init(argc, argv, 40);
  V::PT().on = true; V::PT().spurious = false;
  V::rule("waiters at random recursion depth, notify/notify_all under the mutex, random timeouts and injected delays; ownership monitor around every wait; non-trivial: a wait actually happened");
  V::cases("nonholder", 60, 0.15, nonholder);
  V::cases("timed", 60, 0.45, timed);
  V::cases("timed_notified", 150, 0.6, timed_notified);
  V::cases("tokens", 200, 1, tokens);
  V::count("waits", waits); V::count("notifies", notified); V::count("timeouts", timeouts); V::count("perturbation points", V::PT().points);
  V::sample("tokens: " + std::to_string(waits) + " waits monitored for release/reacquire, " + std::to_string(notified) + " notifies, " + std::to_string(timeouts) + " timed-out waits");
  return V::finish();
}
