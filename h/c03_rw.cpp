#include "conc.h"
#include <concurrent/rwmutex.h>
#include <concurrent/lock.h>
#include <memory>
using namespace pfi::concurrent;
using pfi::concurrent::rlock; using pfi::concurrent::wlock;

extern "C" {
#define W1(f) int __real_##f(pthread_rwlock_t *); int __wrap_##f(pthread_rwlock_t *l) { V::ppoint(); int r = __real_##f(l); V::ppoint(); return r; }
W1(pthread_rwlock_rdlock) W1(pthread_rwlock_wrlock) W1(pthread_rwlock_unlock)
}

struct Mon {
  rw_mutex m; std::atomic<int> readers, writer; long a, b; Mon() : readers(0), writer(0), a(0), b(0) {}
  void rin() { readers++; VCHECK(writer.load() == 0, "reader inside together with writer " << writer.load()); VCHECK(a == b, "reader sees a half-finished write"); }
  void rout() { VCHECK(writer.load() == 0, "writer entered while a reader is inside"); VCHECK(a == b, "torn"); readers--; }
  void win(int me) { int w = writer.exchange(me); VCHECK(w == 0, "two writers: " << w << " and " << me); VCHECK(readers.load() == 0, "writer inside together with " << readers.load() << " readers"); a++; }
  void wout(int me) { VCHECK(writer.load() == me && readers.load() == 0, "intruder while writing"); b++; VCHECK(a == b, "torn write"); writer = 0; }
};
static std::atomic<uint64_t> n_r, n_w, n_fail, n_sharing;

static void nap(long us) { struct timespec ts = {0, us * 1000}; nanosleep(&ts, 0); }
struct Bail {};

static void stress(V::Rng &g, uint64_t idx) {
  Mon x; int nt = 2 + g.below(6), iters = 40 + g.below(60), wshare = 1 + g.below(6);
  V::cur("stress threads " + std::to_string(nt)); V::PT().level = g.below(3);
  std::vector<std::thread> ts; V::Gate gate(nt);
  for (int t = 0; t < nt; t++) {
    uint64_t sd = g.u64();
    ts.emplace_back([&, t, sd]() {
      V::Rng r(sd); V::perturb_me(sd + 3); gate.arrive(); int me = t + 1;
      for (int i = 0; i < iters; i++) {
        V::tick();
        bool w = r.below(8) < (unsigned)wshare; int form = r.below(10);
        double to = r.chance(1, 3) ? 0 : r.chance(1, 4) ? -0.5 : r.unit() * 0.002;
        bool timed = false, got = false; uint64_t t0 = V::real_us();
        auto in = [&]() { got = true; if (w) { x.win(me); n_w++; } else { x.rin(); n_r++; if (x.readers > 1) n_sharing++; } if (r.chance(1, 4)) sched_yield(); if (r.chance(1, 16)) nap(r.below(80)); if (w) x.wout(me); else x.rout(); };
        switch (form) {
        case 0: VCHECK(w ? x.m.write_lock() : x.m.read_lock(), "blocking lock returned false"); in(); VCHECK(x.m.unlock(), "unlock refused"); break;
        case 1: timed = true; if (w ? x.m.write_lock(to) : x.m.read_lock(to)) { in(); VCHECK(x.m.unlock(), "unlock refused"); } break;
        case 2: { scoped_lock lk(w ? wlock(x.m) : rlock(x.m)); VCHECK(lk.locked(), "scoped_lock(rlock) not locked"); in(); break; }
        case 3: { timed = true; scoped_lock lk(w ? wlock(x.m, to) : rlock(x.m, to)); if (lk) in(); break; }
        case 4: if (w) { scoped_wlock lk(x.m); VCHECK(lk.locked() && lk, "scoped_wlock"); in(); } else { scoped_rlock lk(x.m); VCHECK(lk.locked() && lk, "scoped_rlock"); in(); } break;
        case 5: timed = true; to = to < 0 ? 0 : to; if (w) { scoped_wlock lk(x.m, to); if (lk) in(); } else { scoped_rlock lk(x.m, to); if (lk) in(); } break;
        case 6: synchronized(w ? wlock(x.m) : rlock(x.m)) { in(); } else VFAIL("synchronized(rlock) skipped"); break;
        case 7: timed = true; synchronized(w ? wlock(x.m, to) : rlock(x.m, to)) { in(); } break;
        case 8: try { if (w) { scoped_wlock lk(x.m); scoped_wlock lk2(lk); VCHECK(lk2.locked() && !lk.locked(), "transfer"); in(); throw Bail(); } else { scoped_rlock lk(x.m); scoped_rlock lk2(lk); VCHECK(lk2.locked() && !lk.locked(), "transfer"); in(); throw Bail(); } } catch (Bail &) {} break;
        case 9: try { rlocker rl(x.m); wlocker wl(x.m); lockable &l = w ? (lockable &)wl : (lockable &)rl; scoped_lock lk(l); VCHECK(lk, "locker"); in(); throw Bail(); } catch (Bail &) {} break;
        }
        if (!got) { VCHECK(timed, "blocking form not entered"); n_fail++; double e = (V::real_us() - t0) / 1e6; VCHECK(e + 0.0003 >= to, "timed attempt (" << to << ") gave up after " << e); }
      }
    });
  }
  for (auto &t : ts) t.join();
  VCHECK(x.readers == 0 && x.writer == 0, "monitor not idle");
  VCHECK(x.m.write_lock(0), "lock not free after everybody released it"); VCHECK(x.m.unlock(), "unlock");
  V::nontrivial(V::mix64(idx * 7 + nt));
}

// A helper thread executing closures in its own context (locks belong to threads).
struct Agent {
  std::mutex mx; std::function<void()> job; bool have, quit; std::atomic<bool> idle; std::thread t;
  Agent() : have(false), quit(false), idle(true), t([this]() { loop(); }) {}
  void loop() { for (;;) { std::function<void()> j; for (;;) { { std::lock_guard<std::mutex> l(mx); if (quit) return; if (have) { j = job; have = false; break; } } nap(20); } j(); idle = true; } }
  void go(std::function<void()> f) { idle = false; std::lock_guard<std::mutex> l(mx); job = f; have = true; }
  void wait() { while (!idle) nap(20); V::tick(); }
  void run(std::function<void()> f) { go(f); wait(); }
  ~Agent() { wait(); { std::lock_guard<std::mutex> l(mx); quit = true; } t.join(); }
};

static bool attempt(rw_mutex &m, bool w, int form, double to, std::unique_ptr<scoped_lock> *sl, std::unique_ptr<scoped_rlock> *sr, std::unique_ptr<scoped_wlock> *sw) {
  switch (form) {
  case 0: return w ? m.write_lock(to) : m.read_lock(to);
  case 1: sl->reset(new scoped_lock(w ? wlock(m, to) : rlock(m, to))); return (*sl)->locked();
  case 2: if (w) { sw->reset(new scoped_wlock(m, to < 0 ? 0 : to)); return (*sw)->locked(); } sr->reset(new scoped_rlock(m, to < 0 ? 0 : to)); return (*sr)->locked();
  default: { rlocker rl(m, to); wlocker wl(m, to); return w ? wl.lock() : rl.lock(); }
  }
}
static void release(rw_mutex &m, int form, std::unique_ptr<scoped_lock> *sl, std::unique_ptr<scoped_rlock> *sr, std::unique_ptr<scoped_wlock> *sw, bool got) {
  sl->reset(); sr->reset(); sw->reset();
  if ((form == 0 || form == 3) && got) VCHECK(m.unlock(), "unlock");
}
// (lock state) x (attempt form) x (timeout): result, blocking and the lock state afterwards
static void matrix(V::Rng &g, uint64_t i) {
  rw_mutex m; int st = g.below(4); bool w = g.chance(1, 2); int form = g.below(4); static const double T[] = {0, -1, 0.004, 0.015, 1e-10, -1e-12}; double to = T[g.below(6)];
  int nr = st == 1 ? 1 : st == 2 ? 2 + g.below(3) : 0; bool expect = st == 0 || (st < 3 && !w);
  std::ostringstream o; o << "matrix state=" << (st == 0 ? "free" : st == 3 ? "writer" : "readers") << "/" << nr << " attempt=" << (w ? "write" : "read") << " form=" << form << " timeout=" << to; V::cur(o.str());
  Agent h[5]; Agent p, q;
  for (int k = 0; k < nr; k++) h[k].run([&]() { VCHECK(m.read_lock(), "read_lock"); });
  if (st == 3) h[0].run([&]() { VCHECK(m.write_lock(), "write_lock"); });
  std::unique_ptr<scoped_lock> sl; std::unique_ptr<scoped_rlock> sr; std::unique_ptr<scoped_wlock> sw; bool got = false; double best = 1e9;
  for (int k = 0; k < 5; k++) {
    p.run([&]() { uint64_t t0 = V::real_us(); got = attempt(m, w, form, to, &sl, &sr, &sw); double e = (V::real_us() - t0) / 1e6; best = std::min(best, e); if (!got) VCHECK(e + 0.0003 >= to, "gave up after " << e); });
    VCHECK(got == expect, o.str() << ": returned " << got << ", expected " << expect);
    if (got || best < 0.05) break;
    p.run([&]() { release(m, form, &sl, &sr, &sw, got); });
  }
  VCHECK(best < 0.5, o.str() << ": blocked for " << best << " s");
  // the lock state is now old state (+ ours): probe with try attempts from a third thread
  bool anyr = nr > 0 || (got && !w), anyw = st == 3 || (got && w);
  q.run([&]() { bool r = m.read_lock(0); VCHECK(r == !anyw, o.str() << ": afterwards a try read lock returned " << r); if (r) VCHECK(m.unlock(), "unlock"); r = m.write_lock(0); VCHECK(r == (!anyw && !anyr), o.str() << ": afterwards a try write lock returned " << r); if (r) VCHECK(m.unlock(), "unlock"); });
  p.run([&]() { release(m, form, &sl, &sr, &sw, got); });
  q.run([&]() { bool r = m.write_lock(0); VCHECK(r == (st == 0), o.str() << ": after release a try write lock returned " << r); if (r) VCHECK(m.unlock(), "unlock"); });
  for (int k = 0; k < nr; k++) { h[k].run([&]() { VCHECK(m.unlock(), "unlock"); }); if (k + 1 < nr) q.run([&]() { VCHECK(!m.write_lock(0), o.str() << ": write lock granted with " << nr - k - 1 << " readers left"); }); }
  if (st == 3) h[0].run([&]() { VCHECK(m.unlock(), "unlock"); });
  q.run([&]() { VCHECK(m.write_lock(0), o.str() << ": lock still taken after all released"); VCHECK(m.unlock(), "unlock"); VCHECK(m.read_lock(0), "try read on free lock"); VCHECK(m.unlock(), "unlock"); });
  V::nontrivial(V::hash_str(o.str()));
}
// a generously timed attempt is granted once the holder lets go, also across a second boundary
static void granted(V::Rng &g, uint64_t i) {
  rw_mutex m; bool hw = g.chance(1, 2), w = hw ? g.chance(1, 2) : true; int form = g.below(4); double to = 20 + g.unit() * 3;
  std::ostringstream o; o << "granted holder=" << (hw ? "writer" : "reader") << " attempt=" << (w ? "write" : "read") << " form=" << form << " timeout=" << to; V::cur(o.str());
  Agent h, p; std::unique_ptr<scoped_lock> sl; std::unique_ptr<scoped_rlock> sr; std::unique_ptr<scoped_wlock> sw; bool got = false;
  h.run([&]() { VCHECK(hw ? m.write_lock() : m.read_lock(), "lock"); });
  p.go([&]() { got = attempt(m, w, form, to, &sl, &sr, &sw); });
  nap(g.below(3000)); VCHECK(!p.idle, o.str() << ": attempt returned while the lock was held, result " << got);
  h.run([&]() { VCHECK(m.unlock(), "unlock"); });
  p.wait(); VCHECK(got, o.str() << ": not granted");
  p.run([&]() { release(m, form, &sl, &sr, &sw, got); });
  h.run([&]() { VCHECK(m.write_lock(0), o.str() << ": not released"); VCHECK(m.unlock(), "unlock"); });
  V::nontrivial(V::mix64(i + 0x3333));
}
int main(int argc, char **argv) {
  V::init(argc, argv, 40);
  V::PT().on = true;
  V::rule("matrix: every lock state x attempt form x timeout with probe threads; stress: random mixed forms with a reader/writer occupancy monitor; non-trivial: distinct state/form/timeout combinations or contended rounds");
  V::cases("matrix", 500, 0.5, matrix);
  V::cases("granted", 80, 0.65, granted);
  V::cases("stress", 150, 1, stress);
  V::count("read holds", n_r); V::count("write holds", n_w); V::count("failed attempts", n_fail); V::count("read holds overlapping another reader", n_sharing);
  V::sample("stress: " + std::to_string(n_r) + " read holds (" + std::to_string(n_sharing) + " shared), " + std::to_string(n_w) + " write holds, " + std::to_string(n_fail) + " failed try/timed attempts");
  return V::finish();
}
