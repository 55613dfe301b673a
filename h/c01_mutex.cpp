#include "conc.h"
#include <concurrent/mutex.h>
#include <concurrent/lock.h>
#include <concurrent/thread.h>
#include <memory>
using namespace pfi::concurrent;

// State that only the lock under test protects (deliberately neither atomic nor volatile-ordered).
struct Prot { int owner; int depth; long a, b; char pad[64]; Prot() : owner(0), depth(0), a(0), b(0) {} };
struct Cell { bool rec; mutex pm; r_mutex rm; Prot p;
  explicit Cell(bool r) : rec(r) {}
  mutex_base &m() { if (rec) return rm; return pm; } };

static void enter(Prot &p, int me) {
  if (p.depth == 0) { VCHECK(p.owner == 0, "thread " << me << " entered while thread " << p.owner << " is inside"); p.owner = me; }
  VCHECK(p.owner == me, "owner is " << p.owner << ", not " << me);
  p.depth++;
}
static void leave(Prot &p, int me) {
  VCHECK(p.owner == me, "owner became " << p.owner << " while thread " << me << " was inside");
  if (--p.depth == 0) p.owner = 0;
}
static void touch(Prot &p, int me, V::Rng &r) {
  long a = p.a, b = p.b;
  VCHECK(a == b, "half-finished update of another holder is visible: " << a << " vs " << b);
  p.a = a + 1;
  if (r.chance(1, 4)) sched_yield();
  if (r.chance(1, 40)) { struct timespec ts = {0, (long)r.below(50000)}; nanosleep(&ts, 0); }
  VCHECK(p.b == b && p.owner == me, "another thread wrote inside the region");
  p.b = b + 1;
}

static void rec_nest(Cell &c, int me, V::Rng &r, int depth) {
  // at entry the lock is held `p.depth` times by me
  for (int i = 0; i < 3; i++) {
    touch(c.p, me, r);
    if (depth < 5 && r.chance(1, 2)) {
      int how = r.below(3);
      if (how == 0) { VCHECK(c.rm.lock(), "recursive lock refused"); enter(c.p, me); rec_nest(c, me, r, depth + 1); leave(c.p, me); VCHECK(c.rm.unlock(), "unlock by holder refused"); }
      else if (how == 1) { scoped_lock lk(c.rm); VCHECK(lk.locked(), "scoped not locked"); enter(c.p, me); rec_nest(c, me, r, depth + 1); leave(c.p, me); }
      else synchronized(c.rm) { enter(c.p, me); rec_nest(c, me, r, depth + 1); leave(c.p, me); if (r.chance(1, 2)) continue; }
    }
  }
}
struct Bail {};
static int early(Cell &c, int me, V::Rng &r) {
  synchronized(c.m()) { enter(c.p, me); touch(c.p, me, r); leave(c.p, me); return 1; }
  return 0;
}

static std::atomic<uint64_t> acq, wrong_unlocks;

static void stress(V::Rng &g, uint64_t idx) {
  int nt = 2 + g.below(5), nc = 1 + g.below(3), iters = 60 + g.below(100);
  std::vector<std::unique_ptr<Cell> > cs;
  for (int i = 0; i < nc; i++) cs.emplace_back(new Cell(g.chance(2, 3)));
  std::vector<std::vector<long> > did(nt, std::vector<long>(nc, 0));
  V::PT().level = g.below(3);
  V::cur("stress threads=" + std::to_string(nt) + " mutexes=" + std::to_string(nc));
  std::vector<std::thread> ts;
  V::Gate gate(nt);
  for (int t = 0; t < nt; t++) {
    uint64_t sd = g.u64();
    ts.emplace_back([&, t, sd]() {
      V::Rng r(sd); V::perturb_me(sd ^ 99);
      gate.arrive();
      int me = t + 1;
      for (int i = 0; i < iters; i++) {
        V::tick();
        Cell &c = *cs[r.below(nc)];
        switch (r.below(6)) {
        case 0:
          VCHECK(c.m().lock(), "lock returned false"); enter(c.p, me); touch(c.p, me, r);
          leave(c.p, me); VCHECK(c.m().unlock(), "unlock returned false"); break;
        case 1: { scoped_lock lk(c.m()); VCHECK(lk.locked() && lk, "scoped_lock not locked"); enter(c.p, me); touch(c.p, me, r); leave(c.p, me); break; }
        case 2: VCHECK(early(c, me, r) == 1, "synchronized body skipped"); break;
        case 3:
          try { scoped_lock lk(c.m()); enter(c.p, me); touch(c.p, me, r); leave(c.p, me); throw Bail(); } catch (Bail &) {}
          break;
        case 4:
          if (c.rec) { VCHECK(c.rm.lock(), "lock"); enter(c.p, me); rec_nest(c, me, r, 1); leave(c.p, me); VCHECK(c.rm.unlock(), "unlock"); }
          else { synchronized(c.pm) { enter(c.p, me); touch(c.p, me, r); leave(c.p, me); } }
          break;
        case 5:  // unlock by somebody who does not hold it
          if (c.rec) { VCHECK(!c.rm.unlock(), "unlock by a thread that does not hold the recursive mutex returned true"); wrong_unlocks++; }
          break;
        }
        acq++;
      }
    });
  }
  for (auto &t : ts) t.join();
  for (auto &c : cs) { VCHECK(c->p.a == c->p.b && c->p.owner == 0 && c->p.depth == 0, "final state torn"); }
  V::nontrivial(V::mix64(nt * 1000 + nc * 100 + iters) ^ idx);
}

// Nobody else gets a recursive mutex before the last of d unlocks, and somebody does after it.
static void depth_case(V::Rng &g, uint64_t idx) {
  static const int DEEP[] = {130, 260, 33000, 66000, 140000}; r_mutex m; int d = idx < 5 ? DEEP[idx] : 1 + g.below(12);
  std::atomic<int> got(0), phase(0), res(0);
  V::cur("depth " + std::to_string(d));
  int prot = 0;
  for (int i = 0; i < d; i++) VCHECK(m.lock(), "nested lock refused at depth " << i);
  prot = 1;
  std::thread t([&]() {
    V::perturb_me(5);
    VCHECK(!m.unlock(), "foreign unlock accepted");
    phase = 1;
    VCHECK(m.lock(), "lock failed");
    got = 1; VCHECK(prot == 2, "acquired before the holder released everything"); prot = 3;
    VCHECK(m.lock(), "relock"); VCHECK(m.unlock(), "unlock 1"); VCHECK(m.unlock(), "unlock 2");
    VCHECK(!m.unlock(), "unlock of a free recursive mutex accepted");
  });
  while (!phase) sched_yield();
  for (int i = 0; i < d - 1; i++) {
    VCHECK(m.unlock(), "unlock refused at " << i);
    if (g.chance(1, 3) && i < 100) { VCHECK(m.lock(), "re-lock"); VCHECK(m.unlock(), "re-unlock"); }
    if (i < 2 || i == d - 2) { struct timespec ts = {0, 300000}; nanosleep(&ts, 0); }
    VCHECK(!got, "another thread holds the mutex after " << i + 1 << " of " << d << " unlocks");
  }
  prot = 2;
  VCHECK(m.unlock(), "last unlock refused");
  t.join();
  VCHECK(got == 1 && prot == 3, "waiter never got the mutex");
  VCHECK(!m.unlock(), "unlock by former holder accepted");
  V::nontrivial(V::mix64(d) ^ 0x77);
}

// scoped_lock over an arbitrary lockable: one lock, one unlock iff it locked.
struct Fake : lockable { int *locks, *unlocks; bool ok; Fake(int *l, int *u, bool o) : locks(l), unlocks(u), ok(o) {}
  bool lock() { ++*locks; return ok; } bool unlock() { ++*unlocks; return true; } };
static void scoped_case(V::Rng &g, uint64_t) {
  int l = 0, u = 0; bool ok = g.chance(1, 2); bool thr = g.chance(1, 2); int form = g.below(4); int body = 0, other = 0;
  V::cur("scoped form " + std::to_string(form) + (ok ? " ok" : " fail"));
  try {
    if (form == 0) { Fake f(&l, &u, ok); scoped_lock k(f); VCHECK(k.locked() == ok, "locked()"); VCHECK(bool(k) == ok, "bool"); VCHECK(u == 0, "early unlock"); if (thr) throw Bail(); }
    else if (form == 1) { scoped_lock k(std::unique_ptr<lockable>(new Fake(&l, &u, ok))); VCHECK(k.locked() == ok && bool(k) == ok, "locked()"); VCHECK(u == 0, "early unlock"); if (thr) throw Bail(); }
    else if (form == 2) { Fake f(&l, &u, ok); synchronized(f) { body++; VCHECK(u == 0, "early unlock"); if (thr) throw Bail(); } else { other++; } VCHECK((body == 1) == ok && (other == 1) == !ok, "synchronized branch"); }
    else { synchronized(std::unique_ptr<lockable>(new Fake(&l, &u, ok))) { body++; VCHECK(u == 0, "early unlock"); if (thr) throw Bail(); } else other++; VCHECK((body == 1) == ok && (other == 1) == !ok, "synchronized branch"); }
  } catch (Bail &) {}
  VEQ(l, 1, "lock calls"); VEQ(u, ok ? 1 : 0, "unlock calls (ok=" << ok << ")");
  V::nontrivial(V::mix64(form * 4 + ok * 2 + thr) ^ 0x99);
}

int main(int argc, char **argv) {
  V::init(argc, argv, 40);
  V::PT().on = true; V::PT().spurious = false;
  V::rule("stress: 2-6 threads x 1-3 plain/recursive mutexes, random nesting, scoped/synchronized/direct, exceptions, foreign unlocks; a case is non-trivial when several threads contended on it");
  V::cases("scoped", 400, 1, scoped_case);
  V::cases("depth", 5, 9, depth_case); V::cases("depth", 60, 0.5, depth_case);
  V::cases("stress", 150, 1, stress);
  V::count("acquisitions", acq); V::count("refused foreign unlocks", wrong_unlocks); V::count("perturbation points", V::PT().points);
  V::sample("stress: threads lock/relock/unlock random mutexes; owner, depth and torn-update monitors checked at every entry and exit; acquisitions=" + std::to_string(acq));
  return V::finish();
}
