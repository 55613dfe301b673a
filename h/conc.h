// Schedule perturbation (wrapped pthread entry points), operation histories and a linearizability checker.
#ifndef VERIF_CONC_H
#define VERIF_CONC_H
#include "common.h"
#include <pthread.h>
#include <sched.h>
#include <errno.h>

namespace V {
struct Perturb {
  std::atomic<bool> on, spurious;
  std::atomic<unsigned> level;  // 0 light .. 3 heavy
  std::atomic<uint64_t> points, spurious_n;
};
inline Perturb &PT() { static Perturb *p = new Perturb(); return *p; }
struct Tls { bool on; Rng r; unsigned local; Tls() : on(false), r(1), local(0) {} };
inline Tls &TL() { static thread_local Tls t; return t; }

// Called by a worker at its start: makes its pthread calls perturbation points.
inline void perturb_me(uint64_t seed) { TL().r = Rng(seed); TL().on = true; }
inline void unperturb_me() { TL().on = false; }

inline void ppoint() {
  Tls &t = TL();
  if (!t.on || !PT().on.load(std::memory_order_relaxed)) return;
  unsigned lv = PT().level.load(std::memory_order_relaxed);
  uint64_t x = t.r.u64();
  if (((++t.local) & 63) == 0) PT().points.fetch_add(64, std::memory_order_relaxed);
  unsigned y = x & 255;
  if (y < 16u << lv) { sched_yield(); return; }
  if (y >= 256u - (2u << (lv * 2 > 6 ? 6 : lv * 2))) {
    struct timespec ts = {0, (long)(1000 + (x >> 8) % (lv >= 2 ? 300000 : 60000))};
    nanosleep(&ts, 0);
  }
}
} // namespace V

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  V::ppoint();
  int r = __real_pthread_mutex_lock(m);
  V::ppoint();
  return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  V::ppoint();
  int r = __real_pthread_mutex_unlock(m);
  V::ppoint();
  return r;
}
static inline bool verif_spurious(pthread_mutex_t *m) {
  V::Tls &t = V::TL();
  if (!t.on || !V::PT().spurious.load(std::memory_order_relaxed) || t.r.below(6)) return false;
  V::PT().spurious_n.fetch_add(1, std::memory_order_relaxed);
  __real_pthread_mutex_unlock(m);
  sched_yield();
  V::ppoint();
  __real_pthread_mutex_lock(m);
  return true;
}
#if !defined(__SANITIZE_THREAD__)
}
// A condition variable that uses the freedom POSIX gives it: signal wakes a waiter of its choice (not the oldest),
// broadcast wakes them in any order. (Not under TSan: its lock would order the threads.)
namespace V {
struct Waiter { pthread_cond_t c; bool woken; };
struct Waiters { pthread_mutex_t m; std::map<pthread_cond_t *, std::vector<Waiter *> > w; Rng r; uint64_t reordered; Waiters() : r(77), reordered(0) { pthread_mutex_init(&m, 0); } };
inline Waiters &WS() { static Waiters *w = new Waiters; return *w; }
inline int wait_for(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  Waiters &s = WS(); Waiter w; w.woken = false; pthread_cond_init(&w.c, 0);
  __real_pthread_mutex_lock(&s.m); s.w[c].push_back(&w);
  int u = __real_pthread_mutex_unlock(m), r = 0;
  while (!w.woken && r == 0) { r = ts ? __real_pthread_cond_timedwait(&w.c, &s.m, ts) : __real_pthread_cond_wait(&w.c, &s.m); if (r != 0 && r != ETIMEDOUT && r != EINVAL) r = 0; }
  if (w.woken) r = 0; else { std::vector<Waiter *> &v = s.w[c]; v.erase(std::find(v.begin(), v.end(), &w)); if (v.empty()) s.w.erase(c); }
  __real_pthread_mutex_unlock(&s.m); pthread_cond_destroy(&w.c);
  if (u == 0) __real_pthread_mutex_lock(m);
  return r;
}
inline void wake(pthread_cond_t *c, bool all) {
  Waiters &s = WS(); __real_pthread_mutex_lock(&s.m);
  std::map<pthread_cond_t *, std::vector<Waiter *> >::iterator it = s.w.find(c);
  if (it != s.w.end()) do {
    std::vector<Waiter *> &v = it->second; size_t k; switch (s.r.below(4)) { case 0: k = 0; break; case 1: k = v.size() - 1; break; default: k = s.r.below(v.size()); }
    if (k) s.reordered++; v[k]->woken = true; __real_pthread_cond_signal(&v[k]->c); v.erase(v.begin() + k);
    if (v.empty()) { s.w.erase(it); break; }
  } while (all);
  __real_pthread_mutex_unlock(&s.m);
}
}
extern "C" {
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (verif_spurious(m)) return 0;
  int r = V::wait_for(c, m, 0);
  V::ppoint();
  return r;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (verif_spurious(m)) return 0;
  int r = V::wait_for(c, m, ts);
  V::ppoint();
  return r;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { V::ppoint(); V::wake(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { V::ppoint(); V::wake(c, true); return 0; }
#else
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (verif_spurious(m)) return 0;
  int r = __real_pthread_cond_wait(c, m);
  V::ppoint();
  return r;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (verif_spurious(m)) return 0;
  int r = __real_pthread_cond_timedwait(c, m, ts);
  V::ppoint();
  return r;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { V::ppoint(); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { V::ppoint(); return __real_pthread_cond_broadcast(c); }
#endif
}

namespace V {
struct Op {
  int thread, kind; int64_t arg, res; bool ok;
  uint64_t inv, ret;
};
inline std::atomic<uint64_t> &clk() { static std::atomic<uint64_t> c(1); return c; }
inline uint64_t stamp() {
#if defined(__SANITIZE_THREAD__)
  return now_us();  // no shared atomic: it would order the threads and hide races from TSan
#else
  return clk().fetch_add(1);
#endif
}

// Wing & Gong search with memoisation. M: struct { State; bool apply(State&, const Op&) } ; State hashable via key().
template <class M> struct Lin {
  const M &m; const std::vector<Op> &h; std::unordered_set<uint64_t> seen; uint64_t nodes; uint64_t limit; bool gaveup;
  Lin(const M &mm, const std::vector<Op> &hh) : m(mm), h(hh), nodes(0), limit(4000000), gaveup(false) {}
  bool go(uint64_t done, typename M::State st) {
    size_t n = h.size();
    if (done == (n == 64 ? ~0ULL : ((1ULL << n) - 1))) return true;
    if (++nodes > limit) { gaveup = true; return true; }
    uint64_t k = mix64(mix64(done + 0x9e3779b97f4a7c15ULL) + 3 * m.key(st)); // not symmetric: done and state may be the same number
    if (!seen.insert(k).second) return false;
    uint64_t minret = ~0ULL;
    for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && h[i].ret < minret) minret = h[i].ret;
    for (size_t i = 0; i < n; i++) {
      if (done >> i & 1) continue;
      if (h[i].inv > minret) continue;
      typename M::State s2 = st;
      if (m.apply(s2, h[i]) && go(done | 1ULL << i, s2)) return true;
    }
    return false;
  }
  bool run() { return go(0, m.init()); }
};

inline std::string show_history(const std::vector<Op> &h0, const char *const *names) {
  std::vector<Op> h = h0;
  std::sort(h.begin(), h.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; });
  std::ostringstream o;
  for (size_t i = 0; i < h.size(); i++)
    o << "t" << h[i].thread << " [" << h[i].inv << "," << h[i].ret << "] " << names[h[i].kind] << "(" << h[i].arg << ") -> " << (h[i].ok ? "ok " : "no ") << h[i].res << "; ";
  return o.str();
}
inline uint64_t shape_of(std::vector<Op> h) {  // interleaving signature: order of invocations and responses
  std::vector<std::pair<uint64_t, uint64_t> > e;
  for (size_t i = 0; i < h.size(); i++) {
    e.push_back(std::make_pair(h[i].inv, (uint64_t)h[i].thread * 64 + h[i].kind * 2));
    e.push_back(std::make_pair(h[i].ret, (uint64_t)h[i].thread * 64 + h[i].kind * 2 + 1));
  }
  std::sort(e.begin(), e.end());
  uint64_t x = 7;
  for (size_t i = 0; i < e.size(); i++) x = mix64(x ^ e[i].second);
  return x;
}
// A reusable start gate.
struct Gate {
  std::atomic<int> n; explicit Gate(int k) : n(k) {}
  void arrive() { n--; while (n.load() > 0) sched_yield(); }
};
} // namespace V
#endif
