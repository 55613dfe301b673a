#include "conc.h"
#include <concurrent/thread.h>
#include <lang/function.h>
#include <lang/bind.h>
#include <signal.h>
#include <memory>
typedef pfi::concurrent::thread PT_;
static void nap(long us) { struct timespec ts = {0, us * 1000}; nanosleep(&ts, 0); }
// pthread accounting: every created thread is joined or detached exactly once; creation can be made to fail
static std::atomic<int> g_created, g_joined, g_detached, g_failnext, g_failjoin; static std::atomic<bool> g_track;
static thread_local bool t_track;
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) {
  if (!t_track) return __real_pthread_create(t, a, f, p);
  if (g_failnext > 0) { g_failnext--; return EAGAIN; }
  V::ppoint(); int r = __real_pthread_create(t, a, f, p); if (r == 0) g_created++; V::ppoint(); return r; }
int __wrap_pthread_join(pthread_t t, void **v) { if (t_track && g_failjoin > 0) { g_failjoin--; return EDEADLK; } int r = __real_pthread_join(t, v); if (t_track && r == 0) g_joined++; return r; }
int __wrap_pthread_detach(pthread_t t) { int r = __real_pthread_detach(t); if (t_track && r == 0) g_detached++; return r; }
}
static std::atomic<int> live;
struct Payload { Payload() { live++; } Payload(const Payload &) { live++; } ~Payload() { live--; } };
struct Shared { std::atomic<int> runs, started, finished; std::atomic<bool> release, det; int plain; std::atomic<PT_::tid_t> tid; Shared() : runs(0), started(0), finished(0), release(true), det(false), plain(0), tid(0) {} };
struct Body { std::shared_ptr<Shared> s; Payload p; int busy;
  void operator()() { s->started++; s->tid = PT_::id(); while (!s->release) nap(30); if (busy) nap(busy); if (!s->det) s->plain = s->plain + 1; s->runs++; s->finished++; } };
static std::atomic<uint64_t> n_start, n_join, n_det, n_refused;

static void life(V::Rng &g, uint64_t idx) {
  std::ostringstream log; int base_c = g_created, base_j = g_joined, base_d = g_detached; int ok_starts = 0, joined = 0, detached = 0;
  t_track = true; V::perturb_me(g.u64());
  std::shared_ptr<Shared> s(new Shared()); bool running = false; int expect_plain = 0; bool anydet = false; V::PT().level = g.below(4);
  {
    std::unique_ptr<PT_> t; { Body b; b.s = s; b.busy = g.chance(1, 2) ? (int)g.below(300) : 0; t.reset(new PT_(pfi::lang::function<void()>(b))); }
    if (g.chance(1, 3)) nap(100);
    VCHECK(s->started == 0, "function ran before start");
    int n = 1 + g.below(7);
    for (int i = 0; i < n; i++) {
      int op = g.below(8);
      if (op < 3) {
        bool inj = !running && g.chance(1, 6); if (inj) g_failnext = 1;
        log << (inj ? "start! " : "start "); V::cur(log.str());
        if (anydet) s->release = true; else s->release = g.chance(1, 2);
        int before = s->started; (void)before; bool r = t->start();
        VEQ(r, !running && !inj, "start() in " << log.str());
        if (r) { running = true; ok_starts++; n_start++; } else n_refused++;
      } else if (op < 5) {
        bool inj = running && g.chance(1, 6); if (inj) g_failjoin = 1; log << (inj ? "join! " : "join "); V::cur(log.str()); s->release = true; bool r = t->join(); VEQ(r, running && !inj, "join() in " << log.str());
        if (r) { joined++; n_join++; running = false; if (!anydet) { VEQ(s->finished.load(), ok_starts, "join returned before the function finished: " << log.str()); expect_plain = ok_starts; VEQ(s->plain, expect_plain, "effects not visible after join"); VCHECK(s->tid != PT_::id() && s->tid != 0, "function ran in the caller's thread"); } } else n_refused++;
      } else if (op < 6) { log << "detach "; V::cur(log.str()); s->det = true; t->detach(); anydet = true; if (running) { detached++; n_det++; anydet = true; running = false; } }
      else nap(g.below(200));
    }
    if (running) { detached++; n_det++; }
    log << "destroy"; V::cur(log.str()); if (g.chance(1, 2)) s->release = true;
  }
  s->release = true;
  for (int k = 0; s->finished < ok_starts; k++) { nap(50); if (k > 400000) VFAIL("a started function never finished after " << log.str()); }
  nap(g.chance(1, 4) ? 400 : 0);
  VEQ(s->runs.load(), ok_starts, "runs of the function vs successful starts: " << log.str()); VEQ(s->started.load(), ok_starts, "starts");
  for (int k = 0; live != 0; k++) { nap(50); if (k > 100000) VFAIL("function object leaked or destroyed twice, live=" << live << " after " << log.str()); }
  t_track = false; V::unperturb_me();
  VEQ(g_created - base_c, ok_starts, "created threads"); VEQ(g_joined - base_j, joined, "joined threads: " << log.str()); VEQ(g_detached - base_d, detached, "detached threads: " << log.str());
  VEQ(joined + detached, ok_starts, "every started thread is joined or detached: " << log.str());
  V::nontrivial(V::hash_str(log.str())); if (idx < 3) V::sample(log.str()); g_failnext = 0; g_failjoin = 0;
}
static int g_sum; static void addto(int *p, int a, int b) { *p += a * b; }
static void many(V::Rng &g, uint64_t i) {
  int n = 2 + g.below(12); V::cur("many " + std::to_string(n)); std::vector<std::unique_ptr<PT_> > ts; std::vector<PT_::tid_t> ids(n); std::vector<int> val(n, 0); V::Gate gate(n);
  for (int k = 0; k < n; k++) ts.emplace_back(new PT_([&, k]() { ids[k] = PT_::id(); VCHECK(ids[k] == PT_::id(), "id not stable"); val[k] = k * k + 1; gate.arrive(); }));
  for (auto &t : ts) VCHECK(t->start(), "start"); g.shuffle(ts); for (auto &t : ts) VCHECK(t->join(), "join");
  std::set<PT_::tid_t> u(ids.begin(), ids.end()); u.insert(PT_::id()); VEQ(u.size(), (size_t)n + 1, "thread ids of live threads are distinct"); for (int k = 0; k < n; k++) VEQ(val[k], k * k + 1, "effect");
  int acc = 0; PT_ b(pfi::lang::bind(&addto, &acc, 6, 7)); VCHECK(acc == 0 && b.start() && b.join() && acc == 42, "bound function"); VCHECK(b.start() && b.join() && acc == 84, "restart");
  PT_ e((pfi::lang::function<void()>())); VCHECK(!e.start(), "start of an empty function succeeded"); VCHECK(!e.join(), "join of an empty thread");
  PT_(pfi::lang::function<void()>([]() {})).start();
  V::nontrivial(V::mix64(n) + 3);
}
// the time asked of the kernel, so that long sleeps can be judged without sleeping them
static thread_local bool t_fake; static thread_local double t_asked;
extern "C" { int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!t_fake) return __real_nanosleep(a, b); if (a->tv_sec < 0 || a->tv_nsec < 0 || a->tv_nsec > 999999999) { errno = EINVAL; return -1; } t_asked += a->tv_sec + a->tv_nsec / 1e9; return 0; } }
static void asked(V::Rng &g, uint64_t i) { double t = g.unit() * (g.chance(1, 2) ? 3 : 100000); if (g.chance(1, 4)) t = (double)g.below(5) + (g.chance(1, 2) ? 0.5 : 0.999999); t_asked = 0; t_fake = true; uint64_t a = V::now_us(); if (t > 3) { /* only when it is not really slept */ PT_::sleep(0.001); if (t_asked == 0) t = 0.001; t_asked = 0; a = V::now_us(); } bool r = PT_::sleep(t); t_fake = false; double e = (V::now_us() - a) / 1e6; VCHECK(r, "sleep(" << t << ") returned false"); VCHECK(t_asked + e + 0.000001 >= t && (t_asked == 0 || t_asked <= t + 0.001), "sleep(" << t << ") asked the kernel for " << t_asked << " s"); V::nontrivial((uint64_t)(t * 1e6)); }
static void interrupted(V::Rng &g, uint64_t i) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) {}; sigaction(SIGUSR2, &sa, 0); std::atomic<int> fin(0); double t = 0.02 + g.unit() * 0.1; V::cur("interrupted sleep"); std::thread th([&]() { uint64_t a = V::now_us(); bool r = PT_::sleep(t); double e = (V::now_us() - a) / 1e6; VCHECK(!r || e + 0.0001 >= t, "an interrupted sleep of " << t << " s reported success after " << e); fin = 1; }); for (int k = 0; k < 3 && !fin; k++) { nap(500 + g.below(3000)); pthread_kill(th.native_handle(), SIGUSR2); } th.join(); V::nontrivial(i); }
static void sleeps(V::Rng &g, uint64_t) {
  static const double T[] = {0, -1, 1e-9, 1e-6, 0.0001, 0.001, 0.0123, 0.04, 0.25}; double t = g.chance(1, 2) ? T[g.below(9)] : g.unit() * 0.05; if (g.chance(1, 40)) t = 1.0 + g.unit() * 0.2; double best = 1e9; V::cur("sleep " + std::to_string(t));
  for (int k = 0; k < 5 && best > t * 1.2 + 0.01; k++) { uint64_t a = V::now_us(); bool r = PT_::sleep(t); double e = (V::now_us() - a) / 1e6; VCHECK(r, "sleep(" << t << ") returned false"); VCHECK(e + 0.0001 >= t, "sleep(" << t << ") lasted " << e); best = std::min(best, e); }
  VCHECK(best < std::max(0.0, t) * 1.5 + 0.1, "sleep(" << t << ") never shorter than " << best); PT_::yield(); V::nontrivial((uint64_t)(t * 1e9));
}
int main(int argc, char **argv) {
  V::init(argc, argv, 60); V::PT().on = true;
  V::rule("random start/join/detach/destroy histories (with injected pthread_create failures) against a lifecycle model, pthread handle accounting and live-object counts; distinct = distinct operation histories");
  V::cases("sleep durations", 400, 0.1, asked); V::cases("interrupted", 25, 0.2, interrupted); V::cases("sleep", 60, 0.4, sleeps); V::cases("many", 60, 0.5, many); V::cases("life", 3000, 1, life);
  V::count("starts", n_start); V::count("joins", n_join); V::count("detaches", n_det); V::count("refused start/join", n_refused);
  return V::finish();
}
