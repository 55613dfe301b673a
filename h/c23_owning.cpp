#include "conc.h"
#include <data/optional.h>
#include <lang/any.h>
#include <lang/scoped_ptr.h>
#include <lang/shared_ptr.h>
#include <lang/weak_ptr.h>
#include <lang/enable_shared_from_this.h>
#include <lang/singleton.h>
using pfi::data::optional; using pfi::lang::any; using pfi::lang::scoped_ptr; using pfi::lang::shared_ptr; using pfi::lang::weak_ptr;
static std::atomic<uint64_t> n_ops, n_throw, n_cons, n_dest, n_expired, n_badcast;
struct Boom {};
// A payload that registers every construction and destruction and whose copies can be made to throw.
static std::set<const void *> live; static int boom_in = -1;
template <int TAG> struct P_ {
  int v; unsigned canary;
  void born() { if (!live.insert(this).second) VFAIL("constructed over a live object"); canary = 0xC0FFEE; ++n_cons; }
  static void maybe() { if (boom_in >= 0 && boom_in-- == 0) { ++n_throw; throw Boom(); } }
  P_(int x = 0) : v(x) { born(); }
  P_(const P_ &o) : v(o.v) { o.alive("copied from"); maybe(); born(); }
  P_ &operator=(const P_ &o) { alive("assigned to"); o.alive("assigned from"); maybe(); v = o.v; return *this; }
  virtual ~P_() { alive("destroyed"); canary = 0xDEAD; live.erase(this); ++n_dest; v = -777; }
  void alive(const char *w) const { if (canary != 0xC0FFEE || !live.count(this)) VFAIL("a dead object is " << w); }
  bool operator==(const P_ &o) const { return v == o.v; } bool operator<(const P_ &o) const { return v < o.v; }
};
typedef P_<0> P; typedef P_<1> Q; struct D : P { D(int x) : P(x) {} };
static void arm(V::Rng &g) { boom_in = g.chance(1, 4) ? (int)g.below(3) : -1; }

static void opt_history(V::Rng &g, uint64_t idx) {
  std::ostringstream log; size_t live0 = live.size();
  { const int K = 4; std::unique_ptr<optional<P>> o[K]; bool has[K]; int val[K]; for (int i = 0; i < K; i++) { o[i].reset(new optional<P>); has[i] = false; val[i] = 0; }
    int n = 1 + g.below(60);
    for (int s = 0; s < n; s++) {
      int i = g.below(K), j = g.below(K), x = g.below(1000); ++n_ops; int op = g.below(11); log << op << ":" << i << "," << j << "," << x << " "; V::cur("optional " + log.str());
      P tmp(x); arm(g);
      try {
        switch (op) {
        case 0: { std::unique_ptr<optional<P>> q(new optional<P>(tmp)); o[i].swap(q); has[i] = true; val[i] = x; break; }
        case 1: { std::unique_ptr<optional<P>> q(new optional<P>(*o[j])); o[i].swap(q); has[i] = has[j]; val[i] = val[j]; break; }
        case 2: *o[i] = *o[j]; has[i] = has[j]; val[i] = val[j]; break;
        case 3: *o[i] = tmp; has[i] = true; val[i] = x; break;
        case 4: if (has[j]) { *o[i] = **o[j]; has[i] = true; val[i] = val[j]; } break;
        case 5: o[i]->swap(*o[j]); std::swap(has[i], has[j]); std::swap(val[i], val[j]); break;
        case 6: { optional<int> oi; if (x % 3) oi = x; *o[i] = oi; has[i] = x % 3 != 0; val[i] = x; break; }
        case 7: { optional<int> oi; if (x % 3) oi = x; std::unique_ptr<optional<P>> q(new optional<P>(oi)); o[i].swap(q); has[i] = x % 3 != 0; val[i] = x; break; }
        case 8: if (has[i]) { (**o[i]).v = x; val[i] = x; } break;
        case 9: if (has[i]) { (*o[i])->v = x; val[i] = x; } break;
        case 10: { boom_in = -1; o[i].reset(new optional<P>); has[i] = false; break; }
        }
      } catch (const Boom &) { log << "! "; }  // a failed copy changes nothing
      boom_in = -1;
      size_t engaged = 0; std::set<const void *> ptrs;
      for (int k = 0; k < K; k++) {
        bool b = *o[k] ? true : false; VCHECK(b == has[k], "optional " << k << " engaged=" << b << " after " << log.str()); VCHECK((o[k]->get() != 0) == has[k], "get() disagrees after " << log.str());
        if (has[k]) { engaged++; (**o[k]).alive("held"); VEQ((**o[k]).v, val[k], "optional " << k << " after " << log.str()); VCHECK(ptrs.insert(o[k]->get()).second, "two optionals share one object after " << log.str()); }
      }
      VEQ(live.size(), live0 + engaged + 1, "live objects (engaged " << engaged << ") after " << log.str());
      for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) { bool lt = has[a] ? (has[b] && val[a] < val[b]) : has[b], eq = has[a] == has[b] && (!has[a] || val[a] == val[b]), gt = has[b] ? (has[a] && val[b] < val[a]) : has[a];
        bool r[6] = {*o[a] == *o[b], *o[a] != *o[b], *o[a] < *o[b], *o[a] > *o[b], *o[a] <= *o[b], *o[a] >= *o[b]}; bool e[6] = {eq, !eq, lt, gt, !gt, !lt};
        for (int q = 0; q < 6; q++) VCHECK(r[q] == e[q], "comparison " << q << " of " << (has[a] ? val[a] : -1) << " and " << (has[b] ? val[b] : -1) << " is " << r[q]); }
    } }
  VEQ(live.size(), live0, "objects left after destroying every optional: " << log.str());
  V::nontrivial(V::hash_str("o" + log.str())); if (idx < 2) V::sample("optional ops op:i,j,x: " + log.str());
}
static void any_history(V::Rng &g, uint64_t idx) {
  std::ostringstream log; size_t live0 = live.size();
  { const int K = 4; std::unique_ptr<any> o[K]; int kind[K], val[K]; for (int i = 0; i < K; i++) { o[i].reset(new any); kind[i] = 0; val[i] = 0; }
    int n = 1 + g.below(60);
    for (int s = 0; s < n; s++) {
      int i = g.below(K), j = g.below(K), x = g.below(1000), kd = 1 + g.below(5); ++n_ops; int op = g.below(7); log << op << ":" << i << "," << j << "," << kd << "," << x << " "; V::cur("any " + log.str());
      P tp(x); Q tq(x); std::string ts = std::to_string(x); std::vector<int> tv(x % 7, x); arm(g);
      try {
        switch (op) {
        case 0: case 1: { if (op == 0) { std::unique_ptr<any> q(kd == 1 ? new any(tp) : kd == 2 ? new any(tq) : kd == 3 ? new any(x) : kd == 4 ? new any(ts) : new any(tv)); o[i].swap(q); }
          else { if (kd == 1) *o[i] = tp; else if (kd == 2) *o[i] = tq; else if (kd == 3) *o[i] = x; else if (kd == 4) *o[i] = ts; else *o[i] = tv; }
          kind[i] = kd; val[i] = x; break; }
        case 2: { std::unique_ptr<any> q(new any(*o[j])); o[i].swap(q); kind[i] = kind[j]; val[i] = val[j]; break; }
        case 3: *o[i] = *o[j]; kind[i] = kind[j]; val[i] = val[j]; break;
        case 4: o[i]->swap(*o[j]); std::swap(kind[i], kind[j]); std::swap(val[i], val[j]); break;
        case 5: if (kind[j] == 1) *o[i] = pfi::lang::any_cast<P>(*o[j]); else if (kind[j] == 4) *o[i] = o[j]->cast<std::string>(); else if (kind[j] == 5) *o[i] = o[j]->cast<std::vector<int>>(); else break; kind[i] = kind[j]; val[i] = val[j]; break;
        case 6: boom_in = -1; o[i].reset(new any); kind[i] = 0; break;
        }
      } catch (const Boom &) { log << "! "; }
      boom_in = -1; size_t objs = 0;
      for (int k = 0; k < K; k++) {
        const std::type_info &ti = o[k]->type(); const std::type_info *want[6] = {&typeid(void), &typeid(P), &typeid(Q), &typeid(int), &typeid(std::string), &typeid(std::vector<int>)};
        VCHECK(ti == *want[kind[k]], "type() is " << ti.name() << " expected " << want[kind[k]]->name() << " after " << log.str()); objs += kind[k] == 1 || kind[k] == 2;
#define TRY(KD, T, EQ) { bool ok = false; try { const T &r = pfi::lang::any_cast<T>(*o[k]); ok = true; VCHECK(kind[k] == KD, "any_cast to the wrong type succeeded after " << log.str()); VCHECK(EQ, "any holds a different value after " << log.str()); } catch (const pfi::lang::bad_any_cast &) { ++n_badcast; } VCHECK(ok == (kind[k] == KD), "any_cast to the held type failed after " << log.str()); }
        TRY(1, P, (r.alive("held"), r.v == val[k])) TRY(2, Q, (r.alive("held"), r.v == val[k])) TRY(3, int, r == val[k]) TRY(4, std::string, r == std::to_string(val[k])) TRY(5, std::vector<int>, r == std::vector<int>(val[k] % 7, val[k]))
        TRY(-1, long, true) TRY(-1, D, true) TRY(-1, unsigned, true)
      }
      VEQ(live.size(), live0 + objs + 2, "live objects after " << log.str());
    } }
  VEQ(live.size(), live0, "objects left after destroying every any: " << log.str());
  V::nontrivial(V::hash_str("a" + log.str())); if (idx < 1) V::sample("any ops op:i,j,kind,x: " + log.str());
}
struct Del { int *n; int id; Del(int *n_, int i) : n(n_), id(i) {} void operator()(P *p) { ++*n; delete p; } };
struct S : P, pfi::lang::enable_shared_from_this<S> { S(int x) : P(x) {} };
static void ptr_history(V::Rng &g, uint64_t idx) {
  std::ostringstream log; size_t live0 = live.size(); int dels = 0, want_dels_total = 0;
  { const int K = 5; shared_ptr<P> sp[K]; weak_ptr<P> wp[K]; int so[K], wo[K]; std::vector<int> val, isS, isDel, isConst; for (int i = 0; i < K; i++) so[i] = wo[i] = -1;
    scoped_ptr<P> sc[2]; int scv[2] = {-1, -1};
    int n = 1 + g.below(80);
    for (int s = 0; s < n; s++) {
      int i = g.below(K), j = g.below(K), x = g.below(1000), op = g.below(18); ++n_ops; log << op << ":" << i << "," << j << "," << x << " "; V::cur("pointers " + log.str());
      auto fresh = [&](int s_, int d_) { val.push_back(x); isS.push_back(s_); isDel.push_back(d_); if (d_) want_dels_total++; return (int)val.size() - 1; };
      switch (op) {
      case 0: sp[i] = shared_ptr<P>(new P(x)); so[i] = fresh(0, 0); break;
      case 1: sp[i] = shared_ptr<S>(new S(x)); so[i] = fresh(1, 0); break;
      case 2: sp[i] = shared_ptr<P>(new P(x), Del(&dels, x)); so[i] = fresh(0, 1); break;
      case 3: sp[i] = sp[j]; so[i] = so[j]; break;
      case 4: sp[i].reset(); so[i] = -1; break;
      case 5: sp[i].swap(sp[j]); std::swap(so[i], so[j]); break;
      case 6: { shared_ptr<P> c(sp[j]); sp[i] = c; so[i] = so[j]; break; }
      case 7: wp[i] = sp[j]; wo[i] = so[j]; break;
      case 8: wp[i] = wp[j]; wo[i] = wo[j]; break;
      case 9: { bool alive = false; for (int k = 0; k < K; k++) alive |= wo[j] >= 0 && so[k] == wo[j]; shared_ptr<P> l = wp[j].lock(); VCHECK((l.get() != 0) == alive, "lock() of " << (alive ? "a live" : "an expired or empty") << " weak pointer after " << log.str()); VCHECK(wp[j].expired() == !alive, "expired() after " << log.str());
        if (alive) VEQ(l->v, val[wo[j]], "lock() gives another object after " << log.str()); else ++n_expired; sp[i] = l; so[i] = alive ? wo[j] : -1; break; }
      case 10: { bool alive = false, thrown = false; for (int k = 0; k < K; k++) alive |= wo[j] >= 0 && so[k] == wo[j]; try { shared_ptr<P> l(wp[j]); l->alive("shared"); VEQ(l->v, val[wo[j]], "weak to shared after " << log.str()); } catch (const pfi::lang::bad_weak_ptr &) { thrown = true; } VCHECK(thrown == !alive, "constructing a shared_ptr from " << (alive ? "a live" : "an expired") << " weak_ptr " << (thrown ? "threw" : "did not throw") << " after " << log.str()); break; }
      case 11: { shared_ptr<S> d = pfi::lang::dynamic_pointer_cast<S>(sp[j]); VCHECK((d.get() != 0) == (so[j] >= 0 && isS[so[j]]), "dynamic_pointer_cast after " << log.str()); if (d) { VEQ(d.use_count(), sp[j].use_count(), "a cast pointer shares ownership"); sp[i] = d; so[i] = so[j]; } break; }
      case 12: if (so[j] >= 0 && isS[so[j]]) { shared_ptr<S> d = pfi::lang::static_pointer_cast<S>(sp[j]); shared_ptr<S> t = d->shared_from_this(); VCHECK(t == d, "shared_from_this gives another pointer"); const S &cs = *d; shared_ptr<const S> ct = cs.shared_from_this(); VCHECK(ct.get() == d.get(), "const shared_from_this"); sp[i] = pfi::lang::const_pointer_cast<S>(ct); so[i] = so[j]; } break;
      case 13: { Del *d = sp[j].get() ? pfi::lang::get_deleter<Del>(sp[j]) : 0; VCHECK((d != 0) == (so[j] >= 0 && isDel[so[j]]), "get_deleter after " << log.str()); if (d) VEQ(d->id, val[so[j]], "deleter of another object"); break; }
      case 14: { S loose(x); bool thrown = false; try { loose.shared_from_this(); } catch (const pfi::lang::bad_weak_ptr &) { thrown = true; } VCHECK(thrown, "shared_from_this on an unowned object"); break; }
      case 15: sc[i % 2].reset(x % 4 ? new P(x) : 0); scv[i % 2] = x % 4 ? x : -1; break;
      case 16: if (x % 2) sc[0].swap(sc[1]); else pfi::lang::swap(sc[0], sc[1]); std::swap(scv[0], scv[1]); break;
      case 17: { scoped_ptr<P> t(new P(x)); if (x % 2) { t.swap(sc[j % 2]); scv[j % 2] = x; } break; }
      }
      std::map<int, long> owners; for (int k = 0; k < K; k++) if (so[k] >= 0) owners[so[k]]++;
      for (int k = 0; k < K; k++) { VCHECK((sp[k].get() != 0) == (so[k] >= 0), "shared_ptr " << k << " null-ness after " << log.str()); if (so[k] >= 0) { sp[k]->alive("owned"); VEQ(sp[k]->v, val[so[k]], "shared_ptr " << k << " after " << log.str()); VEQ(sp[k].use_count(), owners[so[k]], "use_count after " << log.str()); } }
      size_t extra = 0; for (int k = 0; k < 2; k++) { VCHECK((sc[k] ? true : false) == (scv[k] >= 0), "scoped_ptr null-ness after " << log.str()); if (scv[k] >= 0) { extra++; sc[k]->alive("owned"); VEQ((*sc[k]).v, scv[k], "scoped_ptr after " << log.str()); } }
      VEQ(live.size(), live0 + owners.size() + extra, "live objects, " << owners.size() << " owned by shared pointers and " << extra << " by scoped ones, after " << log.str());
      int d = 0; for (auto &kv : owners) d += isDel[kv.first]; VEQ(dels, want_dels_total - d, "custom deleter calls after " << log.str());
    } }
  VEQ(live.size(), live0, "objects left: " << log.str()); VEQ(dels, want_dels_total, "custom deleter ran once per object");
  V::nontrivial(V::hash_str("p" + log.str())); if (idx < 1) V::sample("pointer ops op:i,j,x: " + log.str());
}
// an object that resets the scoped_ptr that held it while it is being destroyed
struct Re { scoped_ptr<Re> *h; int *n; int id; bool dead; Re(scoped_ptr<Re> *h_, int *n_, int i) : h(h_), n(n_), id(i), dead(false) {} ~Re() { VCHECK(!dead, "an object was destroyed twice"); dead = true; ++*n; VCHECK(h->get() != this, "a scoped_ptr still holds the object it is destroying"); if (id & 1) h->reset(); } };
static void reentrant(V::Rng &g, uint64_t) { V::cur("objects that reset their scoped_ptr"); int died = 0, born = 0; { scoped_ptr<Re> h; for (int i = g.below(20); i > 0; i--) { if (g.chance(3, 4)) { h.reset(new Re(&h, &died, g.below(4))); born++; } else h.reset(); } h.reset(); VEQ(died, born, "objects destroyed by resets"); } }
// owners and observers of one object in several threads
struct Obj { std::atomic<int> *alive, *died; int a[8]; Obj(std::atomic<int> *x, std::atomic<int> *y) : alive(x), died(y) { for (int i = 0; i < 8; i++) a[i] = 5 * i; ++*alive; } ~Obj() { for (int i = 0; i < 8; i++) a[i] = -1; --*alive; ++*died; } void look() const { for (int i = 0; i < 8; i++) VEQ(a[i], 5 * i, "an object was destroyed while it had an owner"); } };
static std::atomic<uint64_t> n_locks, n_late;
static void shared_threads(V::Rng &g, uint64_t) { int own = 1 + g.below(3), obs = 1 + g.below(3), R = 120; V::cur("owners and observers in threads"); std::vector<shared_ptr<Obj> > owner(R * own); std::vector<weak_ptr<Obj> > weak(R * obs); std::vector<std::atomic<int> > alive(R), died(R); for (int r = 0; r < R; r++) { alive[r] = died[r] = 0; shared_ptr<Obj> p(new Obj(&alive[r], &died[r])); for (int k = 0; k < own; k++) owner[r * own + k] = p; for (int k = 0; k < obs; k++) weak[r * obs + k] = p; } std::atomic<int> phase(0), in(0); int T = own + obs; std::vector<std::thread> t; auto round = [&](int r) { in++; for (int i = 0; in < (r + 1) * T; i++) { if (i % 200 == 199) { sched_yield(); if (V::timeup(3)) break; } } };
  for (int k = 0; k < own; k++) { V::Rng q(g.u64()); t.push_back(std::thread([&, k, q]() mutable { for (int r = 0; r < R; r++) { round(r); shared_ptr<Obj> &p = owner[r * own + k]; for (int i = q.below(4); i > 0; i--) { shared_ptr<Obj> c(p); c->look(); if (q.chance(1, 2)) p.swap(c); } p->look(); for (volatile int i = q.below(60); i > 0; i = i - 1); p.reset(); } })); }
  for (int k = 0; k < obs; k++) { V::Rng q(g.u64()); t.push_back(std::thread([&, k, q]() mutable { for (int r = 0; r < R; r++) { round(r); weak_ptr<Obj> &w = weak[r * obs + k]; for (;;) { shared_ptr<Obj> l; try { l = w.lock(); } catch (...) { VFAIL("lock() threw while the last owner went"); } n_locks++; if (!l) { n_late++; break; } l->look(); if (q.chance(1, 3)) { shared_ptr<Obj> m = w.lock(); VCHECK(m == l, "lock() of an object that has an owner"); } } try { shared_ptr<Obj> z(w); VFAIL("a shared_ptr was made from an expired weak_ptr"); } catch (const pfi::lang::bad_weak_ptr &) {} } })); }
  for (auto &x : t) x.join(); for (int r = 0; r < R; r++) { VEQ(alive[r].load(), 0, "objects left without owners"); VEQ(died[r].load(), 1, "destructions of one object"); } V::nontrivial(g.u64()); }
static std::atomic<int> sing_born[400];
template <int N> struct Sing { int a[4]; Sing() { sing_born[N]++; for (int i = 0; i < 4; i++) { a[i] = N + i; if (i == 1) sched_yield(); } } };
template <int N> struct RunSing { static void go(V::Rng &g) {
  RunSing<N - 1>::go(g); if (V::timeup(0.99)) return;
  int T = 2 + g.below(6); V::Gate gate(T); std::vector<std::thread> t; std::vector<Sing<N> *> got(T);
  for (int i = 0; i < T; i++) t.push_back(std::thread([&, i] { V::perturb_me(N * 97 + i); gate.arrive(); Sing<N> &s = pfi::lang::singleton<Sing<N>>::instance(); for (int k = 0; k < 4; k++) VEQ(s.a[k], N + k, "singleton seen before its constructor finished"); got[i] = &s; V::unperturb_me(); }));
  for (auto &x : t) x.join(); for (int i = 0; i < T; i++) VCHECK(got[i] == got[0], "two singleton instances"); VEQ(sing_born[N].load(), 1, "singleton constructions"); V::eval(); V::count("singleton races"); } };
template <> struct RunSing<-1> { static void go(V::Rng &) {} };
int main(int argc, char **argv) {
  V::init(argc, argv); V::PT().on = true; V::PT().level = 2; V::rule("random ownership histories over slots of optional/any/shared_ptr/weak_ptr/scoped_ptr with instance-registered payloads whose copies throw at injected points; after every step contents, live-object count, use counts and deleter calls are compared with a model; distinct = distinct histories");
  V::Rng g(V::S().seed); RunSing<119>::go(g);
#ifndef __SANITIZE_THREAD__
  V::cases("optional", 6000, 0.3, opt_history); V::cases("any", 6000, 0.6, any_history); V::cases("pointers", 8000, 0.9, ptr_history);
#endif
  V::cases("reentrant", 300, 9, reentrant); V::cases("owners in threads", 300, 1, shared_threads);
  V::count("operations", n_ops); V::count("constructions", n_cons); V::count("destructions", n_dest); V::count("injected copy failures", n_throw); V::count("expired locks", n_expired); V::count("locks in threads", n_locks); V::count("locks after the last owner", n_late); V::count("refused any_casts", n_badcast);
  return V::finish();
}
