// C40: the caching resolver under a scripted lookup and a scripted clock.
#include "net.h"
#include <network/dns.h>
#include <lang/shared_ptr.h>
#include <netdb.h>
#include <sys/time.h>
using pfi::network::ipv4_address; using pfi::network::cached_dns_resolver; using pfi::network::normal_dns_resolver;
static std::atomic<long> fake_now(0); static std::atomic<uint64_t> n_lookup, n_hits, n_expired, n_evicted, n_conc, n_free, n_alloc, n_norm, n_conn;
typedef std::vector<std::string> Addrs;
// what the scripted name service answers; every lookup gets a fresh generation
static std::mutex lm; struct Look { std::string host, port; Addrs a; }; static std::vector<Look> *looks = new std::vector<Look>; static std::map<std::string, std::set<Addrs> > *given = new std::map<std::string, std::set<Addrs> >; static bool scripted = false; static int slow = 0; static std::atomic<unsigned> gen_no(0); static thread_local uint64_t lrng = 0;
static Addrs answer(const std::string &h, unsigned gn) { Addrs a; if (h.find("none") != std::string::npos) return a; int n = 1 + (gn % 3); for (int i = 0; i < n; i++) { char b[32]; snprintf(b, 32, "10.%u.%u.%u", (gn >> 8) & 255, gn & 255, 1 + i + (unsigned)(V::hash_str(h) % 200)); a.push_back(b); } return a; }
extern "C" { int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **); void __real_freeaddrinfo(struct addrinfo *); time_t __real_time(time_t *); int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hint, struct addrinfo **res) { if (!scripted) return __real_getaddrinfo(h, s, hint, res); n_lookup++; unsigned gn = ++gen_no; Look k; k.host = h ? h : ""; k.port = s ? s : ""; k.a = answer(k.host, gn); { std::lock_guard<std::mutex> l(lm); looks->push_back(k); (*given)[k.host + ":" + k.port].insert(k.a); } if (slow) { lrng = V::mix64(lrng + gn); if (lrng % 3 == 0) { struct timespec t = {0, (long)(lrng % (slow * 1000))}; nanosleep(&t, 0); } } if (k.a.empty()) return EAI_NONAME; *res = 0; addrinfo **tail = res; for (auto &x : k.a) { int r = __real_getaddrinfo(x.c_str(), s, hint, tail); if (r) return r; n_alloc++; while (*tail) tail = &(*tail)->ai_next; } return 0; }
void __wrap_freeaddrinfo(struct addrinfo *a) { if (scripted) for (addrinfo *p = a; p; p = p->ai_next) n_free++; __real_freeaddrinfo(a); }
time_t __wrap_time(time_t *t) { if (!scripted) return __real_time(t); time_t v = fake_now; if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { if (!scripted) return __real_gettimeofday(tv, z); tv->tv_sec = fake_now; tv->tv_usec = 0; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!scripted || c != CLOCK_REALTIME) return __real_clock_gettime(c, ts); ts->tv_sec = fake_now; ts->tv_nsec = 0; return 0; } }
static Addrs str(const std::vector<ipv4_address> &v) { Addrs r; for (auto &x : v) r.push_back(x.to_string()); return r; }
static std::string join(const Addrs &a) { std::string r; for (auto &x : a) r += x + " "; return r.empty() ? "nothing" : r; }
struct Ent { Addrs a; long looked, used; };
// exact: the clock moves before every operation, so the least recently used entry is unique and the model evicts it;
// otherwise eviction may choose among entries of one second and the model only uses what holds for every choice.
static void history(V::Rng &g, uint64_t idx) {
  scripted = true; slow = 0; looks->clear(); fake_now = 1000000 + g.below(1000);
  int mx = g.below(6), ex = g.chance(1, 10) ? 0 : 1 + g.below(20); bool fail = g.chance(1, 3), exact = !fail && g.chance(1, 2);
  cached_dns_resolver r(mx, ex); std::map<std::string, Ent> have; std::map<std::string, long> touched;
  std::ostringstream log; log << "cache of " << mx << " entries, " << ex << " s: "; int hosts = 1 + g.below(8), n = 10 + g.below(60);
  for (int i = 0; i < n; i++) {
    if (exact || g.chance(1, 2)) { long d = g.chance(1, 8) ? 1 + g.below(40) : 1 + g.below(3); fake_now += d; log << "+" << d << "s "; }
    std::string h = (fail && g.chance(1, 4) ? "none" : "h") + std::to_string(g.below(hosts)); int port = g.chance(1, 4) ? 81 : 80; std::string key = h + ":" + std::to_string(port);
    int op = g.below(9);
    if (op == 0) { log << "delete " << key << " "; V::cur(log.str()); r.delete_cache(h, port); have.erase(key); continue; }
    if (op == 1) { if (g.chance(1, 4)) { log << "clear "; V::cur(log.str()); r.clear_cache(); have.clear(); } continue; }
    size_t before = looks->size(); log << "resolve " << key; V::cur(log.str());
    Addrs a = str(r.resolve(h, port)); bool looked = looks->size() > before; auto it = have.find(key);
    VCHECK(looks->size() <= before + 1, "several lookups for one resolve after " << log.str());
    if (looked) {
      log << "(looked up) "; VEQ((*looks)[before].host, h, "host looked up"); VEQ((*looks)[before].port, std::to_string(port), "port looked up");
      VEQ(join(a), join((*looks)[before].a), "the answer is not what the lookup returned: " << log.str());
      if (it != have.end() && !it->second.a.empty()) {
        long age = fake_now - it->second.looked; int newer = 0; for (auto &t : touched) if (t.first != key && t.second >= it->second.used) newer++;
        VCHECK(age >= ex || (!exact && newer >= mx), "an entry " << age << " s old, with room for it in the cache, was looked up again within its lifetime: " << log.str()); if (age >= ex) n_expired++;
      }
      have.erase(key);
      if (mx > 0) {
        Ent e; e.a = a; e.looked = e.used = fake_now; have[key] = e;
        if (exact && (int)have.size() > mx) { auto o = have.end(); for (auto q = have.begin(); q != have.end(); ++q) if (q->first != key && (o == have.end() || q->second.used < o->second.used)) o = q; have.erase(o); n_evicted++; }
      }
    } else {
      log << "(cached) "; VCHECK(mx > 0, "a cache of no entries answered: " << log.str());
      VCHECK(it != have.end(), "an entry that was deleted, cleared, pushed out or never looked up was served: " << log.str());
      long idle = fake_now - it->second.used; VCHECK(idle < ex, "an entry unused for " << idle << " s was served: " << log.str());
      VEQ(join(a), join(it->second.a), "the cached answer differs from the lookup's: " << log.str()); it->second.used = fake_now; n_hits++;
    }
    touched[key] = fake_now;
  }
  // never more entries than the maximum: ask for everything at one instant, counting what needed no lookup
  // (every miss may push an entry out, so this can only undercount)
  int hits = 0; fake_now += 1;
  for (int i = 0; i < hosts; i++) for (int p = 80; p < 82; p++) { size_t at = looks->size(); r.resolve("h" + std::to_string(i), p); if (looks->size() == at) hits++; }
  VCHECK(hits <= mx, hits << " entries were served by a cache of " << mx << ": " << log.str());
  VEQ(n_free.load(), n_alloc.load(), "address lists freed"); scripted = false; V::nontrivial(V::hash_str(log.str())); if (idx < 3) V::sample(log.str());
}
static void shared(V::Rng &g, uint64_t) { scripted = true; slow = 200; { std::lock_guard<std::mutex> l(lm); looks->clear(); given->clear(); } fake_now = 2000000; int mx = 1 + g.below(4), ex = 1 + g.below(4); std::unique_ptr<cached_dns_resolver> r(new cached_dns_resolver(mx, ex)); int nt = 2 + g.below(4), hosts = 1 + g.below(5); std::ostringstream o; o << nt << " threads, cache of " << mx << ", " << hosts << " hosts"; V::cur(o.str()); std::vector<std::thread> ts; std::atomic<int> go(0); for (int t = 0; t < nt; t++) { V::Rng q(g.u64()); ts.push_back(std::thread([&, q]() mutable { lrng = q.u64(); go++; while (go < nt) std::this_thread::yield(); for (int i = 0; i < 60; i++) { std::string h = "h" + std::to_string(q.below(hosts)); int p = 80 + q.below(2); switch (q.below(12)) { case 0: r->delete_cache(h, p); break; case 1: if (q.chance(1, 3)) r->clear_cache(); break; case 2: fake_now++; break; default: { Addrs a = str(r->resolve(h, p)); bool ok; { std::lock_guard<std::mutex> l(lm); ok = (*given)[h + ":" + std::to_string(p)].count(a) > 0; } VCHECK(ok, "a thread got " << join(a) << " for " << h << ":" << p << ", which no lookup of it returned (" << o.str() << ")"); n_conc++; } } V::tick(); } })); } for (auto &t : ts) t.join();
  // the cache the threads leave behind is still bounded and still answers
  int hits = 0; fake_now++; for (int i = 0; i < hosts; i++) for (int p = 80; p < 82; p++) { size_t at = looks->size(); Addrs a = str(r->resolve("h" + std::to_string(i), p)); if (looks->size() == at) hits++; VCHECK((*given)["h" + std::to_string(i) + ":" + std::to_string(p)].count(a), "answer after the threads"); } VCHECK(hits <= mx, hits << " entries were served by a cache of " << mx << " after concurrent use"); for (int i = 0; i < 3; i++) { size_t at = looks->size(); r->resolve("h0", 80); if (i) VEQ(looks->size(), at, "an entry just looked up was looked up again at once, after concurrent use"); } fake_now += ex; { size_t at = looks->size(); r->resolve("h0", 80); VEQ(looks->size(), at + 1, "an entry unused for its lifetime was served after concurrent use"); } r.reset(); VEQ(n_free.load(), n_alloc.load(), "address lists freed"); scripted = false; V::nontrivial(g.u64()); }
struct Fixed : pfi::network::dns_resolver { std::vector<ipv4_address> v; std::string h; int p; std::vector<ipv4_address> resolve(const std::string &host, uint16_t port) { h = host; p = port; return v; } };
static void plain(V::Rng &g, uint64_t) { scripted = true; normal_dns_resolver n; for (int i = 0; i < 5; i++) { std::string h = (g.chance(1, 4) ? "none" : "x") + std::to_string(g.below(99)); int p = g.below(65536); size_t at = looks->size(); V::cur("plain resolver " + h); Addrs a = str(n.resolve(h, p)); VEQ(looks->size(), at + 1, "lookups of the plain resolver"); VEQ((*looks)[at].host, h, "host"); VEQ((*looks)[at].port, std::to_string(p), "port"); VEQ(join(a), join((*looks)[at].a), "addresses of the plain resolver"); n_norm++; } scripted = false; VEQ(join(str(n.resolve("127.0.0.1", 80))), std::string("127.0.0.1 "), "numeric host");
  pfi::lang::shared_ptr<Fixed> f(new Fixed); int bad = g.below(3); for (int i = 0; i < bad; i++) f->v.push_back(ipv4_address(255, 255, 255, 255)); bool ok = g.chance(3, 4); if (ok) f->v.push_back(ipv4_address(127, 0, 0, 1)); if (g.chance(1, 2)) f->v.push_back(ipv4_address(255, 255, 255, 255)); N::S::set_dns_resolver(f); N::S *s = new N::S; std::string name = "host" + std::to_string(g.below(100)); V::cur("connect through a resolver"); bool c = s->connect(name, N::listener().port()); VEQ(f->h, name, "host asked of the resolver"); VEQ(f->p, (int)N::listener().port(), "port asked of the resolver"); VEQ(c, ok, "connect with " << bad << " dead addresses first"); if (c) { VEQ(s->remote_addr().to_string(), std::string("127.0.0.1"), "remote address"); N::S *b = N::listener().accept(); VCHECK(b, "accept"); delete b; } delete s; N::S::set_dns_resolver(pfi::lang::shared_ptr<pfi::network::dns_resolver>()); n_conn++; }
int main(int argc, char **argv) { N::init(argc, argv); V::rule("random resolve, delete, clear and clock histories against a model of the cache, the name service and the clock being scripted so that every lookup is visible and gives fresh addresses; several threads sharing one resolver; distinct = distinct histories"); N::listener(); V::cases("plain", 300, .15, plain); V::cases("history", 20000, .6, history); V::cases("shared", 600, 1, shared); V::count("lookups observed", n_lookup); V::count("answers from the cache", n_hits); V::count("expired entries looked up again", n_expired); V::count("evictions", n_evicted); V::count("concurrent answers checked", n_conc); V::count("connects through a resolver", n_conn); N::counts(); return V::finish(); }
