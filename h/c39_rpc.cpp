// C39: RPC between real clients and servers on the loopback; every execution of a server function is
// recorded with its arguments and matched against the calls.
#include "net.h"
#include <network/rpc.h>
#include <data/serialization.h>
#include <data/serialization/unordered_map.h>
#include <condition_variable>
using namespace N; namespace R = pfi::network::rpc; typedef unsigned long long u64;
struct rec { int a; std::string b; std::vector<unsigned char> c; template <class A> void serialize(A &ar) { ar &a &b &c; } };
typedef std::vector<std::string> vs; typedef std::map<std::string, double> mp; typedef std::pair<int, std::string> pr; typedef std::set<int> si;
static std::atomic<uint64_t> n_calls, n_ok, n_err, n_exec, n_throw, n_raw, n_stop, n_unknown, n_unreach;
struct Exec { int n; std::string args; Exec() : n(0) {} };
static std::mutex em; static std::map<u64, Exec> *ex = new std::map<u64, Exec>; static std::atomic<u64> ids(1), tickets(1);
static void add(std::ostringstream &) {}
template <class T, class... U> static void add(std::ostringstream &o, T &t, U &... u) { pfi::data::serialization::binary_oarchive oa(o); oa << t; add(o, u...); }
template <class... U> static std::string canon(const char *nm, U... u) { std::ostringstream o; o << nm << "|"; add(o, u...); return o.str(); }
// what to do after running: throw, or make this server thread's next transfers fail
static std::mutex pm; static std::map<u64, int> *plan = new std::map<u64, int>;
static thread_local Fault *mine = 0; static std::atomic<int> slow_running;
static std::string ran(u64 id, const std::string &c) { n_exec++; int p = 0; { std::lock_guard<std::mutex> l(em); Exec &e = (*ex)[id]; e.n++; e.args = c; } { std::lock_guard<std::mutex> l(pm); auto it = plan->find(id); if (it != plan->end()) p = it->second; } if (p == 5) { slow_running++; std::this_thread::sleep_for(std::chrono::milliseconds(120)); slow_running--; } if (p == 1) throw R::rpc_error("no"); if (p == 2) throw std::runtime_error("no"); if (p == 3) throw 5; if (p == 4) throw std::string("x"); if (p >= 10) { if (!mine) mine = new Fault(id); mine->g = V::Rng(id); mine->cap = p % 2 ? 1 + id % 7 : 0; mine->eintr = p % 3 ? 3 : 0; mine->send_left = p >= 20 ? (long)(id % 40) : -1; fault = mine; one_connection = true; } else { fault = 0; } return c; }
RPC_PROC(p0, u64()); RPC_PROC(p1, std::string(u64)); RPC_PROC(p2, std::string(u64, std::string)); RPC_PROC(p3, vs(u64, std::string, vs)); RPC_PROC(p4, mp(u64, std::string, vs, mp)); RPC_PROC(p5, std::string(u64, std::string, vs, mp, int)); RPC_PROC(p6, pr(u64, std::string, vs, mp, int, pr)); RPC_PROC(p7, std::string(u64, std::string, vs, mp, int, pr, si)); RPC_PROC(p8, bool(u64, std::string, vs, mp, int, pr, si, bool)); RPC_PROC(p9, rec(u64, std::string, vs, mp, int, pr, si, bool, rec)); RPC_PROC(extra, std::string(u64));
RPC_GEN(7, work, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9)
RPC_GEN(7, more, p1, extra)
RPC_GEN(8, newer, p1, p2)
RPC_GEN(6, older, p1, p2)
static u64 f0() { n_exec++; fault = 0; return tickets++; }
static std::string f1(u64 a) { return ran(a, canon("p1", a)); } static std::string f2(u64 a, std::string b) { return ran(a, canon("p2", a, b)); } static vs f3(u64 a, std::string b, vs c) { ran(a, canon("p3", a, b, c)); c.push_back(b); return c; } static mp f4(u64 a, std::string b, vs c, mp d) { ran(a, canon("p4", a, b, c, d)); d["id"] = a; return d; } static std::string f5(u64 a, std::string b, vs c, mp d, int e) { return ran(a, canon("p5", a, b, c, d, e)); } static pr f6(u64 a, std::string b, vs c, mp d, int e, pr f) { ran(a, canon("p6", a, b, c, d, e, f)); return pr(e ^ f.first, b + f.second); } static std::string f7(u64 a, std::string b, vs c, mp d, int e, pr f, si g) { return ran(a, canon("p7", a, b, c, d, e, f, g)); } static bool f8(u64 a, std::string b, vs c, mp d, int e, pr f, si g, bool h) { ran(a, canon("p8", a, b, c, d, e, f, g, h)); return !h; } static rec f9(u64 a, std::string b, vs c, mp d, int e, pr f, si g, bool h, rec i) { ran(a, canon("p9", a, b, c, d, e, f, g, h, i)); i.a ^= e; i.b += b; return i; }
static work_server *serve(int threads, double tmo = 0) { work_server *s = new work_server(tmo); s->set_p0(&f0); s->set_p1(&f1); s->set_p2(&f2); s->set_p3(&f3); s->set_p4(&f4); s->set_p5(&f5); s->set_p6(&f6); s->set_p7(&f7); s->set_p8(&f8); s->set_p9(&f9); if (!s->start(0, threads)) { fprintf(stderr, "cannot start a server\n"); _exit(78); } return s; }
static work_server *pool(int threads) { static std::map<int, work_server *> m; if (!m[threads]) m[threads] = serve(threads); return m[threads]; }
static std::string text(V::Rng &g, size_t most) { return V::rand_bytes(g, V::rand_len(g, most)); }
static int times(u64 id) { std::lock_guard<std::mutex> l(em); return (*ex)[id].n; } static std::string seen(u64 id) { std::lock_guard<std::mutex> l(em); return (*ex)[id].args; } static void drop(u64 id) { std::lock_guard<std::mutex> l(em); ex->erase(id); std::lock_guard<std::mutex> k(pm); plan->erase(id); }
// one call; true if it returned. may_fail: the connection or the function may break
static bool one(V::Rng &g, work_client &c, bool may_fail, int how, const std::string &w) {
  u64 id = ids++; n_calls++; int k = g.below(10); std::string b = text(g, g.chance(1, 10) ? 60000 : 300), want; vs cc; for (int i = g.below(5); i > 0; i--) cc.push_back(text(g, 30)); mp d; for (int i = g.below(4); i > 0; i--) d[text(g, 9)] = g.unit(); int e = g.u32(); pr f(g.u32(), text(g, 20)); si s; for (int i = g.below(6); i > 0; i--) s.insert(g.u32()); bool h = g.chance(1, 2); rec r; r.a = g.u32(); r.b = text(g, 50); { std::string t = text(g, 50); r.c.assign(t.begin(), t.end()); }
  if (how) { std::lock_guard<std::mutex> l(pm); (*plan)[id] = how; if (k == 0) k = 1; } std::ostringstream o; o << "call " << id << " of p" << k << " " << w; V::tick(); bool thrown = how >= 1 && how <= 4;
  try { switch (k) { case 0: { u64 t = c.call_p0(); static std::mutex tm; static std::set<u64> got; std::lock_guard<std::mutex> l(tm); VCHECK(t > 0 && t < tickets && got.insert(t).second, "ticket " << t << " was handed out twice or never: " << o.str()); n_ok++; return true; }
    case 1: want = canon("p1", id); VCHECK(c.call_p1(id) == want, "wrong result: " << o.str()); break; case 2: want = canon("p2", id, b); VCHECK(c.call_p2(id, b) == want, "wrong result: " << o.str()); break; case 3: { want = canon("p3", id, b, cc); vs x = c.call_p3(id, b, cc); vs y = cc; y.push_back(b); VCHECK(x == y, "wrong result: " << o.str()); break; } case 4: { want = canon("p4", id, b, cc, d); mp x = c.call_p4(id, b, cc, d); mp y = d; y["id"] = id; VCHECK(x == y, "wrong result: " << o.str()); break; } case 5: want = canon("p5", id, b, cc, d, e); VCHECK(c.call_p5(id, b, cc, d, e) == want, "wrong result: " << o.str()); break; case 6: { want = canon("p6", id, b, cc, d, e, f); pr x = c.call_p6(id, b, cc, d, e, f); VCHECK(x == pr(e ^ f.first, b + f.second), "wrong result: " << o.str()); break; } case 7: want = canon("p7", id, b, cc, d, e, f, s); VCHECK(c.call_p7(id, b, cc, d, e, f, s) == want, "wrong result: " << o.str()); break; case 8: want = canon("p8", id, b, cc, d, e, f, s, h); VCHECK(c.call_p8(id, b, cc, d, e, f, s, h) == !h, "wrong result: " << o.str()); break; default: { want = canon("p9", id, b, cc, d, e, f, s, h, r); rec x = c.call_p9(id, b, cc, d, e, f, s, h, r); VCHECK(x.a == (r.a ^ e) && x.b == r.b + b && x.c == r.c, "wrong result: " << o.str()); } } }
  catch (const R::rpc_error &x) { n_err++; VCHECK(may_fail || thrown, "a call on a working connection failed with \"" << x.what() << "\": " << o.str()); int t = times(id); VCHECK(t <= 1, "a failed call ran " << t << " times: " << o.str()); drop(id); return false; }
  catch (const std::exception &x) { VFAIL("a call ended with an exception that is no rpc_error: " << x.what() << ": " << o.str()); }
  VCHECK(!thrown, "a call whose function threw returned: " << o.str()); VEQ(times(id), 1, "executions of a call that returned: " << o.str()); VCHECK(seen(id) == want, "the function ran with other arguments than were passed: " << o.str()); drop(id); n_ok++; return true; }
static void clients(V::Rng &g, uint64_t idx) { static const int th[] = {1, 2, 4, 8}; int nt = th[g.below(4)], nc = 1 + g.below(6); work_server *s = pool(nt); std::string w; { std::ostringstream o; o << "(" << nc << " clients, " << nt << " server threads)"; w = o.str(); } V::cur("clients " + w); std::vector<std::thread> ts; bool faults = g.chance(1, 2); for (int i = 0; i < nc; i++) { V::Rng q(g.u64()); ts.push_back(std::thread([=]() mutable { int rounds = 1 + q.below(3); for (int r = 0; r < rounds; r++) { work_client c("127.0.0.1", s->port()); int n = q.below(25); for (int k = 0; k < n; k++) { Arm a(q, faults); int how = 0; bool may = false; if (faults) { switch (q.below(8)) { case 0: how = 1 + q.below(4); n_throw++; break; case 1: a.f.recv_left = q.below(200); may = true; break; case 2: a.f.send_left = q.below(400); may = true; break; case 3: how = 10 + q.below(10); break; case 4: how = 20 + q.below(10); may = true; break; } } one(q, c, may, how, w); } } })); } for (auto &t : ts) t.join(); V::nontrivial(V::hash_str(w) ^ g.u64()); if (idx < 3) V::sample(w); }
static void refusals(V::Rng &g, uint64_t) { work_server *s = pool(2); V::cur("refused calls"); u64 id = ids++; { more_client m("127.0.0.1", s->port()); bool told = false; try { m.call_extra(id); } catch (const R::rpc_error &) { told = true; } catch (...) { VFAIL("an unknown method ended with something that is no rpc_error"); } VCHECK(told, "an unknown method returned"); VEQ(times(id), 0, "executions of an unknown method"); u64 j = ids++; std::string w = canon("p1", j); VCHECK(m.call_p1(j) == w, "the call after an unknown method"); VEQ(times(j), 1, "executions"); drop(j); }
  { newer_client m("127.0.0.1", s->port()); u64 j = ids++; bool told = false; try { if (g.chance(1, 2)) m.call_p1(j); else m.call_p2(j, text(g, 2000)); } catch (const R::version_mismatch &x) { told = true; VEQ(x.server_version(), 7, "server version reported"); VEQ(x.client_version(), 8, "client version reported"); } catch (const R::rpc_error &) { told = true; } VCHECK(told, "a call of another version returned"); VEQ(times(j), 0, "executions of a call of another version"); drop(j); }
  { older_client m("127.0.0.1", s->port()); u64 j = ids++; bool told = false; try { if (g.chance(1, 2)) m.call_p1(j); else m.call_p2(j, text(g, 2000)); } catch (const R::version_mismatch &x) { told = true; VEQ(x.server_version(), 7, "server version reported"); VEQ(x.client_version(), 6, "client version reported"); } catch (const R::rpc_error &) { told = true; } VCHECK(told, "a call of an older version returned"); VEQ(times(j), 0, "executions of a call of an older version"); drop(j); } n_unknown += 3;
  { uint16_t dead; { SS t; t.create(0); dead = t.port(); } work_client c("127.0.0.1", dead); bool told = false; try { c.call_p1(1); } catch (const R::rpc_error &) { told = true; } VCHECK(told, "a call to nobody returned"); n_unreach++; }
  { work_client c("127.0.0.1", s->port()); for (int i = 0; i < 3; i++) one(g, c, false, 0, "(after refused calls)"); } }
static std::string frame(V::Rng &g, u64 id, std::string &want) { std::ostringstream o; pfi::data::serialization::binary_oarchive oa(o); std::string nm = "p2", b = text(g, 60); int v = 7; want = canon("p2", id, b); oa << nm << v << id << b; return o.str(); }
// raw peers: broken frames never run anything, and never hurt the server
static void rawpeers(V::Rng &g, uint64_t) { work_server *s = pool(1 + g.below(2)); u64 id = ids++; std::string want, f = frame(g, id, want); Raw r; VCHECK(r.to(s->port()), "connect"); int k = g.below(6); std::string out; if (k >= 4) { std::ostringstream o; pfi::data::serialization::binary_oarchive oa(o); std::string nm = k == 4 ? "nobody" : "p0"; int v = 99; oa << nm; if (k == 5) oa << v; out = o.str() + f; } else if (k == 0) { size_t cut = g.below(f.size()); out = f.substr(0, cut); } else if (k == 1) out = f; else if (k == 2) { out = V::rand_bytes(g, V::rand_len(g, 300)); } else { u64 z = ids++; std::ostringstream o; pfi::data::serialization::binary_oarchive oa(o); std::string nm = "p0"; int v = 7; oa << nm << v; out = o.str(); out.resize(g.below(out.size())); (void)z; } V::cur("raw peer sends " + V::quote(out)); uint64_t before = n_exec; r.put(out, &g); if (k == 1) { std::string reply = r.until(20, [&](const std::string &x) { return x.size() >= 4 + 2 + 4 + want.size(); }); std::ostringstream o; pfi::data::serialization::binary_oarchive oa(o); std::string ok = "OK"; oa << ok << want; VCHECK(reply == o.str(), "reply to a raw request " << V::quote(reply)); VEQ(times(id), 1, "executions of a raw request"); } else { Own o; ::shutdown(r.fd, SHUT_WR); std::string rest = r.all(); (void)rest; if (k == 0) { VEQ(times(id), 0, "executions of a request that broke off"); } if (k >= 4) VEQ(times(id), 0, "the arguments of a refused call were run as a call"); if (k == 3) VEQ(n_exec.load(), before, "a request that broke off before its version was run"); } if (g.chance(1, 3)) r.reset(); r.shut(); drop(id); { work_client c("127.0.0.1", s->port()); one(g, c, false, 0, "(after a raw peer)"); } n_raw++; }
static void idle(V::Rng &g, uint64_t) { static work_server *s = serve(1, .15); V::cur("idle connections"); work_client c("127.0.0.1", s->port()); one(g, c, true, 0, "(idle)"); std::this_thread::sleep_for(std::chrono::milliseconds(300)); work_client d("127.0.0.1", s->port()); VCHECK(one(g, d, false, 0, "(after another client was idle)"), "call"); }
static void stopping(V::Rng &g, uint64_t) { work_server *s = serve(1 + g.below(5)); V::cur("stopping a server"); std::vector<std::thread> ts; std::atomic<int> back(0); int waiters = 1 + g.below(3); for (int i = 0; i < waiters; i++) ts.push_back(std::thread([&] { s->wait_until_stopped(); back++; })); { work_client c("127.0.0.1", s->port()); for (int i = g.below(5); i > 0; i--) one(g, c, false, 0, "(before stopping)"); VCHECK(s->is_running() && !s->is_stopped(), "state"); if (g.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(3000))); } // the last connection is closed here: the server threads become free
  s->stop(); uint64_t t0 = V::now_us(); while (back < waiters && V::now_us() - t0 < 30000000) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); V::tick(); } VEQ(back.load(), waiters, "threads that returned from waiting for the server to stop"); for (auto &t : ts) t.join(); VCHECK(s->is_stopped() && !s->is_running() && !s->is_stopping(), "state after stopping"); bool told = false; try { work_client c("127.0.0.1", s->port()); c.call_p0(); } catch (const R::rpc_error &) { told = true; } VCHECK(told, "a stopped server answered"); if (g.chance(1, 2)) { VCHECK(s->start(0, 2), "restarting"); { work_client c("127.0.0.1", s->port()); one(g, c, false, 0, "(after restarting)"); } s->stop(); s->wait_until_stopped(); } delete s; n_stop++; }
// a server counts as stopped only when no function runs any more
static void stopbusy(V::Rng &g, uint64_t) { int th = 2 + g.below(4); work_server *s = serve(th); V::cur("stopping a server while a function runs"); std::thread w([&] { s->wait_until_stopped(); VEQ(slow_running.load(), 0, "functions still running when the wait for the server to stop returned"); }); int nb = 1 + g.below(th - 1); std::vector<std::thread> cs; for (int i = 0; i < nb; i++) { V::Rng q(g.u64()); cs.push_back(std::thread([=]() mutable { work_client c("127.0.0.1", s->port()); one(q, c, true, 5, "(slow, while stopping)"); })); } uint64_t t0 = V::now_us(); while (slow_running == 0 && V::now_us() - t0 < 20000000) std::this_thread::yield(); VCHECK(slow_running > 0, "a call did not reach its function"); s->stop(); std::thread w2([&] { s->wait_until_stopped(); VEQ(slow_running.load(), 0, "functions still running when a wait begun after stop() returned"); }); for (auto &t : cs) { while (slow_running) { bool st = s->is_stopped(); if (st) VEQ(slow_running.load(), 0, "functions running in a server that says it is stopped"); std::this_thread::sleep_for(std::chrono::milliseconds(2)); V::tick(); } t.join(); } w.join(); w2.join(); VCHECK(s->is_stopped(), "state"); delete s; n_stop++; }
// arguments and results of many elements and of megabytes
static void bigargs(V::Rng &g, uint64_t i) { work_server *s = pool(2); work_client c("127.0.0.1", s->port()); static const size_t K[] = {256, 65535, 65537, 70000, 140001}; size_t n = K[i % 5]; V::cur("calls with " + std::to_string(n) + " elements"); for (int k = 0; k < 3; k++) { u64 id = ids++; std::string b; vs cc; mp d; if (k == 0) b = V::rand_bytes(g, i == 4 ? (5u << 20) + 1 : n * 3); if (k == 1) for (size_t j = 0; j < n; j++) cc.push_back(std::to_string(j)); if (k == 2) for (size_t j = 0; j < n / 4; j++) d[std::to_string(j * 7919)] = j; mp w = d; w["id"] = id; mp x = c.call_p4(id, b, cc, d); VCHECK(x == w, "wrong result of a call with " << b.size() << " bytes, " << cc.size() << " strings, " << d.size() << " entries"); VCHECK(seen(id) == canon("p4", id, b, cc, d), "the function ran with other arguments: " << b.size() << " bytes, " << cc.size() << " strings, " << d.size() << " entries"); VEQ(times(id), 1, "executions"); drop(id); id = ids++; if (k == 1) { vs r = c.call_p3(id, b, cc); cc.push_back(b); VCHECK(r == cc, "wrong result of " << r.size() << " strings"); drop(id); } if (k == 0) { VCHECK(c.call_p2(id, b) == canon("p2", id, b), "wrong result of " << b.size() << " bytes"); drop(id); } V::tick(); n_calls++; n_ok++; } V::nontrivial(n * 77 + i); }
// the blocking form: returns only when the server stopped; refuses a port in use
static void blocking(V::Rng &g, uint64_t) { V::cur("serv"); work_server *s = new work_server(0); s->set_p1(&f1); VCHECK(!s->is_running() && s->is_stopped() && !s->is_stopping(), "state of a server never started"); s->wait_until_stopped(); { work_server u(0); VCHECK(!u.serv(pool(1)->port(), 2), "serv on a port in use"); VCHECK(!u.is_running(), "a server that could not start says it is running"); } std::atomic<int> ret(0); std::thread t([&] { bool r = s->serv(0, 1 + g.below(3)); ret = r ? 1 : 2; }); uint64_t t0 = V::now_us(); while (!s->is_running() && V::now_us() - t0 < 20000000) std::this_thread::yield(); VCHECK(s->is_running() && ret == 0, "serv does not run"); { work_client c("127.0.0.1", s->port()); for (int i = 0; i < 3; i++) { u64 id = ids++; VCHECK(c.call_p1(id) == canon("p1", id), "call of a serv server"); VEQ(times(id), 1, "executions"); drop(id); } } VEQ(ret.load(), 0, "serv returned while the server runs"); s->stop(); t.join(); VEQ(ret.load(), 1, "serv"); VCHECK(s->is_stopped() && !s->is_running() && !s->is_stopping(), "state after serv"); delete s; n_stop++; }
int main(int argc, char **argv) { N::init(argc, argv); bool tsan = getenv("VH_NOSTOP"); V::rule("concurrent clients calling functions of none to nine arguments on servers of one to eight threads, with interrupted, shortened and broken transfers on both sides, functions that throw, unknown methods, other versions, unreachable ports, raw peers with broken frames, idle time-outs and stops; every execution is recorded and matched to its call; distinct = distinct client schedules"); V::cases("refusals", 60, .15, refusals); V::cases("raw peers", 400, .35, rawpeers); V::cases("clients", 900, .8, clients); V::cases("large arguments", 5, 9, bigargs); if (!tsan) { V::cases("blocking servers", 5, 9, blocking); V::cases("stopping a busy server", 12, 9, stopbusy); V::cases("stopping", 80, .95, stopping); } V::cases("idle", 3, 1, idle); V::count("calls made", n_calls); V::count("calls that returned", n_ok); V::count("calls that ended with rpc_error", n_err); V::count("executions recorded", n_exec); V::count("functions that threw", n_throw); V::count("raw peers", n_raw); V::count("refused calls", n_unknown); V::count("unreachable servers", n_unreach); V::count("servers stopped", n_stop); counts(); return V::finish(); }
