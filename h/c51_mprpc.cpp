// C51: MessagePack-RPC between real clients and servers on the loopback, over a stand-in for the
// msgpack library (cfg/msgpack_stub.h); every execution of a server function is recorded with its
// arguments and matched against the calls, raw peers speak to either side.
#include "net.h"
#include <network/mprpc.h>
#include <signal.h>
using namespace N; namespace R = pfi::network::mprpc; typedef unsigned long long u64;
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
static std::atomic<uint64_t> n_again;
static bool interrupted(N::Fault *q) { if (!q->eintr || q->g.below(q->eintr)) return false; N::n_eintr++; if (q->g.chance(1, 2)) { n_again++; errno = EAGAIN; } else errno = EINTR; return true; }
ssize_t __wrap_read(int fd, void *p, size_t n) { N::Fault *q = N::fault; if (N::harness || !q) return __real_read(fd, p, n); N::n_recv++; if (interrupted(q)) return -1; if (q->recv_left == 0) { N::n_broken++; if (q->recv_how == 0) return 0; errno = q->recv_how; return -1; } size_t m = n; if (q->cap && m > 1) { m = 1 + q->g.below(std::min<size_t>(m, q->cap)); N::n_short++; } if (q->recv_left > 0 && m > (size_t)q->recv_left) m = q->recv_left; ssize_t r = __real_read(fd, p, m); if (r > 0 && q->recv_left > 0) q->recv_left -= r; return r; }
ssize_t __wrap_write(int fd, const void *p, size_t n) { N::Fault *q = N::fault; if (N::harness || !q) return __real_write(fd, p, n); N::n_send++; if (interrupted(q)) return -1; if (q->send_left == 0) { N::n_broken++; errno = q->send_how ? q->send_how : EPIPE; return -1; } size_t m = n; if (q->cap && m > 1) { m = 1 + q->g.below(std::min<size_t>(m, q->cap)); N::n_short++; } if (q->send_left > 0 && m > (size_t)q->send_left) m = q->send_left; ssize_t r = __real_write(fd, p, m); if (r > 0 && q->send_left > 0) q->send_left -= r; return r; }
}
struct rec { int a; std::string b; std::vector<unsigned char> c; rec() : a(0) {} MSGPACK_DEFINE(a, b, c) };
typedef std::vector<std::string> vs; typedef std::map<std::string, double> mp; typedef std::pair<int, std::string> pr; typedef std::set<int> si;
static std::atomic<uint64_t> n_calls, n_ok, n_err, n_exec, n_raw, n_rawserv, n_stop, n_refused, n_late, n_pipe;
struct Exec { int n; std::string args; Exec() : n(0) {} };
static std::mutex em; static std::map<u64, Exec> *ex = new std::map<u64, Exec>; static std::atomic<u64> ids(1), tickets(1);
static void add(msgpack::sbuffer &) {}
template <class T, class... U> static void add(msgpack::sbuffer &o, const T &t, const U &... u) { msgpack::pack(o, t); add(o, u...); }
template <class... U> static std::string bytes(const U &... u) { msgpack::sbuffer o; add(o, u...); return std::string(o.data(), o.size()); }
template <class... U> static std::string canon(const char *nm, const U &... u) { return std::string(nm) + "|" + bytes(u...); }
static std::mutex pm; static std::map<u64, int> *plan = new std::map<u64, int>; static thread_local Fault *mine = 0; static std::atomic<int> slow_running;
static std::string ran(u64 id, const std::string &c) { n_exec++; fault = 0; int p = 0; { std::lock_guard<std::mutex> l(em); Exec &e = (*ex)[id]; e.n++; e.args = c; } { std::lock_guard<std::mutex> l(pm); auto it = plan->find(id); if (it != plan->end()) p = it->second; } if (p == 5) { slow_running++; std::this_thread::sleep_for(std::chrono::milliseconds(250)); slow_running--; } if (p == 1) throw R::rpc_error("no rpc"); if (p == 2) throw std::runtime_error(std::string("no\0t this", 4) + "std"); if (p == 3) throw 5; if (p == 4) throw R::rpc_type_error("no type"); if (p == 6) throw R::rpc_timeout_error("no time"); if (p >= 10) { if (!mine) mine = new Fault(id); mine->g = V::Rng(id); mine->cap = p % 2 ? 1 + id % 7 : 0; mine->eintr = p % 3 ? 3 : 0; mine->send_left = p >= 20 ? (long)(id % 40) : -1; fault = mine; one_connection = true; } else fault = 0; return c; }
MPRPC_PROC(p0, u64()); MPRPC_PROC(p1, std::string(u64)); MPRPC_PROC(p2, std::string(u64, std::string)); MPRPC_PROC(p3, vs(u64, std::string, vs)); MPRPC_PROC(p4, mp(u64, std::string, vs, mp)); MPRPC_PROC(p5, std::string(u64, std::string, vs, mp, int)); MPRPC_PROC(p6, pr(u64, std::string, vs, mp, int, pr)); MPRPC_PROC(p7, std::string(u64, std::string, vs, mp, int, pr, si)); MPRPC_PROC(p8, bool(u64, std::string, vs, mp, int, pr, si, bool)); MPRPC_PROC(p9, rec(u64, std::string, vs, mp, int, pr, si, bool, rec)); MPRPC_PROC(few, std::string(u64, int, bool, double, long, unsigned, short, bool, int));
MPRPC_GEN(1, work, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, few)
namespace other { MPRPC_PROC(p1, int(u64)); MPRPC_PROC(p2, std::string(u64, int)); MPRPC_PROC(p4, std::string(std::string, u64, int, int)); MPRPC_PROC(extra, std::string(u64)); MPRPC_GEN(1, odd, p1, p2, p4, extra) }
static u64 f0() { n_exec++; fault = 0; return tickets++; }
static std::string f1(u64 a) { return ran(a, canon("p1", a)); } static std::string f2(u64 a, std::string b) { return ran(a, canon("p2", a, b)); } static vs f3(u64 a, std::string b, vs c) { ran(a, canon("p3", a, b, c)); c.push_back(b); return c; } static mp f4(u64 a, std::string b, vs c, mp d) { ran(a, canon("p4", a, b, c, d)); d["id"] = a; return d; } static std::string f5(u64 a, std::string b, vs c, mp d, int e) { return ran(a, canon("p5", a, b, c, d, e)); } static pr f6(u64 a, std::string b, vs c, mp d, int e, pr f) { ran(a, canon("p6", a, b, c, d, e, f)); return pr(e ^ f.first, b + f.second); } static std::string f7(u64 a, std::string b, vs c, mp d, int e, pr f, si g) { return ran(a, canon("p7", a, b, c, d, e, f, g)); } static bool f8(u64 a, std::string b, vs c, mp d, int e, pr f, si g, bool h) { ran(a, canon("p8", a, b, c, d, e, f, g, h)); return !h; } static rec f9(u64 a, std::string b, vs c, mp d, int e, pr f, si g, bool h, rec i) { ran(a, canon("p9", a, b, c, d, e, f, g, h, i)); i.a ^= e; i.b += b; return i; }
static std::string ffew(u64 a, int b, bool c, double d, long e, unsigned f, short g, bool h, int i) { return ran(a, canon("few", a, b, c, d, e, f, g, h, i)); }
struct server : work_server { server(double t) : R::rpc_server(t), work_server(t) { set_p0(&f0); set_p1(&f1); set_p2(&f2); set_p3(&f3); set_p4(&f4); set_p5(&f5); set_p6(&f6); set_p7(&f7); set_p8(&f8); set_p9(&f9); set_few(&ffew); } uint16_t port() { return rawport(sock.get()); } };
static server *serve(int threads, double tmo = 0) { server *s = new server(tmo); if (!s->create(0) || !s->run(threads, false)) { fprintf(stderr, "cannot start a server\n"); _exit(78); } return s; }
static uint16_t pool(int threads) { static std::map<int, uint16_t> m; if (!m[threads]) m[threads] = serve(threads)->port(); return m[threads]; }
static std::string text(V::Rng &g, size_t most) { return V::rand_bytes(g, V::rand_len(g, most)); }
static int times(u64 id) { std::lock_guard<std::mutex> l(em); return (*ex)[id].n; } static std::string seen(u64 id) { std::lock_guard<std::mutex> l(em); return (*ex)[id].args; } static void drop(u64 id) { std::lock_guard<std::mutex> l(em); ex->erase(id); std::lock_guard<std::mutex> k(pm); plan->erase(id); }
static void intend(u64 id, int how) { std::lock_guard<std::mutex> l(pm); (*plan)[id] = how; }
// one call; true if it returned. may_fail: the connection may break
static bool one(V::Rng &g, work_client &c, bool may_fail, int how, const std::string &w) {
  u64 id = ids++; n_calls++; int k = g.below(10); std::string b = text(g, g.chance(1, 10) ? 90000 : 300), want; vs cc; for (int i = g.below(g.chance(1, 9) ? 40 : 5); i > 0; i--) cc.push_back(text(g, 40)); mp d; for (int i = g.below(g.chance(1, 9) ? 40 : 4); i > 0; i--) d[text(g, 9)] = g.unit(); int e = g.u32() >> g.below(32); if (g.chance(1, 2)) e = -e; pr f(g.u32(), text(g, 20)); si s; for (int i = g.below(6); i > 0; i--) s.insert((int)g.u32() >> g.below(32)); bool h = g.chance(1, 2); rec r; r.a = g.u32(); r.b = text(g, 50); { std::string t = text(g, 50); r.c.assign(t.begin(), t.end()); }
  if (how) { intend(id, how); if (k == 0) k = 1; } std::ostringstream o; o << "call " << id << " of p" << k << " " << w; V::tick(); bool thrown = how >= 1 && how <= 6 && how != 5; const char *said[] = {"", "no rpc", "no", 0, "no type", "", "no time"};
  try { switch (k) { case 0: { u64 t = c.call_p0(); static std::mutex tm; static std::set<u64> got; std::lock_guard<std::mutex> l(tm); VCHECK(t > 0 && t < tickets && got.insert(t).second, "ticket " << t << " was handed out twice or never: " << o.str()); n_ok++; return true; }
    case 1: want = canon("p1", id); VCHECK(c.call_p1(id) == want, "wrong result: " << o.str()); break; case 2: want = canon("p2", id, b); VCHECK(c.call_p2(id, b) == want, "wrong result: " << o.str()); break; case 3: { want = canon("p3", id, b, cc); vs x = c.call_p3(id, b, cc); vs y = cc; y.push_back(b); VCHECK(x == y, "wrong result: " << o.str()); break; } case 4: { want = canon("p4", id, b, cc, d); mp x = c.call_p4(id, b, cc, d); mp y = d; y["id"] = id; VCHECK(x == y, "wrong result: " << o.str()); break; } case 5: want = canon("p5", id, b, cc, d, e); VCHECK(c.call_p5(id, b, cc, d, e) == want, "wrong result: " << o.str()); break; case 6: { want = canon("p6", id, b, cc, d, e, f); pr x = c.call_p6(id, b, cc, d, e, f); VCHECK(x == pr(e ^ f.first, b + f.second), "wrong result: " << o.str()); break; } case 7: want = canon("p7", id, b, cc, d, e, f, s); VCHECK(c.call_p7(id, b, cc, d, e, f, s) == want, "wrong result: " << o.str()); break; case 8: want = canon("p8", id, b, cc, d, e, f, s, h); VCHECK(c.call_p8(id, b, cc, d, e, f, s, h) == !h, "wrong result: " << o.str()); break; default: { want = canon("p9", id, b, cc, d, e, f, s, h, r); rec x = c.call_p9(id, b, cc, d, e, f, s, h, r); VCHECK(x.a == (r.a ^ e) && x.b == r.b + b && x.c == r.c, "wrong result: " << o.str()); } } }
  catch (const R::rpc_error &x) { n_err++; VCHECK(may_fail || thrown, "a call on a working connection failed with \"" << x.what() << "\": " << o.str()); int t = times(id); VCHECK(t <= 1, "a failed call ran " << t << " times: " << o.str()); if (!may_fail) { VEQ(t, 1, "executions of a call whose function threw: " << o.str()); if (said[how]) VEQ(std::string(x.what()), std::string(said[how]), "message of the exception the function threw: " << o.str()); } drop(id); return false; }
  catch (const std::exception &x) { VFAIL("a call ended with an exception that is no rpc_error: " << x.what() << ": " << o.str()); }
  VCHECK(!thrown, "a call whose function threw returned: " << o.str()); VEQ(times(id), 1, "executions of a call that returned: " << o.str()); VCHECK(seen(id) == want, "the function ran with other arguments than were passed: " << o.str()); drop(id); n_ok++; return true; }
static void clients(V::Rng &g, uint64_t idx) { static const int th[] = {1, 2, 4, 8}; int nt = th[g.below(4)], nc = 1 + g.below(6); uint16_t port = pool(nt); std::string w; { std::ostringstream o; o << "(" << nc << " clients, " << nt << " server threads)"; w = o.str(); } V::cur("clients " + w); std::vector<std::thread> ts; bool faults = g.chance(1, 2); for (int i = 0; i < nc; i++) { V::Rng q(g.u64()); ts.push_back(std::thread([=]() mutable { int rounds = 1 + q.below(3); for (int r = 0; r < rounds; r++) { work_client *c = new work_client("127.0.0.1", port, q.chance(1, 2) ? 0 : 60); int n = q.below(25); bool dead = false; for (int k = 0; k < n && !dead; k++) { Arm a(q, faults); int how = 0; bool may = false; if (faults) { switch (q.below(8)) { case 0: how = 1 + q.below(6); if (how == 5) how = 6; break; case 1: a.f.recv_left = q.below(200); if (q.chance(1, 2)) a.f.recv_how = ECONNRESET; may = true; break; case 2: a.f.send_left = q.below(400); may = true; break; case 3: how = 10 + q.below(10); break; case 4: how = 20 + q.below(10); may = true; break; } } if (!one(q, *c, may, how, w) && may) dead = true; if (dead && q.chance(1, 2)) { fault = 0; one(q, *c, true, 0, w + " on a connection that broke"); } } delete c; } })); } for (auto &t : ts) t.join(); V::nontrivial(V::hash_str(w) ^ g.u64()); if (idx < 3) V::sample(w); }
#define TOLD(K, E) do { bool told = false; try { K; } catch (const E &) { told = true; } catch (const std::exception &x) { VFAIL("expected " #E " from " #K ", got \"" << x.what() << "\""); } VCHECK(told, #K " returned"); } while (0)
static void refusals(V::Rng &g, uint64_t) { uint16_t port = pool(2); V::cur("refused calls"); other::odd_client m("127.0.0.1", port, 30); u64 id = ids++; TOLD(m.call_p2(id, 5), R::rpc_type_error); VEQ(times(id), 0, "executions of a call with an argument of another type"); TOLD(m.call_p4("x", id, 1, 2), R::rpc_type_error); VEQ(times(id), 0, "executions of a call with an argument of another type"); bool told = false; try { m.call_extra(id); } catch (R::method_not_found &x) { told = true; VEQ(x.name(), std::string("extra"), "name of the method that is missing"); } catch (const std::exception &x) { VFAIL("unknown method: " << x.what()); } VCHECK(told, "an unknown method returned"); VEQ(times(id), 0, "executions"); TOLD(m.call_p1(id), R::rpc_type_error); VEQ(times(id), 1, "executions of a call whose result has another type"); drop(id); n_refused += 4;
  { uint16_t dead; { R::socket t; VCHECK(t.listen(0), "listen"); dead = rawport(t.get()); R::socket u; VCHECK(!u.listen(dead) && u.get() < 0, "listening on a port in use"); } work_client c("127.0.0.1", dead, 5); TOLD(c.call_p1(1), R::rpc_error); R::socket t; VCHECK(!t.connect("127.0.0.1", dead) && t.get() < 0, "connect to nobody"); VCHECK(!t.set_nodelay(true) && !t.set_timeout(1) && !t.close(), "options of a socket that is not open"); }
  { work_client c("127.0.0.1", port, 30); for (int i = 0; i < 3; i++) one(g, c, false, 0, "(after refused calls)"); } }
// ---- raw peers of the server
static std::string request(u64 id, uint32_t msgid, const std::string &b) { return "\x94" + std::string(1, 0) + bytes(msgid, std::string("p2")) + "\x92" + bytes(id, b); }
static std::string reply(uint32_t msgid, const std::string &res) { return "\x94\x01" + bytes(msgid) + "\xc0" + res; }
static void rawpeers(V::Rng &g, uint64_t) { uint16_t port = pool(1 + g.below(2)); Raw r; VCHECK(r.to(port), "connect"); int k = g.below(9); std::string out, back; std::vector<std::pair<u64, std::string> > must; std::vector<u64> never; bool closes = false; bool more = g.chance(1, 2);
  int before = g.below(4); auto good = [&](int n) { for (int i = 0; i < n; i++) { u64 id = ids++; uint32_t m = g.u32() >> g.below(32); std::string b = text(g, g.chance(1, 12) ? 40000 : 60); out += request(id, m, b); std::string w = canon("p2", id, b); back += reply(m, bytes(w)); must.push_back(std::make_pair(id, w)); } }; good(before + (k == 0));
  switch (k) { case 0: break; case 1: { u64 id = ids++; std::string q = request(id, 7, text(g, 60)); out += q.substr(0, g.below(q.size())); never.push_back(id); closes = true; break; }
    case 2: out += "\xc1" + text(g, 50); closes = true; break; case 3: out += bytes((int)g.below(99)); closes = true; break; /* no message at all */
    case 4: out += "\x94\x01\x05\xc0\x07"; break; /* a reply: ignored */
    case 5: { u64 id = ids++; never.push_back(id); out += "\x94" + std::string(1, 0) + bytes(9u, (int)g.below(5)) + "\x92" + bytes(id, std::string("x")); closes = true; break; } /* the method is no string */
    case 6: { u64 id = ids++; uint32_t m = g.u32(); out += "\x94" + std::string(1, 0) + bytes(m, std::string("p2")) + "\x92" + bytes(std::string("x"), id); back += "\x94\x01" + bytes(m) + "\x02\xc0"; never.push_back(id); break; } /* arguments of other types */
    case 7: { uint32_t m = g.u32(); std::string nm = "q" + text(g, 300); out += "\x94" + std::string(1, 0) + bytes(m, nm) + "\x90"; back += "\x94\x01" + bytes(m) + "\x01" + bytes(nm); break; }
    default: { std::string deep(20 + g.below(60), '\x91'); out += deep + "\xc0"; closes = true; } }
  if (!closes && more) good(1 + g.below(3)); V::cur("raw peer " + std::to_string(k) + " sends " + V::quote(out)); r.put(out, g.chance(1, 2) ? &g : 0);
  { Own o; if (closes) { ::shutdown(r.fd, SHUT_WR); } std::string got; if (closes) got = r.all(); else { got = r.until(20, [&](const std::string &x) { return x.size() >= back.size(); }); } if (closes && k != 5) { VCHECK(got == back || k >= 2, "replies " << V::quote(got) << " expected " << V::quote(back)); VCHECK(got.compare(0, back.size(), back) == 0, "replies " << V::quote(got) << " expected " << V::quote(back)); } else VCHECK(got.compare(0, back.size(), back) == 0 && (closes || got.size() == back.size()), "replies " << V::quote(got) << " expected " << V::quote(back)); }
  for (auto &m : must) { VEQ(times(m.first), 1, "executions of a request of a raw peer"); VCHECK(seen(m.first) == m.second, "arguments of a request of a raw peer"); drop(m.first); } for (u64 n : never) { VEQ(times(n), 0, "executions of a request that is broken"); drop(n); }
  if (g.chance(1, 3)) r.reset(); r.shut(); { work_client c("127.0.0.1", port, 30); one(g, c, false, 0, "(after a raw peer)"); } n_raw++; V::nontrivial(V::hash_str(out)); }
// too few and too many arguments: never indeterminate values
static void fewargs(V::Rng &g, uint64_t i) { uint16_t port = pool(1); Raw r; VCHECK(r.to(port), "connect"); int n = i % 12; u64 id = ids++; int b = n > 1 ? 7 : 0; bool c = n > 2; double d = n > 3 ? 2.5 : 0; long e = n > 4 ? -9 : 0; unsigned f = n > 5 ? 6 : 0; short h = n > 6 ? -3 : 0; bool j = n > 7; int l = n > 8 ? 11 : 0; std::string all[] = {bytes(id), bytes(7), bytes(true), bytes(2.5), bytes(-9L), bytes(6u), bytes((short)-3), bytes(true), bytes(11), bytes(1), bytes(std::string("x"))}; std::string out = "\x94" + std::string(1, 0) + bytes(3u, std::string("few")); out += (char)(0x90 | n); for (int k = 0; k < n && k < 11; k++) out += all[k]; V::cur("raw call with " + std::to_string(n) + " of 9 arguments"); if (n == 0) { id = 0; } r.put(out); std::string got = r.until(20, [&](const std::string &x) { return x.size() >= 5; }); std::this_thread::sleep_for(std::chrono::milliseconds(5)); got += r.until(.001, [](const std::string &) { return false; }); std::string want = canon("few", id, b, c, d, e, f, h, j, l); bool refused = got.size() >= 5 && got.compare(0, 3, "\x94\x01\x03") == 0 && got[3] != '\xc0'; if (!(refused && n != 9)) { VCHECK(got == reply(3, bytes(want)), "reply " << V::quote(got) << " expected " << V::quote(reply(3, bytes(want)))); VCHECK(seen(id) == want, "arguments the function ran with"); } drop(id); }
// ---- raw servers: what they send must not be taken for something else
static void rawservers(V::Rng &g, uint64_t) { Own own; int ls = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (::bind(ls, (sockaddr *)&a, sizeof a) || ::listen(ls, 5)) _exit(78); uint16_t port = rawport(ls); int k = g.below(10), calls = 1 + g.below(4); V::Rng q(g.u64()); V::cur("raw server " + std::to_string(k));
  std::thread t([=]() mutable { Own own; int c = ::accept(ls, 0, 0); Raw r; r.fd = c; msgpack::unpacker u; for (int n = 0; n < calls; n++) { while (!u.execute()) { u.reserve_buffer(4096); ssize_t z = ::recv(c, u.buffer(), u.buffer_capacity(), 0); if (z <= 0) return; u.buffer_consumed(z); } msgpack::object o = u.data(); std::unique_ptr<msgpack::zone> zone(u.release_zone()); u.reset(); uint32_t id = o.via.array.ptr[1].as<uint32_t>(); std::string x = bytes(o.via.array.ptr[3].via.array.ptr[0]), out, ok = reply(id, bytes("r" + std::to_string(o.via.array.ptr[3].via.array.ptr[0].as<u64>()))); for (int j = q.below(3); j > 0; j--) { switch (q.below(3)) { case 0: out += reply(id + 1 + q.below(1000), bytes(std::string("not mine"))); break; case 1: out += request(1, id, "y"); break; default: if (id) out += reply(id - 1, bytes(std::string("stale"))); } } bool last = n == calls - 1; if (!last) out += ok; else switch (k) { case 0: out += ok; break; case 1: out += "\x94\x01" + bytes(id) + "\x01" + bytes(std::string("gone")); break; case 2: out += "\x94\x01" + bytes(id) + "\x02\xc0"; break; case 3: out += "\x94\x01" + bytes(id) + bytes(std::string("my error")) + "\xc0"; break; case 4: out += reply(id, bytes(5)); break; case 5: out += ok.substr(0, q.below(ok.size())); break; case 6: out += "\xc1zzz"; break; case 7: out += "\x93\x01\x02\x03"; break; case 8: out += "\x94\x01" + bytes(id, 77) + "\xc0"; break; default: break; } r.put(out, &q); if (last && k != 0 && q.chance(1, 2) && (k == 5 || k == 9)) r.reset(); } if (k < 5 || k == 8) { char b; while (::recv(c, &b, 1, 0) > 0) {} } });
  { Own *drop_own = 0; (void)drop_own; harness--; work_client c("127.0.0.1", port, 30); for (int n = 0; n < calls; n++) { u64 id = g.u64() >> g.below(64); std::string w = "r" + std::to_string(id); bool last = n == calls - 1; V::tick(); if (!last || k == 0) { std::string got; try { got = c.call_p1(id); } catch (const std::exception &x) { VFAIL("a call the server answered failed with \"" << x.what() << "\""); } VEQ(got, w, "result, among replies to other calls"); } else if (k == 1) { bool told = false; try { c.call_p1(id); } catch (R::method_not_found &x) { told = true; VEQ(x.name(), std::string("gone"), "method name"); } VCHECK(told, "method_not_found expected"); } else if (k == 2 || k == 4) TOLD(c.call_p1(id), R::rpc_type_error); else if (k == 3 || k == 8) { bool told = false; try { c.call_p1(id); } catch (const R::rpc_error &x) { told = true; VEQ(std::string(x.what()), std::string(k == 3 ? "my error" : "77"), "error message"); } VCHECK(told, "an error reply returned"); } else TOLD(c.call_p1(id), R::rpc_error); } harness++; }
  t.join(); ::close(ls); n_rawserv++; V::nontrivial(k * 131 + g.below(1000)); }
// ---- time-outs: never early, and a late reply is nobody else's
static void late(V::Rng &g, uint64_t) { uint16_t port = pool(8); V::cur("calls that time out"); double tmo = .03 + .02 * g.below(4); work_client c("127.0.0.1", port, tmo); u64 id = ids++; intend(id, 5); uint64_t t0 = V::now_us(); bool told = false; n_calls++; try { c.call_p1(id); } catch (const R::rpc_timeout_error &) { told = true; } catch (const std::exception &x) { VFAIL("a call that takes too long ended with \"" << x.what() << "\""); } uint64_t el = V::now_us() - t0; VCHECK(told || el > 240000, "a call of 250 ms with a time-out of " << tmo << " s returned after " << el << " us"); if (told) VCHECK(el + 2000 >= tmo * 1e6, "a call timed out after " << el << " us, before its time-out of " << tmo << " s"); std::this_thread::sleep_for(std::chrono::milliseconds(g.below(300))); for (int i = 0; i < 3;) { u64 j = ids++; try { std::string x = c.call_p2(j, "after"); VEQ(x, canon("p2", j, std::string("after")), "result of a call after one that timed out"); VEQ(times(j), 1, "executions"); i++; } catch (const R::rpc_timeout_error &) { VCHECK(times(j) <= 1, "executions"); if (V::now_us() - t0 > 20000000) VFAIL("no call succeeds after one that timed out"); } V::tick(); drop(j); } VEQ(times(id), 1, "executions of a call that timed out"); drop(id); n_late++; n_err++; }
// a client that leaves while its call runs: the server must not be killed by the reply
static void leaves(V::Rng &g, uint64_t) { uint16_t port = pool(8); V::cur("clients that leave while their calls run"); std::vector<u64> was; { Raw r; VCHECK(r.to(port), "connect"); std::string out; for (int i = 0; i < 3; i++) { u64 id = ids++; was.push_back(id); if (i == 0) intend(id, 5); out += request(id, i, text(g, 30)); } r.put(out); uint64_t t0 = V::now_us(); while (times(was[0]) == 0 && V::now_us() - t0 < 20000000) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); V::tick(); } if (g.chance(1, 2)) r.reset(); r.shut(); } std::this_thread::sleep_for(std::chrono::milliseconds(300)); work_client c("127.0.0.1", port, 30); one(g, c, false, 0, "(after a client left)"); for (u64 id : was) VCHECK(times(id) <= 1, "executions"); n_pipe++; }
// a reply that could not be sent as a whole ends the connection: nothing may follow its first half
static void halfsent(V::Rng &g, uint64_t) { static uint16_t port = serve(2, .15)->port(); V::cur("a reply that is not read"); Raw r; VCHECK(r.to(port), "connect"); u64 id = ids++, jd = ids++; std::string b = V::rand_bytes(g, 9u << 20); r.put(request(id, 1, b)); uint64_t t0 = V::now_us(); while (times(id) == 0 && V::now_us() - t0 < 20000000) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); V::tick(); } std::this_thread::sleep_for(std::chrono::milliseconds(700)); { Own o; ::send(r.fd, request(jd, 2, "z").data(), request(jd, 2, "z").size(), MSG_NOSIGNAL); } std::string want = reply(1, bytes(canon("p2", id, b))), got = r.until(3, [&](const std::string &x) { return x.size() > want.size(); }); size_t same = std::mismatch(got.begin(), got.begin() + std::min(got.size(), want.size()), want.begin()).first - got.begin(); VCHECK(same == got.size() || same == want.size(), "after " << same << " of the " << want.size() << " bytes of a reply something else followed"); drop(id); drop(jd); }
static void stopping(V::Rng &g, uint64_t) { server *s = new server(g.chance(1, 2) ? 0 : .3); V::cur("stopping a server"); VCHECK(!s->running() && !s->run(2), "a server without a port ran"); bool sync = g.chance(1, 3); int n = 1 + g.below(4); VCHECK(s->create(0), "create"); uint16_t port = s->port(); std::atomic<int> ret(0); std::thread t; if (sync) t = std::thread([&] { ret = s->run(n) ? 1 : 2; }); else VCHECK(s->run(n, false), "run"); uint64_t t0 = V::now_us(); while (!s->running() && V::now_us() - t0 < 20000000) std::this_thread::yield(); VCHECK(s->running() && !s->run(1), "a running server was started again"); { work_client c("127.0.0.1", port, 20); for (int i = g.below(5); i > 0; i--) one(g, c, false, 0, "(before stopping)"); VEQ(ret.load(), 0, "run returned while the server runs"); } s->stop(); VCHECK(!s->running(), "running after stop"); if (sync) { t.join(); VEQ(ret.load(), 1, "run"); } else s->join(); work_client c("127.0.0.1", port, 2); TOLD(c.call_p0(), R::rpc_error); if (g.chance(1, 2)) { VCHECK(s->create(0) && s->run(2, false), "restarting"); { work_client d("127.0.0.1", s->port(), 20); one(g, d, false, 0, "(after restarting)"); } s->stop(); s->join(); } delete s; n_stop++; }
static void idle(V::Rng &g, uint64_t) { static uint16_t port = serve(1, .15)->port(); V::cur("idle connections"); work_client c("127.0.0.1", port, 5); one(g, c, true, 0, "(idle)"); std::this_thread::sleep_for(std::chrono::milliseconds(300)); work_client d("127.0.0.1", port, 5); VCHECK(one(g, d, false, 0, "(after another client was idle)"), "call"); }
static void bigargs(V::Rng &g, uint64_t i) { uint16_t port = pool(2); work_client c("127.0.0.1", port, 60); static const size_t K[] = {15, 16, 31, 32, 255, 256, 65535, 65536, 70001}; size_t n = K[i % 9]; V::cur("calls with " + std::to_string(n) + " elements"); for (int k = 0; k < 3; k++) { u64 id = ids++; std::string b; vs cc; mp d; if (k == 0) b = V::rand_bytes(g, i == 8 ? (3u << 20) + 1 : n); if (k == 1) for (size_t j = 0; j < n; j++) cc.push_back(std::to_string(j)); if (k == 2) for (size_t j = 0; j < n; j++) d[std::to_string(j * 7919)] = j; mp w = d; w["id"] = id; mp x = c.call_p4(id, b, cc, d); VCHECK(x == w, "wrong result of a call with " << b.size() << " bytes, " << cc.size() << " strings, " << d.size() << " entries"); VCHECK(seen(id) == canon("p4", id, b, cc, d), "the function ran with other arguments: " << b.size() << " bytes, " << cc.size() << " strings, " << d.size() << " entries"); VEQ(times(id), 1, "executions"); drop(id); V::tick(); n_calls++; n_ok++; } V::nontrivial(n * 77 + i); }
static void onpipe(int) { V::fail("writing to a peer that has gone raised SIGPIPE, which ends a program that does not handle it"); }
int main(int argc, char **argv) { N::init(argc, argv); signal(SIGPIPE, onpipe); bool tsan = getenv("VH_NOSTOP"); V::rule("concurrent clients calling functions of none to nine arguments on servers of one to eight threads, with interrupted, shortened and broken transfers on both sides, functions that throw, unknown methods, wrong types, unreachable ports, raw peers and raw servers with broken, foreign, stale and split messages, time-outs with late replies, clients that leave, idle time-outs and stops; every execution is recorded and matched to its call; distinct = distinct schedules and raw messages"); V::cases("refusals", 30, .1, refusals); V::cases("too few arguments", 24, .15, fewargs); V::cases("raw peers", 500, .4, rawpeers); V::cases("raw servers", 300, .55, rawservers); V::cases("clients that leave", 3, 9, leaves); V::cases("late replies", 5, 9, late); V::cases("idle", 2, 9, idle); if (!tsan) { V::cases("half a reply", 1, 9, halfsent); V::cases("stopping", 8, 9, stopping); } V::cases("large arguments", 9, 9, bigargs); V::cases("clients", 500, 1, clients); V::count("calls made", n_calls); V::count("calls that returned", n_ok); V::count("calls that ended with rpc_error", n_err); V::count("executions recorded", n_exec); V::count("raw peers", n_raw); V::count("raw servers", n_rawserv); V::count("refused calls", n_refused); V::count("late replies", n_late); V::count("clients that left", n_pipe); V::count("servers stopped", n_stop); V::count("spurious EAGAIN", n_again); counts(); return V::finish(); }
