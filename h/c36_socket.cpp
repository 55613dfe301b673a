// C36: stream_socket and server_socket between real loopback ends, with transfers cut short, interrupted and broken.
#include "net.h"
#include <network/dns.h>
using namespace N;
// set-up calls that fail: the fail_at-th of them (from 1) gets fail_with
static thread_local int fail_at = 0, fail_with = 0; static std::atomic<uint64_t> n_setup;
static bool failing() { if (harness || fail_at <= 0) return false; n_setup++; if (--fail_at > 0) return false; errno = fail_with; return true; }
extern "C" {
int __real_bind(int, const struct sockaddr *, socklen_t); int __real_listen(int, int); int __real_setsockopt(int, int, int, const void *, socklen_t); int __real_getsockname(int, struct sockaddr *, socklen_t *);
int __wrap_bind(int s, const struct sockaddr *a, socklen_t l) { if (failing()) return -1; return __real_bind(s, a, l); }
int __wrap_listen(int s, int n) { if (failing()) return -1; return __real_listen(s, n); }
int __wrap_setsockopt(int s, int a, int b, const void *p, socklen_t l) { if (failing()) return -1; return __real_setsockopt(s, a, b, p, l); }
int __wrap_getsockname(int s, struct sockaddr *a, socklen_t *l) { if (failing()) return -1; return __real_getsockname(s, a, l); }
}
static std::atomic<uint64_t> n_bytes, n_reads, n_lines, n_writes, n_timeouts, n_disc, n_reconn, n_names;
static std::string payload(V::Rng &g) { size_t n = V::rand_len(g, g.chance(1, 6) ? 300000 : 40000); std::string s = V::rand_bytes(g, n); if (g.chance(2, 3)) for (auto &c : s) if (g.chance(1, 12)) c = g.chance(1, 3) ? '\r' : '\n'; if (g.chance(1, 4)) for (auto &c : s) c = "\r\n\r\nab\xff"[g.below(7)]; if (g.chance(1, 2) && n) { s += '\n'; } return s; }
static void writer(S *s, const std::string &d, V::Rng g, int level) { Arm a(g, level); size_t at = 0; while (at < d.size()) { size_t n = std::min(d.size() - at, V::rand_len(g, g.chance(1, 4) ? 60000 : 9000)); if (g.chance(1, 6)) { std::string p = d.substr(at, n); VCHECK(s->puts(p), "puts of " << n << " bytes on an open connection failed"); } else { int r = s->write(d.data() + at, n); VEQ(r, (int)n, "write of " << n << " bytes at " << at << " on an open connection"); } at += n; n_writes++; if (g.chance(1, 5)) VCHECK(s->flush() < 0, "flush on an open connection failed"); if (g.chance(1, 12)) std::this_thread::yield(); } if (g.chance(1, 2)) VCHECK(s->flush() < 0, "flush on an open connection failed"); VCHECK(s->is_connected() , "connection lost"); delete s; }
// what the reader should get from the bytes, operation by operation
static void reader(S *s, const std::string &d, V::Rng &g, const std::string &what) { size_t at = 0; bool done = false; int mode = g.below(4); while (!done) { int op = mode == 0 ? 0 : mode == 1 ? 1 : (int)g.below(3); if (op == 0) { size_t n = V::rand_len(g, g.chance(1, 4) ? 70000 : 9000); std::string b(n + 8, '\x5a'); int r = s->read(&b[4], n); size_t want = std::min(n, d.size() - at); VEQ(r, (int)want, "read of " << n << " at " << at << " of " << d.size() << " " << what); VCHECK(!memcmp(b.data() + 4, d.data() + at, want), "read at " << at << " returned other bytes " << what); for (int i = 0; i < 4; i++) VCHECK(b[i] == '\x5a' && b[n + 4 + i] == '\x5a', "read wrote outside the buffer"); for (size_t i = want; i < n; i++) if (b[4 + i] != '\x5a') VFAIL("bytes after the " << want << " reported were written " << what); at += want; n_reads++; if (n > want) done = true; }
    else if (op == 1) { int limit = g.chance(1, 3) ? 1 + (int)V::rand_len(g, 300) : -1; std::string l = "untouched"; bool r = s->getline(l, limit); if (at >= d.size()) { VCHECK(!r && l == "untouched", "getline at the end of the stream returned " << V::quote(l) << " " << what); done = true; break; } VCHECK(r, "getline failed at " << at << " of " << d.size() << " " << what); size_t nl = d.find('\n', at); size_t lim = limit < 0 ? std::string::npos : at + limit; std::string want; if (nl != std::string::npos && nl < lim) { want = d.substr(at, nl - at); if (!want.empty() && want[want.size() - 1] == '\r') want.erase(want.size() - 1); at = nl + 1; } else { size_t e = std::min(d.size(), lim); want = d.substr(at, e - at); at = e; } VCHECK(l == want, "getline returned " << V::quote(l, 80) << ", expected " << V::quote(want, 80) << " " << what); n_lines++; }
    else { int k = 1 + g.below(30); for (int i = 0; i < k && !done; i++) { int c = s->getc(); if (at >= d.size()) { VEQ(c, EOF, "getc at the end of the stream " << what); done = true; } else { VEQ(c, (int)(unsigned char)d[at], "getc at " << at << " " << what); at++; } } }
    V::tick(); } VEQ(at, d.size(), "bytes delivered before the end of the stream " << what); char c; VEQ(s->read(&c, 1), 0, "read after the end " << what); VEQ(s->getc(), EOF, "getc after the end " << what); VCHECK(!s->is_connected(), "the end of the stream was seen and the socket says it is connected"); n_bytes += d.size(); }
static void transfer(V::Rng &g, uint64_t idx) { std::string d = payload(g); int level = g.below(2); std::ostringstream o; o << d.size() << " bytes, faults " << level; V::cur("transfer of " + o.str()); size_t h0 = held(); Pair p = connected(); size_t in = g.chance(1, 2); S *w = in ? p.b : p.a, *r = in ? p.a : p.b; VEQ(p.a->remote_port(), listener().port(), "remote port of the client"); VEQ(p.a->remote_addr().to_string(), std::string("127.0.0.1"), "remote address"); VEQ(p.b->remote_addr().to_string(), std::string("127.0.0.1"), "remote address of the accepted socket"); if (g.chance(1, 3)) VCHECK(w->set_nodelay(g.chance(1, 2)), "set_nodelay"); if (g.chance(1, 4)) VCHECK(r->set_timeout(60), "set_timeout"); VEQ(held(), h0 + 2, "descriptors held by two connected sockets"); V::Rng wg(g.u64()); std::thread t([&] { writer(w, d, wg, level); }); { Arm a(g, level); reader(r, d, g, "(" + o.str() + ")"); } t.join(); delete r; VEQ(held(), h0, "descriptors held after both sockets are gone"); V::nontrivial(V::hash_str(d.substr(0, 2000)) ^ d.size()); if (idx < 3) V::sample(o.str()); }
// a connection that breaks: what arrived is a prefix, the loss is reported, nothing is invented, the process lives
static void broken(V::Rng &g, uint64_t idx) { size_t h0 = held(); Raw raw; VCHECK(raw.to(listener().port()), "connect"); S *s = listener().accept(); VCHECK(s, "accept"); VEQ((int)s->remote_port(), rawport(raw.fd), "remote port of the accepted socket"); std::string d = payload(g); size_t cut = g.below(d.size() + 1); int how = g.below(4); std::ostringstream o; o << "break " << how << " at " << cut << " of " << d.size(); V::cur(o.str());
  if (how == 0 || how == 1) { // reading side: the stream ends or fails after cut bytes
    Arm a(g, 1); a.f.recv_left = cut; a.f.recv_how = how ? (g.chance(1, 2) ? ECONNRESET : ETIMEDOUT) : 0; std::string part = d.substr(0, cut); V::Rng rg(g.u64()); std::thread t([&] { raw.put(d, &rg); Own own; ::shutdown(raw.fd, SHUT_WR); }); reader(s, part, g, "(connection fails after " + std::to_string(cut) + ")"); t.join(); }
  else if (how == 2) { // writing side: send fails after cut bytes
    std::string got; std::thread t([&] { got = raw.all(); }); bool told = false; { Arm a(g, 1); a.f.send_left = cut; a.f.send_how = g.chance(1, 2) ? EPIPE : ECONNRESET; size_t at = 0; while (at < d.size()) { size_t n = std::min(d.size() - at, 1 + V::rand_len(g, 20000)); int r = s->write(d.data() + at, n); VCHECK(r >= 0 && r <= (int)n, "write of " << n << " returned " << r); if (r < (int)n) { told = true; break; } at += n; if (g.chance(1, 3) && s->flush() >= 0) { told = true; break; } } if (!told && s->flush() >= 0) told = true; if (cut < d.size()) { VCHECK(told, "the connection broke after " << cut << " of " << d.size() << " bytes and neither write nor flush said so"); VCHECK(!s->is_connected(), "a broken connection counts as connected"); char c; VEQ(s->read(&c, 1), 0, "read on a broken connection"); VEQ(s->getc(), EOF, "getc on a broken connection"); } else VCHECK(!told, "a complete transfer was reported as failed"); delete s; s = 0; } t.join(); VCHECK(got == d.substr(0, cut), "the peer got " << got.size() << " bytes that are not the first " << cut << " written"); }
  else { // the peer really goes away; writes must fail in the end and must not kill the process
    if (g.chance(1, 2)) raw.reset(); else { raw.shut(); } bool told = false; std::string chunk(20000, 'x'); uint64_t t0 = V::now_us(); while (V::now_us() - t0 < 20000000) { int r = s->write(chunk.data(), chunk.size()); VCHECK(r >= 0 && r <= (int)chunk.size(), "write returned " << r); if (r < (int)chunk.size()) { told = true; break; } } VCHECK(told, "writes to a closed peer went on succeeding"); VCHECK(!s->is_connected(), "still connected"); }
  delete s; raw.shut(); VEQ(held(), h0, "descriptors held after a broken connection"); n_disc++; V::nontrivial(V::hash_str(o.str())); if (idx < 2) V::sample(o.str()); }
// one socket object over several connections: bytes never cross from one to the next
static void reconnect(V::Rng &g, uint64_t) { size_t h0 = held(); S *s = new S; int n = 2 + g.below(3); std::string log; for (int i = 0; i < n; i++) { if (!s->connect("127.0.0.1", listener().port())) VFAIL("connect number " << i << " failed: " << log); S *peer = listener().accept(); VCHECK(peer, "accept"); std::string in = payload(g).substr(0, 30000), out = payload(g).substr(0, 7000); V::Rng q(g.u64()); std::thread t([&] { peer->write(in.data(), in.size()); peer->flush(); }); size_t take = g.below(in.size() + 1); std::string b(take, 0); bool byline = g.chance(1, 3); if (byline && take) { int c = s->getc(); VEQ(c, (int)(unsigned char)in[0], "first byte of connection " << i << " " << log); } else if (take) { VEQ(s->read(&b[0], take), (int)take, "read"); VCHECK(b == in.substr(0, take), "connection " << i << " delivered other bytes than its peer sent: " << log); } t.join(); s->write(out.data(), out.size()); bool fl = g.chance(1, 2); if (fl) { VCHECK(s->flush() < 0, "flush"); std::string r(out.size(), 0); VEQ(peer->read(out.empty() ? 0 : &r[0], out.size()), (int)out.size(), "read back " << log); VCHECK(r == out, "connection " << i << " sent other bytes than were written: " << log); } log += "connection " + std::to_string(i) + (fl ? " flushed" : " unflushed") + " took " + std::to_string(take) + "; "; V::cur("reconnect " + log); bool sh = g.chance(1, 2); if (sh) { VCHECK(s->shutdown(), "shutdown"); VCHECK(!s->is_connected(), "connected after shutdown"); } delete peer; n_reconn++; } delete s; VEQ(held(), h0, "descriptors held after reconnecting"); V::nontrivial(V::hash_str(log)); }
static double secs(const std::function<void()> &f) { uint64_t t = V::now_us(); f(); return (V::now_us() - t) / 1e6; }
static void timeouts(V::Rng &g, uint64_t idx) { size_t h0 = held(); V::cur("time-outs"); std::vector<std::thread> ts; std::mutex m; std::vector<Pair> ps; int n = 8; for (int i = 0; i < n; i++) ps.push_back(connected()); for (int i = 0; i < n; i++) { V::Rng q(g.u64()); ts.push_back(std::thread([=]() mutable { S *s = ps[i].a; static const double v[] = {.05, .2, .35, .5, 1.1, 1.3, .999999, 1}; double sec = v[(i + q.below(8)) % 8]; bool rd = i % 2 == 0; double e; if (rd) { std::string got; VCHECK(q.chance(1, 2) ? s->set_recv_timeout(sec) : s->set_timeout(sec), "set_timeout"); ps[i].b->puts("abc"); ps[i].b->flush(); int op = q.below(3); e = secs([&] { if (op == 0) { char b[10]; int r = s->read(b, 10); VEQ(r, 3, "bytes read before the time-out"); VCHECK(!memcmp(b, "abc", 3), "bytes read before the time-out"); } else if (op == 1) { std::string l; VCHECK(s->getline(l) && l == "abc", "line before the time-out"); } else { for (int k = 0; k < 3; k++) VEQ(s->getc(), (int)"abc"[k], "getc"); VEQ(s->getc(), EOF, "getc at the time-out"); } }); } else { VCHECK(q.chance(1, 2) ? s->set_send_timeout(sec) : s->set_timeout(sec), "set_timeout"); std::string big(1 << 20, 'q'); bool told = false; double last = 0; for (int k = 0; k < 64 && !told; k++) last = secs([&] { int r = s->write(big.data(), big.size()); VCHECK(r >= 0 && r <= (int)big.size(), "write returned " << r); if (r < (int)big.size()) told = true; }); VCHECK(told, "64 MB were accepted by a peer that reads nothing"); e = last; } VCHECK(e > sec - .05 - sec * .05, (rd ? "a read" : "a write") << " with a time-out of " << sec << " s ended after " << e << " s"); VCHECK(e < sec + 8, (rd ? "a read" : "a write") << " with a time-out of " << sec << " s took " << e << " s"); static std::mutex em; static std::map<double, double> best; { std::lock_guard<std::mutex> l(em); if (rd) { if (!best.count(sec) || best[sec] > e) best[sec] = e; } } VCHECK(!s->is_connected(), "connected after a time-out"); n_timeouts++; })); } for (auto &t : ts) t.join(); for (auto &p : ps) { delete p.a; delete p.b; }
  { SS t; VCHECK(!t.set_timeout(1), "set_timeout on a closed server socket"); VCHECK(t.create(0), "create"); VCHECK(t.is_alive() && t.port() != 0, "port"); VCHECK(t.set_timeout(.15), "set_timeout"); VEQ(t.timeout(), .15, "timeout"); double e = secs([&] { VCHECK(!t.accept(), "accept with nobody connecting"); }); VCHECK(e > .1 && e < 8, "accept with a time-out of .15 s took " << e); VCHECK(!t.set_timeout(-1), "negative time-out"); if (g.chance(1, 2)) { int old = t.port(); VCHECK(t.create(0), "create again"); VCHECK(t.is_alive(), "alive"); (void)old; } Raw r; VCHECK(r.to(t.port()), "connect"); S *s = t.accept(); VCHECK(s, "accept"); VCHECK(!s->set_timeout(-1) && !s->set_recv_timeout(-.5) && !s->set_send_timeout(-2), "negative time-outs"); delete s; SS u; VCHECK(!u.create(t.port()), "two listeners on one port"); VCHECK(!u.is_alive() && !u.accept(), "a failed listener"); VCHECK(t.close(), "close"); VCHECK(!t.close() && !t.is_alive() && !t.accept(), "a closed listener"); S *c = new S; uint16_t dead = t.port(); VCHECK(!c->connect("127.0.0.1", dead), "connected to a port nobody listens on"); VCHECK(!c->is_connected(), "connected"); char b[4]; VEQ(c->read(b, 4), 0, "read without a connection"); VCHECK(c->write("abc", 3) <= 3 && c->flush() >= 0, "flush without a connection"); std::string l; VCHECK(!c->getline(l), "getline without a connection"); delete c; } VEQ(held(), h0, "descriptors held after time-outs"); V::nontrivial(idx); }
// megabytes in one write, through a socket that takes them in pieces
static void huge(V::Rng &g, uint64_t idx) { size_t n = idx == 0 ? 1 << 20 : idx == 1 ? 5000011 : (2 << 20) + g.below(3 << 20); V::cur("one write of " + std::to_string(n) + " bytes"); std::string d(n, 0); for (size_t i = 0; i < n; i += 8) { uint64_t v = g.u64(); memcpy(&d[i], &v, std::min<size_t>(8, n - i)); } Pair p = connected(); int how = idx % 3; std::thread t([&] { V::Rng q(idx + 5); Arm a(q, 0); a.f.cap = how == 1 ? 0 : 200000; a.f.eintr = how == 2 ? 5 : 0; if (how == 1) VCHECK(p.a->puts(d), "puts of " << n << " bytes"); else VEQ(p.a->write(d.data(), n), (int)n, "write of " << n << " bytes on an open connection"); VCHECK(p.a->flush() < 0, "flush"); delete p.a; }); std::string b(n + 1, 0); int r = p.b->read(&b[0], n + 1); VEQ(r, (int)n, "bytes read of one write"); b.resize(n); VCHECK(b == d, "bytes of one large write"); t.join(); delete p.b; n_bytes += n; }
// a name with several addresses: the one that answers is used and reported
struct Names : pfi::network::dns_resolver { std::vector<std::string> v; std::string host; int port, calls; std::vector<pfi::network::ipv4_address> resolve(const std::string &h, uint16_t p) { calls++; VEQ(h, host, "host asked of the resolver"); VEQ((int)p, port, "port asked of the resolver"); std::vector<pfi::network::ipv4_address> r; for (auto &x : v) r.push_back(pfi::network::ipv4_address(x)); return r; } };
static void addresses(V::Rng &g, uint64_t) { size_t h0 = held(); int ls; int port; { Own o; ls = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (::bind(ls, (sockaddr *)&a, sizeof a) || ::listen(ls, 5)) { fprintf(stderr, "cannot listen\n"); _exit(78); } port = rawport(ls); } Names *n = new Names; n->host = "name" + std::to_string(g.below(100)); n->port = port; n->calls = 0; int dead = g.below(4); bool alive = g.chance(3, 4); std::string log; for (int i = 0; i < dead; i++) n->v.push_back("127.0.0." + std::to_string(2 + g.below(200))); if (alive) n->v.push_back("127.0.0.1"); for (int i = g.below(3); i > 0; i--) n->v.push_back("127.0.0." + std::to_string(2 + g.below(200))); for (auto &x : n->v) log += x + " "; V::cur("connect to a name with the addresses " + log); pfi::lang::shared_ptr<pfi::network::dns_resolver> keep(n); S::set_dns_resolver(keep); { S s; bool r = s.connect(n->host, port); VEQ(r, alive, "connect to a name with the addresses " << log << "of which 127.0.0.1 listens"); VEQ(s.is_connected(), alive, "is_connected"); VCHECK(n->calls > 0, "the resolver set was not asked"); if (alive) { VEQ(s.remote_addr().to_string(), std::string("127.0.0.1"), "remote address after trying " << log); VEQ((int)s.remote_port(), port, "remote port"); Raw peer; { Own o; peer.fd = ::accept(ls, 0, 0); } VCHECK(s.write("hello", 5) == 5 && s.flush() < 0, "write"); VCHECK(peer.all(5) == "hello", "bytes over the connection"); VEQ(held(), h0 + 1, "descriptors held after trying " << log); } } S::set_dns_resolver(pfi::lang::shared_ptr<pfi::network::dns_resolver>(new pfi::network::normal_dns_resolver())); { Own o; ::close(ls); } VEQ(held(), h0, "descriptors held after trying " << log); n_names++; V::nontrivial(V::hash_str(log)); }
static void interrupted_accept(V::Rng &g, uint64_t) { V::cur("accept interrupted"); Raw r; VCHECK(r.to(listener().port()), "connect"); Arm a(g, 0); a.f.accept_eintr = 1 + g.below(4); S *s = listener().accept(); VCHECK(s, "accept interrupted by a signal returned nothing while a connection was waiting"); VEQ((int)s->remote_port(), rawport(r.fd), "remote port"); delete s; }
// time-outs with a fraction: the best of several waits is close to what was asked for
static void precision(V::Rng &, uint64_t) { double v[] = {.4, 1.2, 1.05}; std::vector<std::thread> ts; std::vector<double> best(3, 99); std::mutex m; for (int round = 0; round < 5; round++) { bool need = false; for (int i = 0; i < 3; i++) if (best[i] > v[i] + .3) need = true; if (!need) break; ts.clear(); for (int i = 0; i < 3; i++) { Pair p = connected(); ts.push_back(std::thread([&, i, p] { p.a->set_recv_timeout(v[i]); char c; double e = secs([&] { p.a->read(&c, 1); }); std::lock_guard<std::mutex> l(m); best[i] = std::min(best[i], e); delete p.a; delete p.b; })); } for (auto &t : ts) t.join(); V::tick(); } for (int i = 0; i < 3; i++) VCHECK(best[i] < v[i] + .3, "a time-out of " << v[i] << " s never took less than " << best[i] << " s"); }
static void setup_failures(V::Rng &g, uint64_t i) {
  size_t h0 = held(); static const int E[] = {EINVAL, EADDRINUSE, ENOBUFS, EACCES, EINTR}; int at = 1 + i % 6, err = E[i / 6 % 5]; std::ostringstream o; o << "set-up call " << at << " of a server socket fails with " << strerror(err); V::cur(o.str());
  { SS t; if (i % 2) { VCHECK(t.create(0), "create"); } fail_at = at; fail_with = err; bool r = t.create(0); bool hit = fail_at <= 0; fail_at = 0;
    if (hit && err != EINTR) { VCHECK(!r, "create reports success: " << o.str()); VCHECK(!t.is_alive(), "a socket that could not be created says it is alive: " << o.str()); VEQ(held(), h0, "descriptors held: " << o.str()); VCHECK(!t.accept() && !t.set_timeout(1) && !t.close(), "a socket that could not be created works: " << o.str()); VCHECK(t.create(0), "create after a failure: " << o.str()); }
    else VCHECK(r, "create failed: " << o.str());
    VCHECK(t.is_alive() && t.port() != 0, o.str()); VEQ(held(), h0 + 1, "descriptors held by a server socket"); Raw c; VCHECK(c.to(t.port()), "connect: " << o.str()); S *s = t.accept(); VCHECK(s && s->is_connected(), "accept: " << o.str()); c.put("x"); VEQ(s->getc(), (int)'x', o.str());
    fail_at = 1 + g.below(2); fail_with = EDOM; bool st = s->set_timeout(1); fail_at = 0; VCHECK(!st, "set_timeout reports success although the system refused it"); fail_at = 1 + g.below(2); fail_with = EDOM; st = t.set_timeout(1); fail_at = 0; VCHECK(!st, "set_timeout reports success although the system refused it"); VCHECK(s->set_timeout(5) && t.set_timeout(5), "set_timeout"); delete s; VCHECK(t.close(), "close"); VCHECK(!t.close() && !t.is_alive(), "second close"); }
  VEQ(held(), h0, "descriptors held at the end: " << o.str());
  { // no descriptor to be had
    socket_errno = EMFILE; SS t; VCHECK(!t.create(0) && !t.is_alive(), "create without a descriptor"); S s; VCHECK(!s.connect("127.0.0.1", listener().port()) && !s.is_connected(), "connect without a descriptor"); char c = 'x'; VCHECK(s.read(&c, 1) <= 0 && s.getc() == EOF, "a socket without a descriptor works"); socket_errno = 0; VEQ(held(), h0, "descriptors held after EMFILE"); VCHECK(t.create(0), "create once descriptors are back"); }
  { SS t; VCHECK(!t.create(listener().port()) && !t.is_alive(), "create on a port in use"); VEQ(held(), h0, "descriptors held after a port in use"); }
  VEQ(held(), h0, "descriptors held at the end"); V::nontrivial(V::hash_str(o.str()));
}
int main(int argc, char **argv) { N::init(argc, argv); V::rule("byte streams, lines and single bytes between two library sockets or a library socket and a raw peer over the loopback, with interrupted calls, transfers cut to any size, ends and errors after any byte count, vanished peers, time-outs and reconnects, against the bytes sent; every close is checked against a ledger of descriptors; distinct = distinct payloads and break points"); listener(); V::cases("set-up failures", 30, 9, setup_failures); V::cases("huge", 4, 9, huge); V::cases("addresses", 60, 9, addresses); V::cases("interrupted accept", 20, 9, interrupted_accept); V::cases("reconnect", 300, .15, reconnect); V::cases("broken", 900, .35, broken); V::cases("transfer", 1500, .65, transfer); V::cases("precision", 1, .95, precision); V::cases("timeouts", 3, 1, timeouts); V::count("bytes compared", n_bytes); V::count("block reads", n_reads); V::count("lines", n_lines); V::count("writes", n_writes); V::count("time-outs observed", n_timeouts); V::count("broken connections", n_disc); V::count("reconnections", n_reconn); V::count("names with several addresses", n_names); V::count("set-up calls monitored", n_setup); counts(); return V::finish(); }
