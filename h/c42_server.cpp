// C42: the embedded HTTP server under concurrent, malformed, stalled and aborted connections; every run of the
// handler is recorded and every response is compared with what the handler produced for that request.
#include "net.h"
#include "http_gen.h"
#include <network/cgi.h>
#include <network/cgi/server.h>
#include <getopt.h>
using namespace N; namespace C = pfi::network::cgi; typedef std::map<std::string, std::string> M;
static std::atomic<uint64_t> n_req, n_resp, n_run, n_throw, n_bad, n_abort, n_stall, n_post, n_multi, n_clones, n_unread; static std::atomic<uint64_t> ids(1), conc, conc_max;
static std::mutex rm; static std::map<std::string, int> *runs = new std::map<std::string, int>;
static int ran(const std::string &id) { std::lock_guard<std::mutex> l(rm); return (*runs)[id]; }
static std::string canon(const std::string &meth, const std::string &path, const std::string &qs, const M &q, const M &f) { std::string s = meth + "\n" + path + "\n" + qs + "\n"; for (auto &x : q) s += std::to_string(x.first.size()) + ":" + x.first + std::to_string(x.second.size()) + ":" + x.second; s += "\n"; for (auto &x : f) s += std::to_string(x.first.size()) + ":" + x.first + std::to_string(x.second.size()) + ":" + x.second; return s; }
static std::string filler(const std::string &id, size_t n) { V::Rng g(V::hash_str(id)); return V::rand_bytes(g, n); }
struct Handler : C::cgi, C::cloner<Handler> { std::atomic<int> busy; int mine; Handler() : busy(0), mine(0) {} Handler(const Handler &h) : C::clonable(h), C::cgi(h), C::cloner<Handler>(h), busy(0), mine(0) { n_clones++; }
  void run(std::ostream &o) { VCHECK(busy.exchange(1) == 0, "one handler instance is running two requests at once"); uint64_t c = ++conc; for (uint64_t m = conc_max; c > m && !conc_max.compare_exchange_weak(m, c);); mine++; n_run++; struct Leave { std::atomic<int> &b; ~Leave() { conc--; b = 0; } } leave = {busy}; std::string id = query["id"]; { std::lock_guard<std::mutex> l(rm); (*runs)[id]++; } if (query.count("pause")) std::this_thread::sleep_for(std::chrono::microseconds(atoi(query["pause"].c_str()))); int mark = mine; const M q0 = query; std::string t = query["throw"]; if (t == "1") throw std::runtime_error("x"); if (t == "2") throw 5; if (t == "3") throw std::string("x"); if (t == "4") throw pfi::network::http::http_exception("x"); if (query.count("st")) head["Status"] = query["st"]; if (query.count("loc")) head["Location"] = query["loc"]; if (query.count("ct")) head["Content-Type"] = query["ct"]; if (query.count("x")) head["X-Echo"] = query["x"]; head["X-From"] = env["REMOTE_ADDR"] + ":" + env["REMOTE_PORT"] + " to " + env["SERVER_PORT"]; if (!query.count("empty")) { std::string fs; for (auto &x : env) if (x.first.compare(0, 7, "HTTP_X-") == 0) fs += x.first + "=" + x.second + "\n"; o << canon(method, env["SCRIPT_NAME"], env["QUERY_STRING"] + "\n" + env["REQUEST_URI"] + "\n" + env["CONTENT_TYPE"] + "\n" + env["CONTENT_LENGTH"] + "\n" + fs, q0, file); o << filler(id, atoi(query["len"].c_str())); } VEQ(mine, mark, "handler state changed while it was running"); if (query.count("breaksend")) { Fault *f = new Fault(V::hash_str(id)); f->send_left = atoi(query["breaksend"].c_str()); fault = f; one_connection = true; } } };
static thread_local uint64_t tl_seq; static std::atomic<uint64_t> seqs(1); static std::atomic<bool> rough(true);
static void arm() { static thread_local Fault f(V::mix64(seqs++)); tl_seq = seqs++; f.g = V::Rng(tl_seq); f.recv_left = f.send_left = -1; f.cap = 0; f.eintr = 0; if (rough && f.g.chance(1, 2)) { f.cap = f.g.chance(1, 3) ? 0 : 1 << f.g.below(15); f.eintr = f.g.chance(1, 2) ? 0 : 2 + f.g.below(6); } fault = &f; }
struct Server { Handler *h; C::run_server::socket_type s; C::run_server *r; uint16_t port; };
static Server &pool(int threads, double tmo = 20) { static std::map<int, Server> m; Server &s = m[threads]; if (!s.h) { s.h = new Handler; s.s = C::run_server::socket_type(new pfi::network::server_socket); if (!s.s->create(0)) { fprintf(stderr, "cannot listen\n"); _exit(78); } s.s->set_timeout(tmo); s.port = s.s->port(); uint64_t before = n_clones; s.r = new C::run_server(*s.h, s.s, threads); std::ostringstream o; std::streambuf *b = std::cout.rdbuf(o.rdbuf()); s.r->run(false); std::cout.rdbuf(b); VEQ(n_clones - before, (uint64_t)threads, "handlers cloned for a server"); } return s; }
static std::string enc(V::Rng &g, const std::string &s) { std::string r; for (unsigned char c : s) { if (isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~') r += (char)c; else if (c == ' ' && g.chance(1, 2)) r += '+'; else { char b[4]; snprintf(b, 4, "%%%02X", c); r += b; } } return r; }
struct Req { std::string id, wire, body; int code; std::string reason; M head; bool throws, breaks; };
static std::string hdrv(V::Rng &g) { std::string s = V::rand_text(g, 1 + g.below(20), "abcXYZ 12;=/\"()"); while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s[s.size() - 1] == ' ') s.erase(s.size() - 1); return s.empty() ? "v" : s; }
static Req request(V::Rng &g, bool may_throw) { Req r; r.id = std::to_string(ids++); r.throws = r.breaks = false; M q; q["id"] = r.id; for (int i = g.below(5); i > 0; i--) q["p" + V::rand_bytes(g, g.below(6))] = V::rand_bytes(g, V::rand_len(g, g.chance(1, 8) ? 2500 : 40)); r.code = 200; r.reason = "OK"; r.head["content-type"] = "text/plain; charset=utf-8"; if (g.chance(1, 5)) { r.head["location"] = q["loc"] = "/" + V::rand_text(g, g.below(10), "abc"); r.code = 302; r.reason = "Found"; } if (g.chance(1, 4)) { static const int cs[] = {200, 201, 206, 404, 403, 500, 503, 418}; r.code = cs[g.below(8)]; r.reason = g.chance(1, 6) ? "" : hdrv(g); q["st"] = std::to_string(r.code) + (r.reason.empty() ? "" : std::string(1 + g.below(3), ' ') + r.reason); } if (g.chance(1, 4)) r.head["content-type"] = q["ct"] = hdrv(g); if (g.chance(1, 4)) r.head["x-echo"] = q["x"] = hdrv(g); if (g.chance(1, 3)) q["pause"] = std::to_string(g.below(3000)); bool empty = g.chance(1, 10); if (empty) q["empty"] = ""; size_t len = g.chance(1, 3) ? V::rand_len(g, 60000) : 0; if (len) q["len"] = std::to_string(len); if (may_throw && g.chance(1, 6)) { q["throw"] = std::to_string(1 + g.below(4)); r.throws = true; n_throw++; } else if (may_throw && g.chance(1, 12)) { q["breaksend"] = std::to_string(g.below(200)); r.breaks = true; }
  std::string path = "/"; for (int i = g.below(4); i > 0; i--) path += V::rand_text(g, g.below(8), "abcXYZ0-_.~!$&'()*+,;=:@") + (g.chance(1, 4) ? "%20" : "") + (g.chance(1, 2) ? "/" : ""); while (path.size() > 1 && path[1] == '/') path.erase(1, 1); std::string pairs; std::vector<std::pair<std::string, std::string> > v(q.begin(), q.end()); g.shuffle(v); for (auto &x : v) pairs += (pairs.empty() ? "" : "&") + enc(g, x.first) + (x.second.empty() && g.chance(1, 2) ? "" : "=" + enc(g, x.second)); std::string qs, meth, body; M seen, files; std::string ct, fs; G::Fields hf; hf.push_back(std::make_pair(G::spell(g, "Host"), "localhost")); for (int i = g.below(4); i > 0; i--) hf.push_back(std::make_pair("X-" + V::rand_text(g, 1 + g.below(6), "abcdef-") + std::to_string(i), G::value(g).substr(0, 200)));
  int how = pairs.size() > 3500 ? 1 + g.below(2) : g.below(3); if (how == 0) { meth = "GET"; qs = pairs; seen = q; } else if (how == 1) { meth = "POST"; body = pairs; if (g.chance(1, 4)) qs = "ignored=1"; seen = q; hf.push_back(std::make_pair(G::spell(g, "Content-Type"), "application/x-www-form-urlencoded")); n_post++; } else { meth = "POST"; std::string bd = "----b" + V::rand_text(g, 20, "0123456789abcdef"); for (auto &x : v) { bool plain = true; for (char c : x.first) if (c == '"' || c == '\r' || c == '\n' || c == '\\' || c == 0 || isspace((unsigned char)c) || (unsigned char)c > 126) plain = false; if (!plain) { continue; } body += "--" + bd + "\r\nContent-Disposition: form-data; name=\"" + x.first + "\"\r\n\r\n" + x.second + "\r\n"; seen[x.first] = x.second; } if (g.chance(1, 2)) { std::string fb = G::body(g, 20000); body += "--" + bd + "\r\nContent-Disposition: form-data; name=\"up\"; filename=\"f.bin\"\r\nContent-Type: application/octet-stream\r\n\r\n" + fb + "\r\n"; files["f.bin"] = fb; seen["up"] = "f.bin"; } body += "--" + bd + "--\r\n"; hf.push_back(std::make_pair(G::spell(g, "Content-Type"), "multipart/form-data; boundary=" + bd)); n_multi++; }
  { M up; for (auto &x : hf) { if (G::lower(x.first) == "content-type") ct = x.second; if (x.first.compare(0, 2, "X-") == 0) { std::string k = x.first; for (auto &c : k) c = toupper(c); up["HTTP_" + k] = x.second; } } for (auto &x : up) fs += x.first + "=" + x.second + "\n"; } if (meth == "POST") hf.push_back(std::make_pair(G::spell(g, "Content-Length"), std::to_string(body.size()))); g.shuffle(hf); r.wire = meth + " " + (g.chance(1, 8) ? "http://localhost:80" : "") + path + (qs.empty() ? "" : "?" + qs) + " HTTP/1." + (g.chance(1, 4) ? "0" : "1") + "\r\n" + G::head(g, hf, true) + body; if (!empty) r.body = canon(meth, path, qs + "\n" + path + (qs.empty() ? "" : "?" + qs) + "\n" + ct + "\n" + (meth == "POST" ? std::to_string(body.size()) : "") + "\n" + fs, seen, files) + filler(r.id, len); return r; }
static std::string line(const std::string &s) { return V::quote(s.substr(0, s.find("\r\n")), 200); }
static void answer(const Req &r, const std::string &got, const std::string &how, int from, uint16_t to) { std::string w = line(r.wire) + " " + how; size_t e = got.find("\r\n\r\n"); VCHECK(e != std::string::npos, "no complete response head: " << V::quote(got) << " to " << w); size_t nl = got.find("\r\n"); std::string st = "HTTP/1.1 " + std::to_string(r.code) + " " + r.reason; VEQ(got.substr(0, nl), st, "status line, to " << w); M h; size_t at = nl + 2; while (at < e + 2) { size_t n2 = got.find("\r\n", at); std::string l = got.substr(at, n2 - at); size_t c = l.find(": "); VCHECK(c != std::string::npos, "response header line " << V::quote(l)); VCHECK(h.insert(std::make_pair(G::lower(l.substr(0, c)), l.substr(c + 2))).second, "a response header appears twice: " << V::quote(l)); at = n2 + 2; } VEQ(h["x-from"], "127.0.0.1:" + std::to_string(from) + " to " + std::to_string(to), "client and server address seen by the handler, " << w); for (auto &x : r.head) VEQ(h[x.first], x.second, "response header " << x.first << " to " << w); static const char *own[] = {"location", "x-echo"}; for (auto o : own) VCHECK(r.head.count(o) || !h.count(o), "a response carries " << o << ", which its handler did not set: " << w); std::string b = got.substr(e + 4); if (h.count("content-length")) VEQ(h["content-length"], std::to_string(r.body.size()), "announced length, to " << w); VCHECK(b == r.body, "response body " << V::quote(b) << " expected " << V::quote(r.body) << " to " << w); VEQ(ran(r.id), 1, "runs of the handler for " << w); n_resp++; }
static void roundtrip(V::Rng &g, uint16_t port, bool may_throw, const std::string &how) { Req r = request(g, may_throw); n_req++; V::tick(); Raw c; VCHECK(c.to(port), "connect"); int from = rawport(c.fd); VCHECK(c.put(r.wire, g.chance(1, 2) ? &g : 0), "the connection was closed while a well-formed request was being sent: " << line(r.wire)); std::string got = c.all(); if (r.throws) { VEQ(ran(r.id), 1, "runs of a handler that throws"); VCHECK(got.find("200 OK") == std::string::npos || got.find(r.body) == std::string::npos, "a handler that threw was answered as if it had not"); } else if (r.breaks) { VEQ(ran(r.id), 1, "runs of a handler whose connection broke"); } else answer(r, got, how, from, port); V::eval(); }
static void clients(V::Rng &g, uint64_t idx) { static const int th[] = {1, 2, 4, 8}; int nt = th[g.below(4)], nc = 1 + g.below(8); Server &s = pool(nt); uint16_t port = s.port; std::string w = std::to_string(nc) + " clients, " + std::to_string(nt) + " server threads"; V::cur(w); bool thr = g.chance(1, 2); rough = g.chance(2, 3); std::vector<std::thread> ts; for (int i = 0; i < nc; i++) { V::Rng q(g.u64()); ts.push_back(std::thread([=]() mutable { int n = 1 + q.below(8); for (int k = 0; k < n; k++) roundtrip(q, port, thr, w); })); } for (auto &t : ts) t.join(); V::nontrivial(g.u64()); if (idx < 3) V::sample(w); }
static void hostile(V::Rng &g, uint64_t) { static const int th[] = {1, 2}; Server &s = pool(th[g.below(2)]); std::vector<std::unique_ptr<Raw> > held; int n = 1 + g.below(4); for (int i = 0; i < n; i++) { Req r = request(g, false); std::string b = r.wire; int k = g.below(5); if (k == 0) b = b.substr(0, g.below(b.size())); else if (k == 1) { int m = 1 + g.below(6); for (int j = 0; j < m; j++) { size_t p = g.below(std::min<size_t>(b.size(), 300)); if (g.chance(1, 3)) b.erase(p, 1 + g.below(5)); else if (g.chance(1, 2)) b.insert(p, V::rand_bytes(g, 1 + g.below(5))); else b[p] = g.u32(); } } else if (k == 2) b = V::rand_bytes(g, V::rand_len(g, 2000)); else if (k == 3) { static const char *bad[] = {"\r\n\r\n", "GET\r\n\r\n", "GET / HTTP/x.y\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: 99999999999\r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: x\r\n\r\nabc", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "GET / HTTP/1.1\r\n: novalue\r\nnocolon\r\n\r\n", "POST / HTTP/1.1\r\nContent-Type: multipart/form-data\r\nContent-Length: 3\r\n\r\nabc", "GET http://[::1 HTTP/1.1\r\n\r\n", "GET /?%zz=%&&=& HTTP/1.1\r\n\r\n"}; b = bad[g.below(11)]; } V::cur("hostile request " + V::quote(b, 1000)); Raw *c = new Raw; held.push_back(std::unique_ptr<Raw>(c)); VCHECK(c->to(s.port), "connect"); c->put(b, g.chance(1, 2) ? &g : 0); if (k == 4) { n_abort++; if (g.chance(1, 2)) c->reset(); else c->shut(); } else { { Own o; ::shutdown(c->fd, SHUT_WR); } n_bad++; if (g.chance(1, 3)) c->reset(); else if (g.chance(1, 2)) { c->all(); c->shut(); } else c->shut(); } VCHECK(ran(r.id) <= 1, "a broken request ran " << ran(r.id) << " times"); } roundtrip(g, s.port, false, "(after hostile requests)"); }
static void stalled(V::Rng &g, uint64_t) { static std::map<int, Server> *x = 0; (void)x; Server &s = pool(3, .3); V::cur("stalled clients"); std::vector<std::unique_ptr<Raw> > v; int n = 1 + g.below(4); for (int i = 0; i < n; i++) { Raw *c = new Raw; v.push_back(std::unique_ptr<Raw>(c)); VCHECK(c->to(s.port), "connect"); Req r = request(g, false); c->put(r.wire.substr(0, g.below(r.wire.size()))); n_stall++; } Req r = request(g, false); Raw c; VCHECK(c.to(s.port), "connect"); int from = rawport(c.fd); c.put(r.wire); answer(r, c.all(), "(while others stall)", from, s.port); }
static void starting(V::Rng &g, uint64_t) { V::cur("starting on a port in use"); Handler h; Server &s = pool(1); bool told = false; try { C::run_server t(h, s.port, 1); } catch (const std::runtime_error &) { told = true; } VCHECK(told, "a server was created on a port in use"); (void)g; }
// the other two constructors: a port, and a command line
static void constructed(V::Rng &g, uint64_t i) {
  int nt = 1 + g.below(5); C::run_server *r = 0; uint16_t port = 0; Handler *h = new Handler; std::string how; uint64_t before = 0; std::vector<std::string> a;
  for (int attempt = 0; attempt < 40 && !r; attempt++) {
    { Own own; int fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; ::bind(fd, (sockaddr *)&sa, sizeof sa); port = rawport(fd); ::close(fd); }
    a.clear(); a.push_back("prog"); std::string P = std::to_string(port), T = std::to_string(nt);
    switch (i % 4) { case 0: break; case 1: a.insert(a.end(), {"-p", P, "-t", T, "-o", "0.3"}); break; case 2: a.insert(a.end(), {"--thread=" + T, "--timeout=0.3", "--server", "--port", P}); break; default: a.insert(a.end(), {"-s", "-o0.3", "-t" + T, "-p" + P}); }
    how = "server made "; if (i % 4) for (auto &x : a) how += x + " "; else how += "with a port"; V::cur(how);
    std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(0); optind = 0;
    try { r = i % 4 == 0 ? new C::run_server(*h, port, nt, 0.3) : new C::run_server(*h, (int)a.size(), &av[0]); } catch (const std::runtime_error &) {}
  }
  VCHECK(r, "no server could be created (" << how << ")"); before = n_clones; { std::ostringstream o; std::streambuf *b = std::cout.rdbuf(o.rdbuf()); r->run(false); std::cout.rdbuf(b); } VEQ(n_clones - before, (uint64_t)nt, "handlers cloned: " << how); rough = false;
  std::vector<std::unique_ptr<Raw> > v; for (int k = 0; k < nt; k++) { Raw *c = new Raw; v.push_back(std::unique_ptr<Raw>(c)); VCHECK(c->to(port), "connect: " << how); Req q = request(g, false); c->put(q.wire.substr(0, g.below(q.wire.size()))); n_stall++; }
  for (int k = 0; k < 4; k++) roundtrip(g, port, k % 2, how); V::nontrivial(V::hash_str(how));
}
// clients that send a request and never read a large answer: each thread comes free after the time-out
static void unread(V::Rng &g, uint64_t) { Server &s = pool(3, .3); V::cur("clients that do not read their answer"); std::vector<std::unique_ptr<Raw> > v; int n = 3 + g.below(3); for (int i = 0; i < n; i++) { Raw *c = new Raw; v.push_back(std::unique_ptr<Raw>(c)); VCHECK(c->to(s.port), "connect"); { Own o; int b = 4096; ::setsockopt(c->fd, SOL_SOCKET, SO_RCVBUF, &b, sizeof b); } std::string id = std::to_string(ids++); c->put("GET /?id=" + id + "&len=40000000 HTTP/1.1\r\nHost: x\r\n\r\n"); n_stall++; n_unread++; } roundtrip(g, s.port, false, "(while others do not read)"); }
int main(int argc, char **argv) { N::init(argc, argv); on_accept = arm; V::rule("concurrent clients sending GET, urlencoded and multipart POST requests to embedded servers of one to eight threads, with transfers interrupted and shortened on both sides, handlers that throw or whose connection breaks, malformed, truncated, aborted and stalled clients; handler runs are recorded per request and responses compared byte for byte; distinct = distinct client schedules"); V::cases("starting", 2, 9, starting); V::cases("constructed", 4, 9, constructed); V::cases("stalled", 6, .3, stalled); rough = false; V::cases("unread", 2, 9, unread); rough = true; V::cases("hostile", 800, .5, hostile); V::cases("clients", 2000, 1, clients); V::count("requests sent", n_req); V::count("responses compared", n_resp); V::count("handler runs", n_run); V::count("handlers that threw", n_throw); V::count("malformed requests", n_bad); V::count("aborted connections", n_abort); V::count("stalled clients", n_stall); V::count("clients that did not read", n_unread); V::count("urlencoded bodies", n_post); V::count("multipart bodies", n_multi); V::count("handlers running at once (most)", conc_max); counts(); return V::finish(); }
