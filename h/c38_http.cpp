// C38: HTTP messages between two library ends and between a raw peer and the library.
#include "http_gen.h"
#include <network/http.h>
#include <lang/cast.h>
using namespace N; namespace H = pfi::network::http; typedef pfi::lang::shared_ptr<S> SP; using pfi::network::uri;
static std::atomic<uint64_t> n_msgs, n_bytes, n_pipe, n_malf, n_rej, n_trunc, n_fields, n_stream, n_model, n_long, n_longref;
static void same(H::header &h, const G::Fields &want, const std::string &w) { size_t i = 0; for (H::header::iterator it = h.begin(); it != h.end(); ++it, ++i) { VCHECK(i < want.size(), "an extra header field " << V::quote(it->first) << ": " << V::quote(it->second) << " " << w); VEQ(V::quote(it->first), V::quote(want[i].first), "name of field " << i << " " << w); VEQ(V::quote(it->second), V::quote(want[i].second), "value of field " << V::quote(it->first) << " " << w); } VEQ(i, want.size(), "number of header fields " << w); n_fields += i; }
// reads a body to its end in some way
static std::string slurp(V::Rng &g, std::istream &b) { std::string r; int k = g.below(5); if (k == 0) r.assign(std::istreambuf_iterator<char>(b), std::istreambuf_iterator<char>()); else if (k == 1) { std::string t(1 + V::rand_len(g, 5000), 0); while (b.read(&t[0], t.size()) || b.gcount()) { r.append(t, 0, b.gcount()); V::tick(); } } else if (k == 2) { int c; while (b.peek() != EOF && (c = b.get()) != EOF) r += (char)c; } else if (k == 3) { std::string l; while (std::getline(b, l)) { r += l; if (!b.eof()) r += '\n'; } } else { int c; while ((c = b.get()) != EOF) r += (char)c; } return r; }
struct Msg { Msg() : req(false), ma(1), mi(1), code(0) {} bool req; std::string meth, reason; std::string target; int ma, mi, code; G::Fields f; std::string body; };
static std::string url(V::Rng &g) { std::string r; if (g.chance(1, 2)) r = "http://" + V::rand_text(g, 1 + g.below(10), "abc.d-1") + (g.chance(1, 2) ? ":" + std::to_string(g.below(65536)) : ""); int n = g.below(4); if (r.empty() && !n) n = 1; for (int i = 0; i < n; i++) r += "/" + V::rand_text(g, i || r.size() ? g.below(9) : 1 + g.below(9), "abcXYZ019-_.~!$&'()*+,;=:@"); if (g.chance(1, 3)) r += "?" + V::rand_text(g, 1 + V::rand_len(g, 200), "abc=&%41+/?"); size_t p; while ((p = r.find('%')) != std::string::npos && r.compare(p, 3, "%41")) r.erase(p, 1); return r; }
static Msg message(V::Rng &g) { Msg m; m.req = g.chance(1, 2); static const char *ms[] = {"GET", "POST", "HEAD", "PUT", "DELETE", "TRACE", "CONNECT", "OPTIONS", "PATCH", "x"}; m.meth = ms[g.below(10)]; m.target = url(g); uri u(m.target); m.ma = g.below(10); m.mi = g.below(10); m.code = 100 + g.below(900); m.reason = g.chance(1, 6) ? "" : G::value(g).substr(0, 200); while (!m.reason.empty() && m.reason[m.reason.size() - 1] == ' ') m.reason.erase(m.reason.size() - 1); m.f = G::fields(g); m.body = G::body(g); return m; }
static void sametarget(const uri &a, const std::string &t, const std::string &w) { uri b(t); VEQ(a.scheme(), b.scheme(), "scheme " << w); VEQ(a.authority(), b.authority(), "authority " << w); VEQ(a.path(), b.path().empty() ? std::string("/") : b.path(), "path " << w); VEQ(a.query(), b.query(), "query " << w); }
static void check(V::Rng &g, const Msg &m, const SP &sp, const std::string &w, bool tail) { std::string got; if (m.req) { H::request r(sp); VEQ(r.method(), m.meth, "method " << w); sametarget(r.path(), m.target, w); VEQ(r.version().first, m.ma, "major version " << w); VEQ(r.version().second, m.mi, "minor version " << w); same(r.head(), m.f, w); got = slurp(g, r.body()); if (g.chance(1, 3)) { r.body().clear(); VEQ(r.body().get(), EOF, "reading on after the end of the body " << w); } } else { H::response r(sp); VEQ(r.code(), m.code, "code " << w); VEQ(V::quote(r.reason()), V::quote(m.reason), "reason " << w); VEQ(r.version().first, m.ma, "major version " << w); VEQ(r.version().second, m.mi, "minor version " << w); same(r.head(), m.f, w); got = slurp(g, r.body()); if (g.chance(1, 3)) { r.body().clear(); VEQ(r.body().get(), EOF, "reading on after the end of the body " << w); } } VEQ(got.size(), m.body.size(), "body length " << w); VCHECK(got == m.body, "body bytes " << w); n_msgs++; n_bytes += got.size(); (void)tail; }
template <class R> static void fill(V::Rng &g, R &r, Msg &m) { for (auto &x : m.f) { int k = g.below(3); if (k == 0) r.head().set(x.first, x.second); else r.head()[x.first] = x.second; } if (g.chance(1, 3) || m.body.empty()) { std::string k = G::spell(g, "Content-Length"); r.head()[k] = std::to_string(m.body.size()); m.f.push_back(std::make_pair(k, std::to_string(m.body.size()))); } else m.f.push_back(std::make_pair(std::string("Content-Length"), std::to_string(m.body.size()))); size_t at = 0; while (at < m.body.size()) { size_t n = std::min(m.body.size() - at, 1 + V::rand_len(g, 5000)); r.body().write(m.body.data() + at, n); at += n; } }
static void libtolib(V::Rng &g, uint64_t idx) { size_t h0 = held(); int k = 1 + g.below(5); std::vector<Msg> ms; for (int i = 0; i < k; i++) ms.push_back(message(g)); V::cur(std::to_string(k) + " messages, first " + (ms[0].req ? ms[0].meth + " " + ms[0].target : std::to_string(ms[0].code)) + " body " + std::to_string(ms[0].body.size())); Pair p = connected(); bool stream = g.chance(1, 4); std::string tail; if (stream) tail = G::body(g); Msg last = message(g); { std::vector<std::shared_ptr<H::request> > rq; std::vector<std::shared_ptr<H::response> > rs; for (auto &m : ms) { if (m.req) { auto r = std::make_shared<H::request>(m.meth, uri(m.target), m.ma, m.mi); fill(g, *r, m); rq.push_back(r); } else { auto r = std::make_shared<H::response>(m.code, m.reason, m.ma, m.mi); fill(g, *r, m); rs.push_back(r); } } V::Rng wg(g.u64()); int lw = g.below(2), lr = g.below(2); std::thread t([&] { Arm a(wg, lw); SP sp(p.a); size_t a1 = 0, a2 = 0; for (auto &m : ms) { if (m.req) rq[a1++]->send(sp); else rs[a2++]->send(sp); } if (stream) { H::response r(last.code, last.reason, last.ma, last.mi); for (auto &x : last.f) r.head()[x.first] = x.second; r.send(sp); r.body() << tail; r.body().flush(); } rq.clear(); rs.clear(); }); { Arm a(g, lr); SP sp(p.b); for (size_t i = 0; i < ms.size(); i++) { std::ostringstream w; w << "(message " << i << " of " << ms.size() << ")"; check(g, ms[i], sp, w.str(), false); n_pipe++; } if (stream) { last.req = false; last.body = tail; check(g, last, sp, "(body streamed until the connection closes)", true); } char c; if (!stream) VEQ(sp->read(&c, 1), 0, "bytes left after the last message"); } t.join(); } VEQ(held(), h0, "descriptors held after the messages"); V::nontrivial(V::hash_str(ms[0].body) ^ V::hash_str(ms[0].target) ^ k); if (idx < 2) V::sample(ms[0].req ? ms[0].meth + " " + ms[0].target : std::to_string(ms[0].code) + " " + ms[0].reason); }
// text of a message a peer might send; m.f becomes what must be seen
static std::string wire(V::Rng &g, Msg &m, bool strict, int framing) { if (framing == 0) m.f.insert(m.f.begin() + g.below(m.f.size() + 1), std::make_pair(G::spell(g, "Content-Length"), std::to_string(m.body.size()))); else if (framing == 1) m.f.insert(m.f.begin() + g.below(m.f.size() + 1), std::make_pair(G::spell(g, "Transfer-Encoding"), G::spell(g, "chunked"))); std::ostringstream o; if (m.req) { if (uri(m.target).path().empty()) m.target += m.target.find('?') == std::string::npos ? "/" : ""; o << m.meth << " " << m.target << " HTTP/" << m.ma << "." << m.mi << G::eol(g, strict); } else { o << "HTTP/" << m.ma << "." << m.mi << " " << m.code; if (!m.reason.empty()) o << " " << m.reason; else if (g.chance(1, 2)) o << " "; o << G::eol(g, strict); } std::string r = o.str() + G::head(g, m.f, strict); return r + (framing == 1 ? G::chunked(g, m.body, strict) : m.body); }
static Msg rawmsg(V::Rng &g) { Msg m; do m = message(g); while (m.req && uri(m.target).path().empty()); return m; }
static void rawtolib(V::Rng &g, uint64_t idx) { size_t h0 = held(); int k = 1 + g.below(4); std::vector<Msg> ms; std::string all; bool strict = g.chance(1, 2); for (int i = 0; i < k; i++) { Msg m = rawmsg(g); int fr = i + 1 < k ? g.below(2) : g.below(3); all += wire(g, m, strict, fr); ms.push_back(m); } V::cur("wire " + V::quote(all, 3000)); Raw raw; VCHECK(raw.to(listener().port()), "connect"); S *s = listener().accept(); VCHECK(s, "accept"); V::Rng rg(g.u64()); std::thread t([&] { raw.put(all, &rg); Own o; ::shutdown(raw.fd, SHUT_WR); }); { Arm a(g, g.below(2)); SP sp(s); for (size_t i = 0; i < ms.size(); i++) { std::ostringstream w; w << "(message " << i << " of " << ms.size() << " from a raw peer)"; check(g, ms[i], sp, w.str(), i + 1 == ms.size()); } } t.join(); raw.shut(); VEQ(held(), h0, "descriptors held"); V::nontrivial(V::hash_str(all)); if (idx < 2) V::sample(V::quote(all, 200)); }
// anything at all: ends, never more body than was sent; a message cut short yields a prefix of its body
static void malformed(V::Rng &g, uint64_t) { size_t h0 = held(); Msg m = rawmsg(g); int fr = g.below(3); if (g.chance(1, 2) && m.body.size() > 300) m.body.resize(300); std::string all = wire(g, m, g.chance(1, 2), fr); bool cutonly = g.chance(1, 2); if (cutonly) { all.resize(g.below(all.size() + 1)); n_trunc++; } else { int n = 1 + g.below(4); for (int i = 0; i < n; i++) { size_t at = g.below(all.size() + 1); switch (g.below(7)) { case 0: if (at < all.size()) all[at] = (char)g.u32(); break; case 1: if (at < all.size()) all.erase(at, 1 + g.below(4)); break; case 2: all.insert(at, V::rand_bytes(g, 1 + g.below(3))); break; case 3: { static const char *s[] = {"-1\r\n", "ffffffff\r\n", "7fffffff\r\n", "80000000\r\n", "-80000000\r\n", "zz\r\n", "\r\n", "0x10\r\n", "10000000000000000000\r\n", ": \r\n", "\r\n\r\n", " \r\n", "Content-Length: -5\r\n", "Content-Length: 99999999999999999999\r\n", "Content-Length: 0\r\n", "Transfer-Encoding: chunked\r\n", "HTTP/1.1\r\n"}; size_t nl = all.find('\n', at); if (nl == std::string::npos) nl = all.size() - (all.empty() ? 0 : 1); all.insert(std::min(all.size(), nl + 1), s[g.below(17)]); break; } case 4: { size_t p = all.find("\r\n"); if (p != std::string::npos) all.insert(g.chance(1, 2) ? p : 0, V::rand_text(g, 4090 + g.below(12), "ab")); break; } case 5: { size_t nl = all.find('\n', at); if (nl != std::string::npos) { size_t e = all.find('\n', nl + 1); if (e != std::string::npos) all.erase(nl + 1, e - nl); } break; } default: all.resize(at); } } }
  V::cur("malformed " + V::quote(all, 3000)); Raw raw; VCHECK(raw.to(listener().port()), "connect"); S *s = listener().accept(); VCHECK(s, "accept"); V::Rng rg(g.u64()); std::thread t([&] { raw.put(all, &rg); Own o; ::shutdown(raw.fd, SHUT_WR); }); { Arm a(g, g.below(2)); SP sp(s); std::string got; try { if (m.req) { H::request r(sp); got = slurp(g, r.body()); } else { H::response r(sp); volatile int c = r.code(); (void)c; got = slurp(g, r.body()); } } catch (const std::exception &) { n_rej++; } VCHECK(got.size() <= all.size(), "more body than was sent"); if (cutonly) VCHECK(got == m.body.substr(0, got.size()), "a message cut short gave a body that is no prefix of its own: " << V::quote(got, 200)); } t.join(); raw.shut(); VEQ(held(), h0, "descriptors held"); n_malf++; V::nontrivial(V::hash_str(all)); }
static void sizes(V::Rng &g, uint64_t) { // framing that lies must not become data
  static const char *bad[] = {"-1", "-7fffffff", "ffffffff", "80000000", "zz", "", ";x", "fffffffffffffffff", "g0"}; const char *sz = bad[g.below(9)]; std::string first = G::body(g, 100); std::ostringstream o; o << "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"; if (!first.empty()) o << std::hex << first.size() << "\r\n" << first << "\r\n"; o << sz << "\r\nGARBAGE\r\n0\r\n\r\n"; std::string all = o.str(); V::cur("bad chunk size " + V::quote(all)); Raw raw; raw.to(listener().port()); SP sp(listener().accept()); raw.put(all); { Own own; ::shutdown(raw.fd, SHUT_WR); } H::response r(sp); std::string got; int c; while ((c = r.body().get()) != EOF) got += (char)c; VCHECK(got == first, "a body with the chunk size " << V::quote(sz) << " delivered " << V::quote(got) << " instead of " << V::quote(first)); n_malf++; }
static void fieldmodel(V::Rng &g, uint64_t) { H::header h; G::Fields f; std::vector<std::string> ks; for (int i = 0; i < 5; i++) ks.push_back(G::token(g)); std::string log; for (int i = 0; i < 30; i++) { std::string k = G::spell(g, ks[g.below(5)]); size_t at = 0; while (at < f.size() && G::lower(f[at].first) != G::lower(k)) at++; bool in = at < f.size(); log += std::to_string(g.s & 0) ; switch (g.below(6)) { case 0: VEQ(h.has_key(k), in, "has_key(" << k << ")"); break; case 1: { std::string v = G::value(g); h.set(k, v); if (in) f[at].second = v; else f.push_back(std::make_pair(k, v)); break; } case 2: { std::string v = G::value(g); h[k] = v; if (in) f[at].second = v; else f.push_back(std::make_pair(k, v)); break; } case 3: h.erase(k); if (in) f.erase(f.begin() + at); break; case 4: { const H::header &c = h; VEQ(V::quote(c[k]), V::quote(in ? f[at].second : std::string()), "constant lookup of " << k); break; } default: { VEQ(V::quote(h.get(k)), V::quote(in ? f[at].second : std::string()), "get(" << k << ")"); if (!in) f.push_back(std::make_pair(k, std::string())); } } V::cur("header model " + k); same(h, f, "(after " + std::to_string(i) + " operations)"); } n_model++;
  // the same text read from a stream
  G::Fields w = G::fields(g); bool strict = g.chance(1, 2); std::string t = G::head(g, w, strict); if (g.chance(1, 3) && !w.empty()) { t.resize(t.size() - (t.size() > 1 && t[t.size() - 2] == '\r' ? 2 : 1)); if (g.chance(1, 2)) t.resize(t.size() - (t.size() > 1 && t[t.size() - 2] == '\r' ? 2 : 1)); } V::cur("header text " + V::quote(t, 2000)); std::istringstream is(t + ""); if (!t.empty()) { H::header hs(is); same(hs, w, "(read from a stream)"); } }
static void httpstreams(V::Rng &g, uint64_t) { SS &l = listener(); Msg m = rawmsg(g); m.req = false; int fr = g.below(3); std::string resp = wire(g, m, g.chance(1, 2), fr); std::string ui = g.chance(1, 3) ? V::rand_text(g, 1 + g.below(12), "abc:XY1") : ""; std::string path = "/" + V::rand_text(g, g.below(9), "abc/.%41"); size_t p; while ((p = path.find('%')) != std::string::npos && path.compare(p, 3, "%41")) path.erase(p, 1); std::string q = g.chance(1, 2) ? "?" + V::rand_text(g, 1 + g.below(20), "ab=&+") : ""; std::string u = "http://" + (ui.empty() ? "" : ui + "@") + "127.0.0.1:" + std::to_string(l.port()) + path + q; V::cur("httpstream " + u + " framing " + std::to_string(fr)); std::string req; V::Rng rg(g.u64()); std::thread t([&] { Own o; S *s = l.accept(); if (!s) return; std::string line; while (s->getline(line)) { req += line + "\n"; if (line.empty()) break; } size_t at = 0; while (at < resp.size()) { size_t n = std::min<size_t>(resp.size() - at, 1 + rg.below(5000)); s->write(resp.data() + at, n); s->flush(); at += n; } delete s; }); std::string got; { H::httpstream h(u); same(h.head(), m.f, "(httpstream)"); got = slurp(g, h); } t.join(); VCHECK(got == m.body, "httpstream delivered " << got.size() << " bytes, expected " << m.body.size()); VEQ(req.substr(0, req.find('\n')), "GET " + u + " HTTP/1.1", "request line"); VCHECK(req.find("\nHost: 127.0.0.1\n") != std::string::npos, "Host field in " << V::quote(req)); VCHECK(req.find("\nConnection: close\n") != std::string::npos, "Connection field"); VEQ(req.find("\nAuthorization: Basic ") != std::string::npos, !ui.empty(), "Authorization field"); n_stream++; n_bytes += got.size(); }
static std::string noise(V::Rng &g, size_t n) { std::string d(n, 0); for (size_t i = 0; i < n; i += 8) { uint64_t v = g.u64(); memcpy(&d[i], &v, std::min<size_t>(8, n - i)); } return d; }
struct Sender { Raw raw; std::thread t; SP sp; Sender(V::Rng &g, const std::string &all) { VCHECK(raw.to(listener().port()), "connect"); sp = SP(listener().accept()); VCHECK(sp.get(), "accept"); V::Rng rg(g.u64()); t = std::thread([this, all, rg]() mutable { raw.put(all, all.size() > 50000 ? 0 : &rg); Own o; ::shutdown(raw.fd, SHUT_WR); }); } ~Sender() { sp = SP(); t.join(); raw.shut(); } };
static void bigchunks(V::Rng &g, uint64_t idx) { static const size_t sz[] = {65536, 131072, 65535, 65537, 1 << 20, 4096, 8192, 1 << 24, 196608}; size_t n = sz[idx % 9]; std::string d = noise(g, n), e = noise(g, 1 + g.below(70000)); char b[20]; snprintf(b, 20, "%zx\r\n", n); std::string all = std::string(idx & 1 ? "HTTP/1.1 200 OK\r\n" : "POST / HTTP/1.1\r\n") + "Transfer-Encoding: chunked\r\n\r\n" + b + d + "\r\n"; snprintf(b, 20, "%zx\r\n", e.size()); all += b + e + "\r\n0\r\n\r\n"; all += "HTTP/1.1 201 Next\r\nContent-Length: 2\r\n\r\nhi"; V::cur("a chunk of " + std::to_string(n) + " bytes"); Sender s(g, all); std::string got; if (idx & 1) { H::response r(s.sp); got = slurp(g, r.body()); } else { H::request r(s.sp); got = slurp(g, r.body()); } VEQ(got.size(), n + e.size(), "body length of chunks of " << n << " and " << e.size()); VCHECK(got == d + e, "body of a chunk of " << n << " bytes"); H::response r(s.sp); VEQ(r.code(), 201, "message after a chunked one"); VEQ(slurp(g, r.body()), std::string("hi"), "body of the message after a chunked one"); n_bytes += got.size(); }
static void hugelength(V::Rng &g, uint64_t) { static const char *ls[] = {"4294967300", "4294967296", "4294967295", "2147483648", "2147483650", "2147483647", "281474976710656", "9223372036854775807", "65536000000", "4294967396"}; const char *l = ls[g.below(10)]; std::string part = noise(g, g.below(3) ? 100 + g.below(9000) : g.below(9)); bool req = g.chance(1, 2); V::cur(std::string("Content-Length ") + l + " of which " + std::to_string(part.size()) + " bytes arrive"); Sender s(g, std::string(req ? "PUT /x HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n") + "Content-Length: " + l + "\r\n\r\n" + part); std::string got; if (req) { H::request r(s.sp); got = slurp(g, r.body()); } else { H::response r(s.sp); got = slurp(g, r.body()); } VEQ(got.size(), part.size(), "bytes delivered of a body announced as " << l); VCHECK(got == part, "bytes of a body announced as " << l); n_trunc++; }
// bodies written after sending, and lengths the program sets itself
static void streamed(V::Rng &g, uint64_t) { bool req = g.chance(1, 2); int mode = g.below(2); std::string b = G::body(g); V::cur(std::string(req ? "request" : "response") + (mode ? " with its own Content-Length" : " with its body written after sending")); std::string len = std::string(g.below(5), '0') + std::to_string(b.size()); Pair p = connected(); std::thread t([&] { SP sp(p.a); if (req) { H::request r("PUT", uri("/p?q"), 1, 1); if (mode) { r.head()["Content-Length"] = len; r.body() << b; r.send(sp); } else { r.head()["X-A"] = "v"; r.send(sp); r.body().write(b.data(), b.size()); r.body().flush(); } } else { H::response r(200, "fine", 1, 1); if (mode) { r.head()["content-LENGTH"] = len; r.body() << b; r.send(sp); } else { r.head()["X-A"] = "v"; r.send(sp); r.body().write(b.data(), b.size()); r.body().flush(); } } }); { SP sp(p.b); Msg m; m.req = req; m.meth = "PUT"; m.target = "/p?q"; m.code = 200; m.reason = "fine"; if (mode) m.f.push_back(std::make_pair(std::string(req ? "Content-Length" : "content-LENGTH"), len)); else m.f.push_back(std::make_pair(std::string("X-A"), std::string("v"))); m.body = b; check(g, m, sp, mode ? "(own Content-Length)" : "(body written after sending)", true); } t.join(); n_stream++; }
// lines around and over the limit: read whole, or refused; never read as something else
static void longlines(V::Rng &g, uint64_t) { static const size_t at[] = {4096, 8192, 5000, 12288, 4096}; size_t n = at[g.below(5)] + g.below(9) - 4; if (g.chance(1, 3)) n = 3900 + g.below(150); int where = g.below(6); std::string b = "body " + std::to_string(n), body2 = b; bool req = where == 0 || (where > 1 && g.chance(1, 2)); std::string eol = g.chance(1, 3) ? "\n" : "\r\n", line, target = "/a", reason = "OK", val = "v"; std::string start; if (where == 0) { size_t k = 4 + 1 + 9; target = "/" + V::rand_text(g, n > k ? n - k : 1, "ab"); } if (where == 1) { size_t k = 13; reason = V::rand_text(g, n > k ? n - k : 1, "abX"); if (g.chance(1, 3)) for (auto &c : reason) if (g.chance(1, 20)) c = ':'; } start = (req ? "GET " + target + " HTTP/1.1" : "HTTP/1.1 200 " + reason) + eol; if (where == 2) val = V::rand_text(g, n - 5, "abX"); std::string head = "X-A: " + val + eol; bool chunk = where >= 3; head += chunk ? "Transfer-Encoding: chunked" + eol : "Content-Length: " + std::to_string(b.size()) + eol; std::string tail; if (chunk) { char c[10]; snprintf(c, 10, "%zx", b.size()); std::string sz = c; if (where == 3) sz += ";" + V::rand_text(g, n - sz.size() - 1, "ab0"); std::string trailer = where == 4 ? "T: " + V::rand_text(g, n - 3, "ab0") + eol : ""; std::string last = where == 5 ? "0;" + V::rand_text(g, n - 2, "ab0") : "0"; tail = sz + eol + b + eol + last + eol + trailer + eol; } else tail = b; std::string all = start + head + eol + tail + "HTTP/1.1 299 Second" + eol + "Content-Length: 3" + eol + eol + "end"; static const char *nm[] = {"request line", "status line", "header line", "chunk size line", "trailer line", "last chunk line"}; std::ostringstream w; w << "a " << nm[where] << " of " << n << " bytes ending in " << V::quote(eol); V::cur(w.str()); Sender s(g, all); bool refused = false; std::string got; bool bad = false; 
  try { if (req) { H::request r(s.sp); VEQ(r.path().path().size(), target.size(), "length of the target after " << w.str()); VCHECK(r.path().path() == target, "target after " << w.str()); VCHECK(r.head().has_key("X-A") && r.head()["X-A"] == val, "the field X-A after " << w.str()); got = slurp(g, r.body()); bad = r.body().bad(); } else { H::response r(s.sp); VEQ(r.code(), 200, "code after " << w.str()); VEQ(r.reason().size(), reason.size(), "length of the reason after " << w.str()); VCHECK(r.reason() == reason, "reason after " << w.str()); size_t k = 0; for (auto it = r.head().begin(); it != r.head().end(); ++it) k++; VEQ(k, (size_t)2, "fields after " << w.str()); VCHECK(r.head().has_key("X-A") && r.head()["X-A"] == val, "the field X-A after " << w.str()); got = slurp(g, r.body()); bad = r.body().bad(); } } catch (const std::exception &) { refused = true; } if (n <= 4000) VCHECK(!refused && !bad, "refused: " << w.str()); if (!refused) { VCHECK(got == b || (bad && b.compare(0, got.size(), got) == 0), "after " << w.str() << " the body was " << V::quote(got, 100)); if (got == b && !bad) { int c = -1; try { H::response r(s.sp); c = r.code(); } catch (const std::exception &) { c = -2; } VEQ(c, 299, "code of the message after one with " << w.str()); } } n_long++; if (refused || bad) n_longref++; V::nontrivial(V::hash_str(w.str()) ^ n); }
// chunks whose data are not followed by the end of a line, and connections that end right after the first line
static void badchunks(V::Rng &g, uint64_t) { bool req = g.chance(1, 2); std::string start = req ? "POST /c HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n"; if (g.chance(1, 6)) { V::cur("only the line " + V::quote(start)); Sender s(g, start); bool thrown = false; try { if (req) H::request r(s.sp); else H::response r(s.sp); } catch (const std::exception &) { thrown = true; } VCHECK(thrown, "a message that ends after its first line was taken: " << V::quote(start)); n_rej++; n_trunc++; return; }
  int k = 2 + g.below(4), at = g.below(k - 1); std::string all = start + "Transfer-Encoding: chunked\r\n\r\n", before, whole; std::string junk; do junk = g.chance(1, 2) ? std::string(1, (char)g.u32()) : "\r" + std::string(1, (char)g.u32()); while (junk[0] == '\n' || (junk[0] == '\r' && junk.size() == 1) || (junk.size() == 2 && junk[1] == '\n')); for (int i = 0; i < k; i++) { std::string d = V::rand_text(g, 1 + V::rand_len(g, g.chance(1, 3) ? 9000 : 60), "ghijkl"); char h[20]; snprintf(h, 20, "%zx\r\n", d.size()); all += h + d + (i == at ? junk : std::string("\r\n")); whole += d; if (i <= at) before += d; } all += "0\r\n\r\n"; V::cur("chunk " + std::to_string(at) + " of " + std::to_string(k) + " followed by " + V::quote(junk) + ": " + V::quote(all, 300)); Sender s(g, all); std::string got; try { if (req) { H::request r(s.sp); got = slurp(g, r.body()); } else { H::response r(s.sp); got = slurp(g, r.body()); } } catch (const std::exception &) {} VCHECK(got.size() <= before.size() && before.compare(0, got.size(), got) == 0, "data after a chunk that does not end where it says became part of the body: " << got.size() << " bytes, the damage is after " << before.size()); n_malf++; V::nontrivial(V::hash_str(all)); }
int main(int argc, char **argv) { N::init(argc, argv); V::rule("requests and responses, several on one connection, sent by the library or composed as raw text (length-delimited, chunked with extensions and trailers, until close; folded fields, bare LF) and received by the library through interrupted and shortened transfers, compared field by field and byte by byte; damaged and truncated messages; httpstream against a scripted server; distinct = distinct messages"); listener(); V::cases("big chunks", 9, 9, bigchunks); V::cases("huge lengths", 60, 9, hugelength); V::cases("streamed", 120, 9, streamed); V::cases("bad chunks", 300, 9, badchunks); V::cases("long lines", 400, 9, longlines); V::cases("fields", 1200, .15, fieldmodel); V::cases("sizes", 100, .2, sizes); V::cases("httpstream", 200, .3, httpstreams); V::cases("lib to lib", 700, .55, libtolib); V::cases("raw to lib", 900, .8, rawtolib); V::cases("malformed", 3000, 1, malformed); V::count("messages received", n_msgs); V::count("body bytes compared", n_bytes); V::count("header fields compared", n_fields); V::count("pipelined messages", n_pipe); V::count("damaged messages", n_malf); V::count("rejected with an exception", n_rej); V::count("truncated messages", n_trunc); V::count("httpstreams", n_stream); V::count("long lines sent", n_long); V::count("long lines refused", n_longref); counts(); return V::finish(); }
