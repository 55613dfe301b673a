// C37: socketstream against std::stringstream: the same operations on the same bytes.
#include "net.h"
#include <network/iostream.h>
#include <lang/shared_ptr.h>
using namespace N; typedef pfi::network::socketstream SK; typedef pfi::lang::shared_ptr<S> SP;
static std::atomic<uint64_t> n_ops, n_bytes, n_wops, n_err, n_re;
static std::string st(std::ios &s) { std::string r; if (s.good()) r = "good"; if (s.eof()) r += "eof "; if (s.fail()) r += "fail "; if (s.bad()) r += "bad "; return r; }
static std::string payload(V::Rng &g) { std::string s; int k = g.below(4); if (k == 0) s = V::rand_bytes(g, V::rand_len(g, 30000)); else if (k == 1) { int n = g.below(300); for (int i = 0; i < n; i++) { switch (g.below(5)) { case 0: s += std::to_string((int64_t)g.u64() >> g.below(64)); break; case 1: s += "  \n"; break; case 2: { char b[40]; snprintf(b, 40, "%.6g", g.unit() * 1e4); s += b; break; } case 3: s += V::rand_text(g, g.below(9), "abcxyz"); break; default: s += "\xff"; } s += " \t\n\r\n"[g.below(5)]; } } else if (k == 2) s = V::rand_text(g, V::rand_len(g, 9000), "\xff\n\0ab "); else { s = V::rand_bytes(g, V::rand_len(g, 20000)); for (auto &c : s) if (g.chance(1, 9)) c = g.chance(1, 2) ? '\n' : (char)255; } if (g.chance(1, 2)) for (int i = 0; i < 256; i++) s += (char)i; return s; }
template <class T> static void num(SK &a, std::istream &b, const char *nm, size_t i) { T x = T(77), y = T(77); a >> x; b >> y; VCHECK(!memcmp(&x, &y, sizeof(double) < sizeof x ? sizeof(double) : sizeof x), "operator>>(" << nm << ") number " << i << " read " << x << ", expected " << y); }
static void reading(V::Rng &g, uint64_t idx) { std::string d = payload(g); V::cur("reading " + V::quote(d, 300)); size_t h0 = held(); Pair p = connected(); V::Rng wg(g.u64()); int lw = g.below(2), lr = g.below(2); std::thread t([&] { Arm a(wg, lw); size_t at = 0; while (at < d.size()) { size_t n = std::min(d.size() - at, 1 + V::rand_len(wg, 9000)); p.b->write(d.data() + at, n); at += n; if (wg.chance(1, 3)) p.b->flush(); } delete p.b; });
  { Arm arm(g, lr); SP sp(p.a); SK a(sp); VCHECK(a.is_connected() && a.socket() == sp.get(), "connected"); std::istringstream b(d); std::string log; size_t i = 0; int end = 0; while (end < 3 && i < 200000) { int op = g.below(14); i++; n_ops++; switch (op) {
      case 0: { int x = a.get(), y = b.get(); VEQ(x, y, "get() number " << i << " after " << log); break; }
      case 1: { int x = a.peek(), y = b.peek(); VEQ(x, y, "peek() number " << i); break; }
      case 2: { std::string x = "u", y = "u"; std::getline(a, x); std::getline(b, y); VCHECK(x == y, "getline number " << i << " read " << V::quote(x, 60) << ", expected " << V::quote(y, 60)); break; }
      case 3: { size_t n = V::rand_len(g, 3000); std::string x(n, 'u'), y(n, 'u'); a.read(&x[0], n); b.read(&y[0], n); VEQ(a.gcount(), b.gcount(), "gcount of read(" << n << ")"); VCHECK(x == y, "read(" << n << ") number " << i << " delivered other bytes"); break; }
      case 4: { size_t n = g.below(50); char dl = g.chance(1, 2) ? '\n' : (char)255; if (g.chance(1, 2)) { a.ignore(n, (unsigned char)dl); b.ignore(n, (unsigned char)dl); } else { a.ignore(n); b.ignore(n); } VEQ(a.gcount(), b.gcount(), "gcount of ignore"); break; }
      case 5: num<int>(a, b, "int", i); break; case 6: num<long long>(a, b, "long long", i); break; case 7: { std::string x = "u", y = "u"; a >> x; b >> y; VCHECK(x == y, "operator>>(string) number " << i << " read " << V::quote(x, 60) << ", expected " << V::quote(y, 60)); break; }
      case 8: { char x = 'u', y = 'u'; a >> std::noskipws >> x >> std::skipws; b >> std::noskipws >> y >> std::skipws; VEQ((int)x, (int)y, "operator>>(char) number " << i); break; }
      case 9: num<double>(a, b, "double", i); break; case 10: { char x[20] = {0}, y[20] = {0}; char dl = g.chance(1, 2) ? '\n' : 'a'; a.getline(x, sizeof x, dl); b.getline(y, sizeof y, dl); VCHECK(!memcmp(x, y, 20), "getline into an array, number " << i); VEQ(a.gcount(), b.gcount(), "gcount of getline"); break; }
      case 11: a >> std::ws; b >> std::ws; break; case 12: { char x[9] = {0}, y[9] = {0}; a.get(x, 9, '\n'); b.get(y, 9, '\n'); VCHECK(!memcmp(x, y, 9), "get into an array, number " << i); break; }
      default: { std::streambuf *x = a.rdbuf(), *y = b.rdbuf(); int k = g.below(4); if (k == 0) VEQ(x->sgetc(), y->sgetc(), "sgetc"); else if (k == 1) VEQ(x->sbumpc(), y->sbumpc(), "sbumpc"); else if (k == 2) VEQ(x->snextc(), y->snextc(), "snextc"); else { char u[30], v[30]; std::streamsize n = g.below(30); std::streamsize r = x->sgetn(u, n), q = y->sgetn(v, n); VEQ(r, q, "sgetn"); VCHECK(!memcmp(u, v, r), "sgetn bytes"); } } }
    VEQ(st(a), st(b), "stream state after operation " << op << " number " << i); if (!a) { if (a.eof()) end++; a.clear(); b.clear(); } if ((i & 255) == 0) V::tick(); }
    std::string x((std::istreambuf_iterator<char>(a)), std::istreambuf_iterator<char>()), y((std::istreambuf_iterator<char>(b)), std::istreambuf_iterator<char>()); VCHECK(x == y, "rest of the stream"); }
  t.join(); VEQ(held(), h0, "descriptors held after a socketstream is gone"); n_bytes += d.size(); V::nontrivial(V::hash_str(d)); if (idx < 3) V::sample(V::quote(d, 100)); }
static void writing(V::Rng &g, uint64_t) { size_t h0 = held(); Pair p = connected(); std::string got; V::Rng rg(g.u64()); std::atomic<size_t> seen(0); std::atomic<size_t> mark(0); std::string sofar; std::mutex m; int lr = g.below(2); std::thread t([&] { Arm a(rg, lr); std::string b; for (;;) { int c = p.b->getc(); if (c == EOF) break; { std::lock_guard<std::mutex> l(m); got += (char)c; } } });
  { Arm arm(g, g.below(2)); SK *s = new SK(SP(p.a)); std::ostringstream o; int n = g.below(60); bool flushed = false; for (int i = 0; i < n; i++) { n_wops++; flushed = false; switch (g.below(9)) { case 0: { char c = g.chance(1, 4) ? (char)255 : (char)g.u32(); s->put(c); o.put(c); break; } case 1: case 2: { std::string d = V::rand_bytes(g, V::rand_len(g, 20000)); s->write(d.data(), d.size()); o.write(d.data(), d.size()); break; } case 3: { int v = (int)g.u32(); *s << v << ' ' << std::hex << v << std::dec << '\n'; o << v << ' ' << std::hex << v << std::dec << '\n'; break; } case 4: { double v = g.unit() * 1e9; *s << v; o << v; break; } case 5: { std::string d = V::rand_bytes(g, V::rand_len(g, 200)); *s << d; o << d; break; } case 6: { std::stringbuf b(V::rand_bytes(g, 1 + V::rand_len(g, 9000))); std::string c = b.str(); *s << &b; std::stringbuf e(c); o << &e; break; } case 7: { *s << std::endl; o << std::endl; flushed = true; break; } default: s->flush(); flushed = true; }
      VCHECK(s->good(), "writing to an open connection set the stream state to " << st(*s)); if (flushed && g.chance(1, 3)) { size_t w = o.str().size(); uint64_t t0 = V::now_us(); for (;;) { { std::lock_guard<std::mutex> l(m); if (got.size() >= w) break; } VCHECK(V::now_us() - t0 < 20000000, "bytes that were flushed did not reach the peer: " << got.size() << " of " << w); std::this_thread::sleep_for(std::chrono::microseconds(200)); } } V::tick(); }
    if (g.chance(1, 2)) s->flush(); delete s; t.join(); std::string want = o.str(); VEQ(got.size(), want.size(), "bytes delivered when the stream is gone"); VCHECK(got == want, "the peer received other bytes than were written"); n_bytes += want.size(); } delete p.b; VEQ(held(), h0, "descriptors held after a socketstream is gone"); }
static void errors(V::Rng &g, uint64_t) { size_t h0 = held(); V::cur("stream errors"); { SK s; VCHECK(!s.is_connected() && !s.socket(), "a stream without a socket"); int k = g.below(4); if (k == 0) { s << "x"; s.flush(); VCHECK(!s, "writing without a socket succeeded"); } else if (k == 1) { s.put('x'); VCHECK(!s, "put without a socket succeeded"); } else if (k == 2) { VEQ(s.get(), EOF, "get without a socket"); VCHECK(!s, "get without a socket succeeded"); } else { s.flush(); VCHECK(!s, "flush without a socket succeeded"); } }
  { uint16_t dead; { SS t; t.create(0); dead = t.port(); } SK s("127.0.0.1", dead); VCHECK(!s && !s.is_connected(), "a stream connected to a port nobody listens on"); s.clear(); s.connect("127.0.0.1", listener().port()); S *b = listener().accept(); VCHECK(b && s.good() && s.is_connected(), "connecting a stream again"); delete b; s.get(); VCHECK(!s, "the end of a connection did not show"); s.connect("127.0.0.1", listener().port()); b = listener().accept(); VCHECK(b && s.good() && s.is_connected(), "a stream whose connection ended is " << st(s) << " after connecting again"); b->puts("again\n"); b->flush(); std::string l; VCHECK(std::getline(s, l) && l == "again", "a stream connected again read " << V::quote(l)); delete b; }
  { Raw raw; raw.to(listener().port()); S *x = listener().accept(); VCHECK(x, "accept"); SK s((SP(x))); size_t cut = g.below(9000), sent = 0; std::string got; std::thread t([&] { got = raw.all(); }); { Arm a(g, 0); a.f.send_left = cut; size_t n = cut + 1 + g.below(30000); while (sent < n && s.put((char)sent)) sent++; if (s) s.flush(); VCHECK(!s, "the connection broke after " << cut << " bytes, " << n << " were put one by one and flushed, and the stream stayed good"); } { Arm a(g, 0); a.f.send_left = 0; s.clear(); s.put('x'); if (s) s.flush(); VCHECK(!s, "a put and flush on a broken connection went well"); } s.setsock(SP()); t.join(); std::string want; for (size_t i = 0; i < cut; i++) want += (char)i; VCHECK(got == want, "the peer of a broken connection got " << got.size() << " other bytes than the first " << cut); n_err++; }
  { Raw raw; raw.to(listener().port()); S *x = listener().accept(); VCHECK(x, "accept"); SK s((SP(x))); std::string got; std::thread t([&] { got = raw.all(); }); bool lost = false; size_t n = 300000, bad = 0; { Arm a(g, 0); a.f.send_left = g.below(9000); for (size_t i = 0; i < n; i++) { s.put('a'); if (!s) { lost = true; bad++; break; } } } VCHECK(lost, n << " bytes were put one by one into a connection that broke within 9000 and no put failed"); s.setsock(SP()); t.join(); }
  { Raw raw; raw.to(listener().port()); S *x = listener().accept(); VCHECK(x, "accept"); SK s((SP(x))); std::string d = V::rand_bytes(g, 1 + V::rand_len(g, 30000)); size_t cut = g.below(d.size()); std::string got; std::thread t([&] { got = raw.all(); }); { Arm a(g, 1); a.f.send_left = cut; size_t at = 0; bool told = false; while (at < d.size() && !told) { size_t n = std::min(d.size() - at, 1 + V::rand_len(g, 9000)); s.write(d.data() + at, n); at += n; if (!s || (g.chance(1, 2) && !s.flush())) told = true; } if (!told && !s.flush()) told = true; VCHECK(told, "the connection broke after " << cut << " of " << d.size() << " bytes and the stream stayed good"); } s.setsock(SP()); t.join(); VCHECK(got == d.substr(0, cut), "the peer of a broken connection got other bytes"); n_err++; }
  { // one stream over successive connections: nothing of the first shows on the second
    Pair p = connected(), q = connected(); p.b->puts("first\n"); p.b->flush(); q.b->puts("second\n"); q.b->flush(); SK s((SP(p.a))); std::string l; int k = g.below(4); if (k == 0) s.peek(); else if (k == 1) { s.get(); s.peek(); } else if (k == 2) s >> l; if (g.chance(1, 2)) s << "unsent"; s.setsock(SP(q.a)); VCHECK(s.good(), "state after changing the connection"); VCHECK(std::getline(s, l) && l == "second", "the second connection of a stream delivered " << V::quote(l)); s << "reply" << std::flush; char b[5]; VEQ(q.b->read(b, 5), 5, "reply"); VCHECK(!memcmp(b, "reply", 5), "the second connection carried " << V::quote(std::string(b, 5))); delete p.b; delete q.b; n_re++; }
  VEQ(held(), h0, "descriptors held after stream errors"); }
int main(int argc, char **argv) { N::init(argc, argv); V::rule("the same random read operations on a socketstream and a stringstream over the same bytes, with interrupted and shortened transfers, comparing values, counts and stream states; random writes against an ostringstream and the bytes the peer received, after flush and after destruction; broken, missing and changed connections; distinct = distinct payloads"); listener(); V::cases("errors", 300, .2, errors); V::cases("writing", 500, .5, writing); V::cases("reading", 2000, 1, reading); V::count("read operations compared", n_ops); V::count("write operations", n_wops); V::count("bytes compared", n_bytes); V::count("broken streams", n_err); V::count("changed connections", n_re); counts(); return V::finish(); }
