// C52: a front end speaks FastCGI to a program under run_fcgi; what the program sees and answers is compared with what
// was sent and with the same request handed to the program directly.
#include "common.h"
#include <network/cgi.h>
#include <network/cgi/fcgi.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
typedef std::map<std::string, std::string> M; typedef std::vector<std::pair<std::string, std::string> > L;
static uint64_t n_req, n_body, n_resp, n_env, n_keep, n_abort, n_throw, n_bad, n_multi, n_records;
struct Prog : pfi::network::cgi::cgi { std::atomic<int> runs; M q, e, f; std::map<std::string, std::vector<std::string> > mq; std::string meth; L hs; std::string body; int boom; Prog() : runs(0), boom(0) {}
  void run(std::ostream &o) { runs++; q = query; mq = multi_query; e = env; f = file; meth = method; for (auto &h : hs) head[h.first] = h.second; size_t at = 0; int k = 0; while (at < body.size()) { size_t n = ++k % 3 == 0 ? 1 : std::min<size_t>(body.size() - at, 7000); if (n == 1) o.put(body[at]); else o.write(body.data() + at, n); at += n; } if (boom == 1) throw std::runtime_error("x"); if (boom == 2) throw 5; } 
  void same(const Prog &p) { hs = p.hs; body = p.body; boom = p.boom; } };
static Prog *served, *direct; static int port; static std::atomic<bool> ended;
struct Conn { int fd; Conn() : fd(-1) {} ~Conn() { shut(); } void shut() { if (fd >= 0) close(fd); fd = -1; }
  void open() { shut(); fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int r; do r = connect(fd, (sockaddr *)&a, sizeof a); while (r < 0 && errno == EINTR); if (r < 0) { fprintf(stderr, "cannot connect\n"); _exit(78); } }
  bool put(const std::string &s, V::Rng &g) { size_t at = 0; while (at < s.size()) { size_t n = s.size() - at; if (g.chance(1, 2)) n = std::min<size_t>(n, 1 + g.below(g.chance(1, 4) ? 9 : 20000)); ssize_t r = send(fd, s.data() + at, n, MSG_NOSIGNAL); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; at += r; } return true; }
  bool get(void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t r = recv(fd, c, n, 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= r; V::tick(); } return true; } };
static std::string rec(V::Rng &g, int type, int id, const std::string &b) { int pad = b.empty() || type == 1 || g.chance(1, 2) ? 0 : g.below(256); std::string s; s += (char)1; s += (char)type; s += (char)(id >> 8); s += (char)id; s += (char)(b.size() >> 8); s += (char)b.size(); s += (char)pad; s += (char)g.below(256); n_records++; return s + b + std::string(pad, 'P'); }
static std::string stream(V::Rng &g, int type, int id, const std::string &b) { std::string s; size_t at = 0; int style = g.below(4); while (at < b.size()) { size_t n = std::min<size_t>(b.size() - at, 65535); if (style == 1) n = std::min<size_t>(n, 1 + g.below(7)); if (style == 2) n = std::min<size_t>(n, 1 + g.below(5000)); if (b.size() > 20000 && n < 100) n = std::min<size_t>(b.size() - at, 3000); s += rec(g, type, id, b.substr(at, n)); at += n; } return s + rec(g, type, id, ""); }
static std::string len(V::Rng &g, size_t n) { if (n < 128 && !g.chance(1, 8)) return std::string(1, (char)n); std::string s; s += (char)(0x80 | (n >> 24)); s += (char)(n >> 16); s += (char)(n >> 8); s += (char)n; return s; }
struct Req { M env; std::string body; bool keep; int id; };
static std::string begin(V::Rng &g, const Req &r) { std::string b; b += '\0'; b += (char)1; b += (char)(r.keep ? 1 : 0); b += std::string(5, '\0'); return rec(g, 1, r.id, b); }
static std::string wire(V::Rng &g, const Req &r, size_t *params_end = 0) { std::string s = begin(g, r), p; std::vector<std::pair<std::string, std::string> > v(r.env.begin(), r.env.end()); g.shuffle(v); for (auto &x : v) p += len(g, x.first.size()) + len(g, x.second.size()) + x.first + x.second; s += stream(g, 4, r.id, p); if (params_end) *params_end = s.size(); s += stream(g, 5, r.id, r.body); return s; }
static std::string enc(V::Rng &g, const std::string &s) { std::string r; for (unsigned char c : s) { if (isalnum(c) && !g.chance(1, 12)) r += (char)c; else { char b[4]; snprintf(b, 4, "%%%02X", c); r += b; } } return r; }
static std::string nozero(std::string s) { for (auto &c : s) if (!c) c = 'z'; return s; }
struct Made { Req r; L sent; bool get, form; };
static Made make(V::Rng &g) { Made m; m.get = g.chance(1, 3); m.form = true; int n = V::rand_len(g, 10); std::string s; for (int i = 0; i < n; i++) { std::string k = V::rand_bytes(g, V::rand_len(g, 10)), v = V::rand_bytes(g, V::rand_len(g, g.chance(1, 10) ? 60000 : 50)); if (m.get && v.size() > 5000) v.resize(5000); m.sent.push_back(std::make_pair(k, v)); if (i) s += '&'; s += enc(g, k) + "=" + enc(g, v); } m.r.keep = false; m.r.id = 1 + g.below(g.chance(1, 2) ? 3 : 65535); M &e = m.r.env; e["REQUEST_METHOD"] = m.get ? "GET" : "POST"; if (m.get) { e["QUERY_STRING"] = s; if (!m.r.keep && g.chance(1, 3)) m.r.body = V::rand_bytes(g, V::rand_len(g, 300)); } else { e["QUERY_STRING"] = "q=1"; e["CONTENT_LENGTH"] = std::to_string(s.size()); e["CONTENT_TYPE"] = "application/x-www-form-urlencoded"; m.r.body = s; if (!m.r.keep && g.chance(1, 6)) m.r.body += V::rand_bytes(g, 1 + g.below(100)); }
  for (int i = g.below(12); i > 0; i--) { std::string k = "E" + std::to_string(g.below(1000)); if (g.chance(1, 8)) k += std::string(g.below(300), 'K'); e[k] = nozero(V::rand_bytes(g, V::rand_len(g, g.chance(1, 8) ? 3000 : 60))); } if (g.chance(1, 6)) e["EMPTY"] = "";
  if (!m.get && g.chance(1, 4)) { m.form = false; n_multi++; m.sent.clear(); std::string bd = "bd" + std::to_string(g.u32()), b; for (int i = 1 + g.below(4); i > 0; i--) { std::string k = "n" + std::to_string(g.below(5)), v = V::rand_bytes(g, V::rand_len(g, g.chance(1, 10) ? 40000 : 80)); m.sent.push_back(std::make_pair(k, v)); b += "--" + bd + "\r\nContent-Disposition: form-data; name=\"" + k + "\"\r\n\r\n" + v + "\r\n"; } b += "--" + bd + "--\r\n"; m.r.body = b; e["CONTENT_TYPE"] = "multipart/form-data; boundary=" + bd; e["CONTENT_LENGTH"] = std::to_string(b.size()); }
  return m; }
static void reply(V::Rng &g, Prog &p) { p.hs.clear(); p.boom = 0; static const char *ks[] = {"Status", "Location", "X-A", "Content-Type"}; std::set<std::string> u; for (int i = g.below(3); i > 0; i--) { std::string k = ks[g.below(4)]; if (u.insert(k).second) p.hs.push_back(std::make_pair(k, V::rand_text(g, 1 + g.below(20), "abc 12;=/"))); } p.body = V::rand_bytes(g, V::rand_len(g, g.chance(1, 12) ? 300000 : 400)); }
struct Ans { bool whole; std::string out, err; int app, proto; };
static Ans answer(Conn &c, int id) { Ans a; a.whole = false; a.app = a.proto = -1; for (;;) { unsigned char h[8]; if (!c.get(h, 8)) return a; std::string b((h[4] << 8 | h[5]), 0), pad(h[6], 0); if (!c.get(&b[0], b.size()) || !c.get(&pad[0], pad.size())) return a; VEQ((int)h[0], 1, "record version"); VEQ((int)(h[2] << 8 | h[3]), id, "answer to another request"); if (h[1] == 6) a.out += b; else if (h[1] == 7) a.err += b; else if (h[1] == 3) { VEQ(b.size(), 8u, "end record"); a.app = (int)((unsigned char)b[0] << 24 | (unsigned char)b[1] << 16 | (unsigned char)b[2] << 8 | (unsigned char)b[3]); a.proto = (unsigned char)b[4]; a.whole = true; return a; } else VFAIL("unexpected record type " << (int)h[1]); } }
static Conn conn; static bool live;
static void alive(const std::string &how) { VCHECK(!ended, "run_fcgi ended: " << how); }
static std::string ref(const Req &r, bool &ran, bool &thrown) { direct->same(*served); direct->runs = 0; std::istringstream i(r.body); std::ostringstream o, e; thrown = false; try { direct->exec(i, o, e, r.env); } catch (...) { thrown = true; } ran = direct->runs > 0; return o.str(); }
static std::string show(const M &m) { std::string s; for (auto &x : m) s += V::quote(x.first, 40) + "=" + V::quote(x.second, 60) + " "; return s; }
static void one(V::Rng &g, uint64_t idx) { Made m = make(g); reply(g, *served); served->runs = 0; std::string how = show(m.r.env) + " body " + V::quote(m.r.body, 300); V::cur(how); if (!live) conn.open(); else n_keep++; std::string w = wire(g, m.r); VCHECK(conn.put(w, g), "the connection broke while a request was sent: " << how); Ans a = answer(conn, m.r.id); alive(how); VCHECK(a.whole, "the request was not answered in full: " << how); live = m.r.keep; if (!live) { char c; VCHECK(!conn.get(&c, 1), "the connection was kept open"); }
  bool ran, thrown; std::string want = ref(m.r, ran, thrown); VCHECK(ran && !thrown, "reference"); VEQ(served->runs.load(), 1, "runs " << how); VCHECK(a.out == want, "response " << V::quote(a.out) << " and as CGI " << V::quote(want)); VEQ(a.err, "", "errors"); VEQ(a.app, 0, "status"); VEQ(a.proto, 0, "protocol status"); size_t at = want.find("\n\n"); VCHECK(want.substr(at + 2) == served->body, "body produced");
  M q; std::map<std::string, std::vector<std::string> > mq; for (auto &x : m.sent) { q[x.first] = x.second; mq[x.first].push_back(x.second); } VCHECK(served->q == q && served->mq == mq, "method " << served->meth << " env " << show(served->e) << " parameters seen " << show(served->q) << " sent " << show(q) << " in " << how); VEQ(served->meth, m.r.env["REQUEST_METHOD"], "method"); VCHECK(served->f.empty(), "uploads seen in a request without any"); M e = served->e; for (auto &x : m.r.env) { VCHECK(e.count(x.first) && e[x.first] == x.second, "variable " << x.first << " seen as " << V::quote(e[x.first]) << ", sent " << V::quote(x.second)); n_env++; } e.erase("FCGI_ROLE"); e.erase("CONTENT_TYPE"); e.erase("CONTENT_LENGTH"); e.erase("QUERY_STRING"); for (auto &x : e) VCHECK(m.r.env.count(x.first), "variable " << x.first << " was not sent"); n_req++; n_body += m.r.body.size(); n_resp += a.out.size(); V::eval(); V::nontrivial(V::hash_str(w)); if (idx < 2) V::sample(how); }
static void barrier(V::Rng &g) { Req r; r.env["REQUEST_METHOD"] = "GET"; r.env["QUERY_STRING"] = ""; r.keep = false; r.id = 7; conn.open(); VCHECK(conn.put(wire(g, r), g), "the server takes no more requests"); Ans a = answer(conn, 7); alive("after a broken request"); VCHECK(a.whole, "no answer to a request after one that broke off"); conn.shut(); live = false; }
static void broken(V::Rng &g, uint64_t i) { Made m = make(g); while (m.get) m = make(g); reply(g, *served); served->runs = 0; if (!live) conn.open(); live = false; size_t pe; std::string w = wire(g, m.r, &pe); int how = g.below(3); size_t cut = how == 2 ? pe : g.chance(1, 2) ? g.below(w.size()) : pe + g.below(w.size() - pe); size_t need = (size_t)atoi(m.r.env["CONTENT_LENGTH"].c_str()); std::string s = w.substr(0, cut); if (how == 2) { size_t n = need ? g.below(need) : 0; s += stream(g, 5, m.r.id, m.r.body.substr(0, n)); } V::cur("request broken off after " + std::to_string(cut) + " of " + std::to_string(w.size()) + " bytes");
  conn.put(s, g); if (how == 2) { Ans a = answer(conn, m.r.id); alive("short body"); VCHECK(a.whole, "no answer to a request with a short body"); if (need) VCHECK(served->runs == 0, "the program was run on a request whose body was cut short"); } else { conn.shut(); } n_abort++; conn.shut(); barrier(g); for (int k = 0; k < 2; k++) one(g, i + 10); alive("request broken off"); V::eval(); }
static void throwing(V::Rng &g, uint64_t i) { Made m = make(g); reply(g, *served); served->runs = 0; if (!live) conn.open(); served->boom = 1 + g.below(2); V::cur("the program throws"); conn.put(wire(g, m.r), g); answer(conn, m.r.id); conn.shut(); live = false; n_throw++; V::tick(); served->boom = 0; barrier(g); for (int k = 0; k < 2; k++) one(g, i + 10); alive("a program that throws"); }
static void malformed(V::Rng &g, uint64_t i) { Made m = make(g); while (m.form) m = make(g); reply(g, *served); served->runs = 0; if (!live) conn.open(); std::string &b = m.r.body; for (int k = 1 + g.below(5); k > 0; k--) { size_t p = g.below(b.size() + 1); switch (g.below(3)) { case 0: b.erase(p, 1 + g.below(30)); break; case 1: b.insert(p, V::rand_bytes(g, 1 + g.below(20))); break; default: b.insert(p, b.substr(0, g.below(80))); } } m.r.env["CONTENT_LENGTH"] = std::to_string(b.size()); std::string how = "malformed " + m.r.env["CONTENT_TYPE"] + " " + V::quote(b, 800); V::cur(how); conn.put(wire(g, m.r), g); Ans a = answer(conn, m.r.id); alive(how); bool ran, thrown; std::string want = ref(m.r, ran, thrown); VEQ(served->runs.load() > 0, ran, "program run for " << how); if (!thrown) VCHECK(a.whole && a.out == want, "response " << V::quote(a.out) << " and as CGI " << V::quote(want)); if (thrown) n_throw++; conn.shut(); live = false; n_bad++; one(g, i + 10); }
static void serve() { try { pfi::network::cgi::run_fcgi(*served).run(); } catch (...) {} ended = true; V::fail("run_fcgi stopped serving"); }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("requests with random variables, urlencoded and multipart bodies cut into records of any size, broken off at any byte, malformed, and with programs that throw; distinct = distinct requests on the wire"); int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a; if (bind(s, (sockaddr *)&a, l) < 0 || listen(s, 20) < 0 || getsockname(s, (sockaddr *)&a, &l) < 0) _exit(78); port = ntohs(a.sin_port); dup2(s, 0); close(s); unsetenv("FCGI_WEB_SERVER_ADDRS"); served = new Prog; direct = new Prog; std::thread(serve).detach();
  V::cases("requests", 6000, .5, one); V::cases("broken off", 1500, .7, broken); V::cases("throwing", 300, .8, throwing); V::cases("malformed", 3000, 1, malformed);
  V::count("requests compared", n_req); V::count("request body bytes", n_body); V::count("response bytes", n_resp); V::count("variables compared", n_env); V::count("requests broken off", n_abort); V::count("exceptions", n_throw); V::count("malformed requests", n_bad); V::count("multipart requests", n_multi); V::count("records sent", n_records); fflush(0); return V::finish(); }
