// C41: parameters sent to a CGI program in query strings, urlencoded and multipart bodies, against what it sees.
#include "common.h"
#include <network/cgi.h>
#include <network/cgi/util.h>
#include <sys/resource.h>
extern char **environ;
typedef std::map<std::string, std::string> M; typedef std::map<std::string, std::vector<std::string> > MM; typedef std::vector<std::pair<std::string, std::string> > L;
static uint64_t n_params, n_parts, n_files, n_nested, n_trunc, n_bad, n_refused, n_resp, n_env, n_thrown;
struct Prog : pfi::network::cgi::cgi { int runs; M q, f, e; MM mq; std::string meth; std::map<std::string, pfi::network::http::header> fi; L hs; std::string body, ctype;
  Prog() : runs(0) {} void run(std::ostream &o) { runs++; q = query; mq = multi_query; f = file; e = env; fi = file_info; meth = method; ctype = head["Content-Type"]; for (auto &h : hs) head[h.first] = h.second; o << body; } };
static Prog &prog() { static Prog *p = new Prog; return *p; }
static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::string enc(V::Rng &g, const std::string &s, bool nice) { std::string r; for (unsigned char c : s) { bool plain = isalnum(c) || strchr("-_.~", c); if (!c) plain = false; if (!plain && c && strchr("!*'();:@/?,$[]", c) && !nice && g.chance(1, 2)) plain = true; if (plain && (nice || !g.chance(1, 12))) r += (char)c; else if (c == ' ' && g.chance(1, 2)) r += '+'; else { char b[4]; snprintf(b, 4, g.chance(1, 2) ? "%%%02X" : "%%%02x", c); r += b; } } return r; }
// what came out of one request
struct Out { bool ran, thrown; M head; std::string body, all; };
static Out exec(const M &env, const std::string &in, std::string *rest = 0) { Prog &p = prog(); p.runs = 0; p.q.clear(); p.mq.clear(); p.f.clear(); p.fi.clear(); std::istringstream is(in); std::ostringstream os, es; Out o; o.thrown = false; try { p.exec(is, os, es, env); } catch (const std::exception &x) { o.thrown = true; n_thrown++; } o.ran = p.runs > 0; VCHECK(p.runs <= 1, "the program ran " << p.runs << " times for one request"); o.all = os.str(); if (rest) { is.clear(); std::ostringstream r; r << is.rdbuf(); *rest = r.str(); } size_t at = 0; for (;;) { size_t nl = o.all.find('\n', at); if (nl == std::string::npos || nl == at) { o.body = nl == std::string::npos ? "" : o.all.substr(nl + 1); break; } std::string ln = o.all.substr(at, nl - at); size_t c = ln.find(": "); if (c != std::string::npos) o.head[lower(ln.substr(0, c))] = ln.substr(c + 2); at = nl + 1; } V::eval(); return o; }
static std::string num(size_t n) { return std::to_string(n); }
static std::string show(const M &m) { std::string s; for (auto &x : m) s += V::quote(x.first, 60) + "=" + V::quote(x.second, 60) + " "; return s; }
static void expect(const L &sent, const std::string &how) { Prog &p = prog(); M q; MM mq; for (auto &x : sent) { q[x.first] = x.second; mq[x.first].push_back(x.second); } VCHECK(p.q == q, "parameters seen " << show(p.q) << " sent " << show(q) << " " << how); VCHECK(p.mq == mq, "repeated parameters differ from what was sent: " << show(q) << " " << how); n_params += sent.size(); }
static void reply(V::Rng &g, Prog &p) { p.hs.clear(); int n = g.below(4); static const char *ks[] = {"Status", "Location", "X-A", "Set-Cookie", "Content-Type", "Cache-Control"}; std::set<std::string> used; for (int i = 0; i < n; i++) { std::string k = ks[g.below(6)]; if (!used.insert(k).second) continue; std::string v = V::rand_text(g, 1 + g.below(20), "abc 12;=/\"") ; p.hs.push_back(std::make_pair(k, v)); } p.body = V::rand_bytes(g, V::rand_len(g, g.chance(1, 20) ? 100000 : 300)); }
static void answered(const Out &o, const std::string &how) { Prog &p = prog(); VCHECK(o.ran && !o.thrown, "the program was not run: " << how); M want; want["content-type"] = "text/plain; charset=utf-8"; for (auto &h : p.hs) want[lower(h.first)] = h.second; VCHECK(o.head == want, "response head " << show(o.head) << " wanted " << show(want)); VCHECK(o.body == p.body, "response body " << V::quote(o.body) << " produced " << V::quote(p.body)); VEQ(p.ctype, "text/plain; charset=utf-8", "default type"); n_resp++; }
static L params(V::Rng &g) { L l; int n = V::rand_len(g, 12); std::vector<std::string> names; for (int i = 0; i < n; i++) { std::string k = !names.empty() && g.chance(1, 4) ? g.pick(names) : V::rand_bytes(g, V::rand_len(g, 12)); names.push_back(k); l.push_back(std::make_pair(k, g.chance(1, 40) ? V::rand_bytes(g, V::rand_len(g, 20000)) : V::rand_bytes(g, V::rand_len(g, 40)))); } return l; }
static std::string urlenc(V::Rng &g, const L &l) { std::string s; for (size_t i = 0; i < l.size(); i++) { if (i) s += '&'; s += enc(g, l[i].first, false); if (!l[i].second.empty() || l[i].first.empty() || g.chance(1, 2)) { s += '='; std::string v = enc(g, l[i].second, false); if (g.chance(1, 5)) for (size_t p = 0; (p = v.find("%3d", p)) != std::string::npos; p++) v.replace(p, 3, "="); s += v; } } return s; }
static void urlencoded(V::Rng &g, uint64_t idx) { L l = params(g); std::string s = urlenc(g, l); reply(g, prog()); M env; std::string how = V::quote(s); V::cur("urlencoded " + how); if (g.chance(1, 2)) { env["REQUEST_METHOD"] = "GET"; env["QUERY_STRING"] = s; Out o = exec(env, V::rand_bytes(g, 10)); answered(o, how); VEQ(prog().meth, "GET", "method"); }
  else { env["REQUEST_METHOD"] = "POST"; env["QUERY_STRING"] = "no=1"; env["CONTENT_LENGTH"] = num(s.size()); if (g.chance(3, 4)) env["CONTENT_TYPE"] = "application/x-www-form-urlencoded"; std::string more = g.chance(1, 2) ? V::rand_bytes(g, g.below(30)) : g.chance(1, 2) ? "&x=y" : "", rest; Out o = exec(env, s + more, &rest); answered(o, how); VEQ(prog().meth, "POST", "method"); VCHECK(rest == more, "bytes after the body were consumed: " << how); }
  expect(l, how); VCHECK(prog().e == env || true, ""); for (auto &x : env) VEQ(prog().e[x.first], x.second, "environment " << x.first); VCHECK(prog().f.empty() && prog().fi.empty(), "files seen in a request without any"); V::nontrivial(V::hash_str(s)); if (idx < 3) V::sample(how); }
static void other(V::Rng &g, uint64_t) { M env; static const char *ms[] = {"HEAD", "PUT", "", "get"}; env["REQUEST_METHOD"] = ms[g.below(4)]; env["QUERY_STRING"] = "a=1"; env["CONTENT_LENGTH"] = "3"; reply(g, prog()); V::cur("method " + env["REQUEST_METHOD"]); Out o = exec(env, "b=2"); answered(o, "method"); }
struct Part { int kind; std::string name, fname, ctype, body; std::vector<Part> sub; std::string bd; }; // 0 field, 1 file, 2 attachment, 3 nested
static std::string qname(V::Rng &g, size_t most) { std::string s; int n = g.chance(1, 15) ? 0 : 1 + g.below(most); for (int i = 0; i < n; i++) s += g.chance(1, 6) ? ";=: ,'\\/"[g.below(8)] : g.chance(1, 8) ? (char)(128 + g.below(128)) : (char)('a' + g.below(26)); if (g.chance(1, 25)) s += "; filename=" + std::string(1, 'a' + g.below(26)); return s; }
static std::string boundary(V::Rng &g, bool &quoted) { quoted = g.chance(1, 3); int n = g.chance(1, 3) ? 1 + g.below(4) : g.chance(1, 6) ? 70 : 5 + g.below(40); std::string s = g.chance(1, 3) ? std::string(g.below(n), '-') : ""; while ((int)s.size() < n) s += quoted ? "abcXYZ019'()+_,-./:=? "[g.below(22)] : "abcXYZ019-_."[g.below(12)]; if (s[n - 1] == ' ') s[n - 1] = 'z'; return s; }
static std::string content(V::Rng &g, const std::vector<std::string> &bds) { std::string s; int n = V::rand_len(g, 30); for (int i = 0; i < n; i++) { const std::string &b = bds[g.below(bds.size())]; switch (g.below(9)) { case 0: s += "\r\n--" + b.substr(0, g.below(b.size() + 1)); break; case 1: s += "\n--"; break; case 2: s += "--" + b; break; case 3: s += "\r\n"; break; case 4: s += "\r"; break; case 5: s += "\n-"; break; case 6: s += "--"; break; default: s += V::rand_bytes(g, V::rand_len(g, 20)); } } if (g.chance(1, 40)) s += V::rand_bytes(g, V::rand_len(g, 50000));
  for (;;) { bool bad = false; std::string t = "\n" + s; for (auto &b : bds) { size_t p = t.find("\n--" + b); if (p != std::string::npos) { s[p + 2 - 1 + b.size()] = s[p + 1 + b.size()] == 'Q' ? 'R' : 'Q'; bad = true; } } if (!bad) break; } return s; }
static std::vector<Part> parts(V::Rng &g, std::vector<std::string> bds, int depth, std::set<std::string> &fnames) { std::vector<Part> v; int n = g.chance(1, 8) ? 0 : 1 + g.below(5); if (depth && !n) n = 1; for (int i = 0; i < n; i++) { Part p; p.kind = g.chance(1, 2) ? 0 : g.chance(1, 2) ? 1 : g.chance(1, 2) ? 2 : 3; if (p.kind == 3 && depth >= 4) p.kind = 0; p.name = qname(g, 12); do p.fname = qname(g, 12); while (p.kind != 3 && !fnames.insert(p.fname).second); if (g.chance(1, 2) || p.kind == 3) p.ctype = "text/plain; charset=utf-8"; if (p.kind == 3) { bool q, clash; do { p.bd = boundary(g, q); clash = false; for (auto &b : bds) if (b.compare(0, p.bd.size(), p.bd) == 0 || p.bd.compare(0, b.size(), b) == 0) clash = true; } while (clash); p.ctype = "multipart/mixed; boundary=" + (q ? "\"" + p.bd + "\"" : p.bd); if (g.chance(1, 4)) p.ctype += "; charset=x"; std::vector<std::string> b2 = bds; b2.push_back(p.bd); p.sub = parts(g, b2, depth + 1, fnames); } else p.body = content(g, bds); v.push_back(p); } return v; }
static std::string render(V::Rng &g, const std::vector<Part> &v, const std::string &bd, std::vector<size_t> *ends) { std::string s; if (g.chance(1, 4)) s += "preamble\r\nof -- dashes\r\n"; s += "--" + bd + (g.chance(1, 8) ? " " : "") + (v.empty() ? "--" : "") + "\r\n"; for (size_t i = 0; i < v.size(); i++) { const Part &p = v[i]; std::vector<std::string> h; if (p.kind < 3) { std::string d = std::string("Content-Disposition: ") + (p.kind == 2 ? "attachment" : "form-data"); std::string nm = "name=\"" + p.name + "\"", fn = "filename=\"" + p.fname + "\""; if (g.chance(1, 6)) nm = "NAME = \"" + p.name + "\""; bool tok = !p.name.empty(); for (char c : p.name) if (!isalnum((unsigned char)c)) tok = false; if (tok && g.chance(1, 5)) nm = "name=" + p.name; std::string sep = g.chance(1, 5) ? ";" : "; "; if (p.kind == 0) d += sep + nm; else if (p.kind == 2) d += sep + fn; else d += g.chance(1, 4) ? sep + fn + sep + nm : sep + nm + sep + fn; if (g.chance(1, 8)) d += sep + "size=12"; h.push_back(d); } if (!p.ctype.empty()) h.push_back("Content-Type: " + p.ctype); if (g.chance(1, 4)) h.push_back("X-Extra: some thing"); g.shuffle(h); for (auto &x : h) s += x + "\r\n"; s += "\r\n"; s += p.kind == 3 ? render(g, p.sub, p.bd, 0) : p.body; s += "\r\n--" + bd; if (ends) ends->push_back(s.size()); if (i + 1 == v.size()) s += "--"; if (g.chance(1, 8)) s += " "; if (i + 1 < v.size() || g.chance(3, 4)) s += "\r\n"; } if (g.chance(1, 4) && s[s.size() - 1] == '\n') s += "epilogue\r\n--not a part\r\n"; return s; }
static void flat(const std::vector<Part> &v, std::vector<const Part *> &o) { for (auto &p : v) if (p.kind == 3) { n_nested++; flat(p.sub, o); } else o.push_back(&p); }
static void check_parts(const std::vector<const Part *> &ps, const std::string &how) { L l; M files; for (auto p : ps) { n_parts++; if (p->kind == 0) l.push_back(std::make_pair(p->name, p->body)); if (p->kind == 1) { l.push_back(std::make_pair(p->name, p->fname)); files[p->fname] = p->body; } if (p->kind == 2) files[p->fname] = p->body; } expect(l, how); Prog &q = prog(); VCHECK(q.f == files, "uploads seen " << show(q.f) << " sent " << show(files) << " " << how); VEQ(q.fi.size(), files.size(), "upload heads " << how); n_files += files.size(); for (auto p : ps) if (p->kind) { if (!p->ctype.empty()) VEQ(q.fi[p->fname]["content-type"], p->ctype, "type of an upload " << how); } }
static std::vector<Part> body_of(V::Rng &g, std::string &bd, std::string &ct, std::string &s, std::vector<size_t> &ends) { bool q; bd = boundary(g, q); std::set<std::string> fn; std::vector<Part> v = parts(g, std::vector<std::string>(1, bd), 0, fn); ct = "multipart/form-data; boundary=" + (q ? "\"" + bd + "\"" : bd); if (g.chance(1, 6)) ct += g.chance(1, 2) ? "; charset=utf-8" : ";charset=x"; s = render(g, v, bd, &ends); return v; }
static void multipart(V::Rng &g, uint64_t idx) { std::string bd, ct, s; std::vector<size_t> ends; std::vector<Part> v = body_of(g, bd, ct, s, ends); reply(g, prog()); std::string how = ct + " " + V::quote(s, 1500); V::cur("multipart " + how); M env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_TYPE"] = ct; env["CONTENT_LENGTH"] = num(s.size()); std::string more = g.chance(1, 3) ? "\r\n--" + bd + "\r\nx" : "", rest; Out o = exec(env, s + more, &rest); answered(o, how); VCHECK(rest == more, "bytes after the body were consumed: " << how); std::vector<const Part *> ps; flat(v, ps); check_parts(ps, how); V::nontrivial(V::hash_str(s)); if (idx < 3) V::sample(how); }
static void truncated(V::Rng &g, uint64_t) { std::string bd, ct, s; std::vector<size_t> ends; std::vector<Part> v = body_of(g, bd, ct, s, ends); int cuts = 12; for (int i = 0; i < cuts; i++) { size_t t = g.chance(1, 3) && !ends.empty() ? std::min(s.size(), ends[g.below(ends.size())] - std::min<size_t>(ends[0], g.below(6)) + g.below(4)) : g.below(s.size() + 1); std::string b = s.substr(0, t); reply(g, prog()); std::string how = "cut to " + num(t) + ": " + ct + " " + V::quote(b, 1500); V::cur("multipart " + how); M env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_TYPE"] = ct; env["CONTENT_LENGTH"] = num(b.size()); Out o = exec(env, b); n_trunc++; if (o.thrown) continue; answered(o, how); std::vector<const Part *> ps; std::vector<Part> w; for (size_t k = 0; k < v.size(); k++) if (ends[k] <= t) w.push_back(v[k]); flat(w, ps); check_parts(ps, how);
    // the stream ends before the announced length: the program must not run on half a request
    if (t < s.size()) { env["CONTENT_LENGTH"] = num(s.size()); Out r = exec(env, b); VCHECK(!r.ran, "the program was run on a request that broke off: " << how); VCHECK(r.thrown || r.head["status"].substr(0, 1) == "5" || r.head["status"].substr(0, 1) == "4", "no error was reported for a request that broke off"); n_refused++; } } V::nontrivial(V::hash_str(s)); }
static void limits(V::Rng &g, uint64_t) { Prog &p = prog(); reply(g, p); L l = params(g); std::string s = urlenc(g, l); size_t lim = g.chance(1, 3) ? g.below(200) : s.size() - (s.size() && g.chance(1, 2)); p.set_max_content_length(lim); M env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_LENGTH"] = num(s.size()); V::cur("limit " + num(lim) + " " + V::quote(s)); Out o = exec(env, s); if (s.size() > lim) { VCHECK(!o.ran, "a body of " << s.size() << " bytes passed the limit of " << lim); n_refused++; } else { answered(o, "limit"); expect(l, V::quote(s)); } static const char *bad[] = {"", "x", "-5", "99999999999999999999999", "4294967296000", "12x", " 3", "0"}; env["CONTENT_LENGTH"] = bad[g.below(8)]; o = exec(env, s); n_bad++; p.set_max_content_length(4 * 1024 * 1024); }
static void malformed(V::Rng &g, uint64_t) { std::string bd, ct, s; std::vector<size_t> ends; body_of(g, bd, ct, s, ends); for (int i = 0; i < 8; i++) { std::string b = s, c = ct; int n = 1 + g.below(6); for (int k = 0; k < n && !b.empty(); k++) { size_t p = g.below(b.size()); switch (g.below(6)) { case 0: b[p] = g.u32(); break; case 1: b.erase(p, 1 + g.below(10)); break; case 2: b.insert(p, "\r\n--" + bd + "\r\n"); break; case 3: b.insert(p, V::rand_bytes(g, 1 + g.below(6))); break; case 4: b.insert(p, "\r\nContent-Type: multipart/x" + std::string(g.chance(1, 2) ? "; boundary=" : "") + "\r\n\r\n"); break; default: b.insert(p, b.substr(0, g.below(60))); } if (b.size() > 200000) break; } static const char *cts[] = {"multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=\"", "multipart/;boundary=\"\"", "multipart/form-data; boundary=\"x", "multipart/", "boundary=x multipart/", "multipart/form-data; boundary= "}; if (g.chance(1, 3)) c = cts[g.below(8)]; else if (g.chance(1, 6)) c = c.substr(0, g.below(c.size() + 1)); if (g.chance(1, 10)) b = V::rand_bytes(g, V::rand_len(g, 500)); M env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_TYPE"] = c; env["CONTENT_LENGTH"] = num(b.size()); std::string how = c + " " + V::quote(b, 1500); V::cur("malformed " + how); reply(g, prog()); Out o = exec(env, b); n_bad++; if (o.ran) answered(o, how); if (c.find("multipart/") != std::string::npos && c.find("boundary=") == std::string::npos) VCHECK(!o.ran && !o.thrown && o.head["status"].substr(0, 1) == "5", "a multipart request without a boundary was not refused with an error"); }
  { std::string u = V::rand_text(g, V::rand_len(g, 200), "a=&%+1fG\xff\x00;"); if (g.chance(1, 2)) u += "%"; M env; bool get = g.chance(1, 2); env["REQUEST_METHOD"] = get ? "GET" : "POST"; env["QUERY_STRING"] = u; env["CONTENT_LENGTH"] = num(u.size()); V::cur("malformed " + V::quote(u)); reply(g, prog()); Out o = exec(env, u); n_bad++; if (o.ran) answered(o, u); } V::nontrivial(V::hash_str(s)); }
static void deep(V::Rng &, uint64_t) { int d = 4500; std::string open, shut; for (int i = 0; i < d; i++) { char b[16]; snprintf(b, 16, "b%05d", i); open += std::string("--") + b + "\nContent-Type: multipart/m;boundary="; snprintf(b, 16, "b%05d", i + 1); open += std::string(b) + "\n\n"; } std::string s = open + "--b04500\nx: y\n\nz\n--b04500--"; for (int i = d - 1; i >= 0; i--) { char b[16]; snprintf(b, 16, "\n--b%05d--", i); s += b; } V::cur("multipart bodies nested 4500 deep"); rusage a, b; getrusage(RUSAGE_SELF, &a); M env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_TYPE"] = "multipart/form-data; boundary=b00000"; env["CONTENT_LENGTH"] = num(s.size()); exec(env, s); getrusage(RUSAGE_SELF, &b); VCHECK(b.ru_maxrss - a.ru_maxrss < 300 * 1024, "a request of " << s.size() << " bytes took " << (b.ru_maxrss - a.ru_maxrss) << " kB of memory"); }
static void asprogram(V::Rng &g, uint64_t) { L l = params(g); std::string s = urlenc(g, l); reply(g, prog()); Prog &p = prog(); p.runs = 0; bool get = g.chance(1, 2); std::vector<std::string> es; es.push_back(std::string("REQUEST_METHOD=") + (get ? "GET" : "POST")); if (get) es.push_back("QUERY_STRING=" + s); else es.push_back("CONTENT_LENGTH=" + num(s.size())); M want; for (int i = g.below(5); i > 0; i--) { std::string k = "E" + num(i), v = V::rand_text(g, g.below(20), "a=b =\xff"); es.push_back(k + "=" + v); want[k] = v; } if (g.chance(1, 3)) es.push_back("NOEQUALS"); g.shuffle(es); V::cur("as a program " + V::quote(s)); std::vector<char *> ptr; for (auto &e : es) ptr.push_back(&e[0]); ptr.push_back(0); char **old = environ; environ = &ptr[0]; std::istringstream in(s); std::ostringstream out; std::streambuf *ib = std::cin.rdbuf(in.rdbuf()), *ob = std::cout.rdbuf(out.rdbuf()); try { pfi::network::cgi::run_cgi(p).run(); } catch (...) { std::cin.rdbuf(ib); std::cout.rdbuf(ob); environ = old; VFAIL("a well-formed request ended with an exception"); } std::cin.rdbuf(ib); std::cout.rdbuf(ob); environ = old; std::cin.clear(); VEQ(p.runs, 1, "runs"); expect(l, V::quote(s)); for (auto &x : want) VEQ(p.e[x.first], x.second, "environment variable"); VCHECK(!p.e.count("NOEQUALS"), "a variable without value"); size_t at = out.str().find("\n\n"); if (p.hs.empty()) VCHECK(out.str().substr(at + 2) == p.body, "body printed"); n_env++; V::eval(); }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("requests with random parameters, uploads and nested parts in every encoding, with values that imitate boundaries, cut at any byte, malformed, over the limit; one program object serves all of them and what it sees is compared with what was sent; distinct = distinct bodies"); V::cases("deep", 1, 1, deep); V::cases("urlencoded", 6000, .3, urlencoded); V::cases("other methods", 50, .32, other); V::cases("limits", 800, .4, limits); V::cases("as a program", 600, .45, asprogram); V::cases("multipart", 8000, .7, multipart); V::cases("truncated", 3000, .85, truncated); V::cases("malformed", 5000, 1, malformed);
  V::count("parameters compared", n_params); V::count("parts compared", n_parts); V::count("uploads compared", n_files); V::count("nested multiparts", n_nested); V::count("truncated bodies", n_trunc); V::count("malformed requests", n_bad); V::count("refused requests", n_refused); V::count("responses compared", n_resp); V::count("program environments", n_env); V::count("requests ended by an exception", n_thrown); return V::finish(); }
