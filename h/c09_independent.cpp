// C09: threads that use the library on objects of their own, all starting with the same part of it at the same
// moment (so that the very first use is concurrent), then mixing; under ThreadSanitizer, and every result is
// compared with the one the same work gives when run alone afterwards.
#include "common.h"
#include "archive_types.h"
#include <complex>
#include <data/digest/md5.h>
#include <data/encoding/base64.h>
#include <data/code/code.h>
#include <data/config_file.h>
#include <data/fenwick_tree.h>
#include <data/intern.h>
#include <data/lru.h>
#include <data/optional.h>
#include <data/serialization.h>
#include <data/sparse_matrix/sparse_matrix.h>
#include <data/string/aho_corasick.h>
#include <data/string/algorithm.h>
#include <data/string/kmp.h>
#include <data/string/ustring.h>
#include <data/string/utility.h>
#include <lang/any.h>
#include <lang/bind.h>
#include <lang/cast.h>
#include <lang/demangle.h>
#include <lang/function.h>
#include <lang/shared_ptr.h>
#include <lang/weak_ptr.h>
#include <lang/singleton.h>
#include <math/fft.h>
#include <math/random.h>
#include <math/ratio.h>
#include <math/vector.h>
#include <network/http.h>
#include <network/ipv4.h>
#include <network/uri.h>
#include <network/cgi.h>
#include <network/cgi/xhtml_cgi.h>
#include <network/cgi/tags.h>
#include <system/mmapper.h>
#include <system/file.h>
#include <system/syscall.h>
#include <system/sysstat.h>
#include <system/time_util.h>
#include <text/csv.h>
#include <text/json.h>
#include <text/xhtml.h>
#include <concurrent/mutex.h>
#include <concurrent/lock.h>
#include <concurrent/rwmutex.h>
#include <concurrent/pcbuf.h>
#include <concurrent/chan.h>
#include <concurrent/mvar.h>
#include <concurrent/qsem.h>
#include <concurrent/condition.h>
#include <concurrent/thread.h>
typedef V::Rng G; typedef std::function<std::string(uint64_t)> Job; using namespace pfi;
static std::vector<std::pair<std::string, Job> > jobs; static std::string dir;
static std::string bytes(G &g, size_t m = 300) { return V::rand_bytes(g, V::rand_len(g, m)); }
static std::string utf(G &g, int n) { std::string s; for (int i = 0; i < n; i++) { switch (g.below(6)) { case 0: s += "\xe3\x81" + std::string(1, (char)(0x81 + g.below(60))); break; case 1: s += "\xef\xbd" + std::string(1, (char)(0xa1 + g.below(30))); break; case 2: s += "\xc3\xa9"; break; case 3: s += "\xef\xbe\x9e"; break; default: s += (char)(32 + g.below(95)); } } return s; }
static text::json::json tree(G &g, int d) { using namespace text::json; switch (g.below(d > 0 ? 7 : 5)) { case 0: return json(new json_integer((int)g.u32())); case 1: return json(new json_float(g.unit() * 1000)); case 2: return json(new json_string(utf(g, g.below(20)))); case 3: return json(new json_bool(g.chance(1, 2))); case 4: return json(new json_null); case 5: { json a(new json_array); for (int i = g.below(5); i > 0; i--) a.add(tree(g, d - 1)); return a; } default: { json o(new json_object); for (int i = g.below(5); i > 0; i--) o[utf(g, g.below(6))] = tree(g, d - 1); return o; } } }
struct Page : network::cgi::xhtml_cgi { std::string t; Page *clone() const { return new Page(*this); } void run() { html__ { head__ title__ text__(t); body__ { attr__("id") = t; p__ { text__(t); } br__; } } } };
struct Form : network::cgi::cgi { std::string seen; void run(std::ostream &o) { for (auto &q : query) seen += q.first + "=" + q.second + ";"; for (auto &f : file) seen += f.first + ":" + f.second + ";"; o << seen; } };
struct Single { int v; std::atomic<int> uses; Single() : v(41), uses(0) { for (int i = 0; i < 1000; i++) v = v * 31 % 997; } };
static void job(const char *n, Job f) { jobs.push_back(std::make_pair(std::string(n), f)); }
static void define() {
  job("md5", [](uint64_t s) { G g(s); std::ostringstream o; for (int i = 0; i < 4; i++) { std::string b = bytes(g, 1000); o << data::digest::md5sum(b); std::istringstream is(b); o << data::digest::md5sum(is); } return o.str(); });
  job("base64", [](uint64_t s) { G g(s); std::string b = bytes(g, 1000), e = data::encoding::base64_encode(b); return e + data::encoding::base64_decode(e); });
  job("codes", [](uint64_t s) { G g(s); data::code::encoder e; std::vector<unsigned> v; for (int i = 0; i < 100; i++) { unsigned x = 1 + (g.u32() >> g.below(31)); v.push_back(x); e.gamma(x); e.delta(x); e.rice(x & 0xffff, 7); e.prefix_code(x & 0xffffff); } std::ostringstream o; std::vector<unsigned char> b = e.get_bytes(); o << std::string(b.begin(), b.end()); b.resize(b.size() + 8); data::code::decoder d; d.attach(&b[0]); for (int i = 0; i < 100; i++) o << d.gamma() << d.delta() << d.rice(7) << d.prefix_code(); return o.str(); });
  job("archives", [](uint64_t s) { G g(s); std::map<std::string, std::vector<int> > m, n; for (int i = g.below(20); i > 0; i--) { std::vector<int> v(g.below(10)); for (auto &x : v) x = g.u32(); m[bytes(g, 20)] = v; } data::unordered_map<std::string, int> u; std::deque<double> d(g.below(9), g.unit()); std::ostringstream o; data::serialization::binary_oarchive oa(o); oa << m << d; std::istringstream is(o.str()); data::serialization::binary_iarchive ia(is); std::deque<double> e; ia >> n >> e; return o.str() + (m == n && d == e ? "same" : "differs"); });
  job("unicode", [](uint64_t s) { using namespace data::string; G g(s); std::string t = utf(g, 60), r; ustring u = string_to_ustring(t); r += ustring_to_string(hankaku_to_zenkaku(u)) + ustring_to_string(zenkaku_latin_to_basic_latin(u)) + ustring_to_string(basic_latin_to_zenkaku_latin(u)) + sanitize_utf8(bytes(g)); std::vector<ustring> w; for (auto c : u) r += data::string::uchar_to_string(c); return r; });
  job("string utilities", [](uint64_t s) { using namespace data::string; G g(s); std::string t = V::rand_text(g, 100, "ab ,"), r; std::vector<std::string> v = split(t, ','); for (auto &x : v) r += strip(x) + "|"; r += replace(t, std::string("a"), std::string("xy")); return r; });
  job("search", [](uint64_t s) { G g(s); std::vector<std::string> w; std::set<std::string> st; for (int i = 0; i < 20; i++) st.insert(V::rand_text(g, 1 + g.below(4), "abc")); w.assign(st.begin(), st.end()); data::string::aho_corasick ac(w); std::vector<std::pair<int, int> > res; std::string t = V::rand_text(g, 200, "abc"); ac.search(t, res); std::ostringstream o; for (auto &x : res) o << x.first << "," << x.second << ";"; data::string::kmp<std::string> k(w[0]); o << k.find(t); return o.str(); });
  job("sequence algorithms", [](uint64_t s) { using namespace data::string; G g(s); std::string a = V::rand_text(g, 40, "abcd"), b = V::rand_text(g, 40, "abcd"); std::ostringstream o; o << edit_distance(a, b) << " " << longest_common_subsequence(a, b) << " " << longest_increasing_subsequence(a); return o.str(); });
  job("containers", [](uint64_t s) { G g(s); data::lru<std::string, int> l(5); data::intern<std::string> in; data::fenwick_tree<int> f(50); data::unordered_map<std::string, int> u; std::ostringstream o; for (int i = 0; i < 100; i++) { std::string k = V::rand_text(g, 1 + g.below(2), "abc"); l.set(k, i); o << l.has(V::rand_text(g, 1, "abc")) << in.key2id(k); f.increase(g.below(50), i); o << f.query(g.below(50)); u[k] += i; o << u[k]; } data::optional<std::string> p(bytes(g)), q = p; o << *q; return o.str(); });
  job("sparse matrix", [](uint64_t s) { G g(s); std::ostringstream f; f << dir << "/m" << std::hash<std::thread::id>()(std::this_thread::get_id()); std::string fn = f.str(); using namespace data::sparse_matrix; std::ostringstream o; { sparse_matrix_writer w; w.open(fn); for (int i = 0; i < 5; i++) { std::map<int, unsigned char> r; for (int k = g.below(6); k > 0; k--) r[g.below(30)] = 1 + g.below(255); w.append_row(r); } w.close(); } { sparse_matrix_reader r; r.open(fn); for (int i = 0; i < r.row_num(); i++) { std::map<int, unsigned char> m; r.get_row(i, m); for (auto &x : m) o << x.first << ":" << (int)x.second << " "; } r.close(); } unlink(fn.c_str()); unlink((fn + ".offset").c_str()); return o.str(); });
  job("config file", [](uint64_t s) { G g(s); std::string t; for (int i = 0; i < 5; i++) t += "[s" + std::to_string(i) + "]\nk = " + std::to_string(g.u32()) + "\n"; std::istringstream is(t); data::config_file c(is); const data::config_file &k = c; return c["s1"]["k"] + k["s2"]["k"] + k["none"]["x"]; });
  job("json", [](uint64_t s) { using namespace text::json; G g(s); json j = tree(g, 4); std::ostringstream o, p; o << j; j.pretty(p, g.chance(1, 2)); std::string r = o.str() + p.str(); json k; std::istringstream is(o.str()); is >> k; std::ostringstream q; q << k; json bad; try { std::istringstream b(o.str().substr(0, o.str().size() / 2) + "}"); b >> bad; } catch (const std::exception &x) { r += x.what(); } return r + q.str(); });
  job("json casts", [](uint64_t s) { using namespace text::json; G g(s); std::map<std::string, std::vector<int> > m; for (int i = 0; i < 4; i++) m[std::to_string(i)] = std::vector<int>(g.below(5), g.u32()); json j = to_json(m); std::ostringstream o; o << j; return o.str() + (json_cast<std::map<std::string, std::vector<int> > >(j) == m ? "same" : "differs"); });
  job("csv", [](uint64_t s) { G g(s); std::string t; for (int i = 0; i < 10; i++) t += V::rand_text(g, g.below(10), "ab") + ",\"" + V::rand_text(g, g.below(10), "a,\n") + "\"\n"; text::csv_parser p(t); std::string r; while (p.next()) for (size_t i = 0; i < p.get().size(); i++) r += std::string(p.get()[i]) + "|"; return r; });
  job("xhtml", [](uint64_t s) { G g(s); Page p; p.t = bytes(g, 60); std::ostringstream o; p.xhtml_cgi::run(o); return o.str(); });
  job("cgi", [](uint64_t s) { G g(s); Form f; std::map<std::string, std::string> e; std::string b = "--b\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\n" + V::rand_text(g, 50, "ab-") + "\r\n--b--\r\n"; e["REQUEST_METHOD"] = "POST"; e["CONTENT_TYPE"] = "multipart/form-data; boundary=b"; e["CONTENT_LENGTH"] = std::to_string(b.size()); std::istringstream is(b); std::ostringstream o, er; f.exec(is, o, er, e); e["REQUEST_METHOD"] = "GET"; e["QUERY_STRING"] = "a=%41&b=" + network::uri_encode(bytes(g, 30)); f.exec(is, o, er, e); return o.str(); });
  job("http head", [](uint64_t s) { G g(s); std::istringstream is("A: " + V::rand_text(g, 20, "abc") + "\r\nB: x\r\n\r\n"); network::http::header h(is); h["c"] = "d"; std::string r; for (auto i = h.begin(); i != h.end(); ++i) r += i->first + i->second; return r; });
  job("uri", [](uint64_t s) { G g(s); std::string t = "http://u" + V::rand_text(g, 4, "ab%20") + "@h" + std::to_string(g.below(99)) + ":80/" + V::rand_text(g, 10, "ab/") + "?q=" + network::uri_encode(bytes(g, 20)) + "#f"; network::uri u(t); std::ostringstream o; o << u << u.host() << u.path() << network::uri_decode(u.query()); return o.str(); });
  job("addresses", [](uint64_t s) { G g(s); network::ipv4_address a(g.below(256), g.below(256), 3, 4), b("1.2.3." + std::to_string(g.below(256))); std::ostringstream o; o << a.to_string() << b.to_string() << (a < b) << network::ipv4_address::loopback.to_string(); return o.str(); });
  job("random", [](uint64_t s) { math::random::mtrand r((uint32_t)s); std::ostringstream o; for (int i = 0; i < 700; i++) o << r.next_int(); o << r.next_gaussian() << r.next_double(); std::vector<int> v; math::random::sample_without_replacement(r, 100, 10, v); for (int x : v) o << x << " "; { math::random::mtrand t; t.next_int(); } return o.str(); });
  job("math", [](uint64_t s) { G g(s); std::vector<std::complex<double> > v(64); for (auto &x : v) x = std::complex<double>(g.unit(), g.unit()); math::fft(v.begin(), v.end()); std::ostringstream o; for (auto &x : v) o << x; math::ratio::ratio<long long> a(g.below(100), 1 + g.below(99)), b(3, 7); o << a + b << a * b; return o.str(); });
  job("time", [](uint64_t s) { G g(s); system::time::clock_time c((time_t)g.below(2000000000), g.below(1000000)); system::time::calendar_time t(c); std::ostringstream o; o << t.year << " " << t.mon << " " << t.mday << " " << t.hour << " " << t.min << " " << t.sec << " " << t.wday << " " << t.yday; system::time::clock_time d(t); o << d.sec; system::time::get_clock_time(); return o.str(); });
  job("files", [](uint64_t s) { G g(s); std::ostringstream f; f << dir << "/f" << std::hash<std::thread::id>()(std::this_thread::get_id()); std::string fn = f.str(), b = "x" + bytes(g); { std::ofstream o(fn.c_str()); o << b; } std::ostringstream o; o << system::file::get_file_size(fn); system::mmapper::mmapper m; if (m.open(fn) >= 0) o << std::string((const char *)m.begin(), m.size()); m.close(); unlink(fn.c_str()); o << system::syscall::get_error_msg(1 + g.below(30)); system::sysstat::sysstat_ret r; system::sysstat::get_sysstat(r); return o.str(); });
  job("lang", [](uint64_t s) { G g(s); std::ostringstream o; lang::any a = std::string(bytes(g)), b = a; o << lang::any_cast<std::string>(b) << lang::lexical_cast<int>(lang::lexical_cast<std::string>((int)g.u32())) << lang::get_typename<std::map<int, std::string> >(); lang::function<int(int)> f = lang::bind([](int x, int y) { return x * y; }, lang::_1, 7), h = f; o << h(g.below(100)); lang::shared_ptr<std::string> p(new std::string(bytes(g))); lang::weak_ptr<std::string> w(p); o << *w.lock(); p.reset(); o << (w.lock() ? 1 : 0); try { lang::lexical_cast<int>(std::string("x")); } catch (const std::bad_cast &) { o << "bad"; } return o.str(); });
  job("own locks", [](uint64_t s) { G g(s); using namespace concurrent; mutex m; rw_mutex r; r_mutex rm; pcbuf<int> q(4); chan<int> c; mvar<int> v(3); std::ostringstream o; for (int i = 0; i < 10; i++) { { scoped_lock l(m); o << (bool)l; } { scoped_rlock l(r); o << (bool)l; } { scoped_wlock l(r); o << (bool)l; } { scoped_lock l(rm); scoped_lock k(rm); o << (bool)k; } q.push(i); int x = 0; q.pop(x); o << x; c.write(i); o << c.read(); o << v.take(); v.put(i); } return o.str(); });
  job("own threads", [](uint64_t s) { int r = 0; concurrent::mvar<int> v; concurrent::thread t([&] { r = (int)(s % 1000); v.put(r + 1); }); t.start(); int got = v.take(); t.join(); return std::to_string(got) + "," + std::to_string(r); });
  job("singleton", [](uint64_t) { Single &x = lang::singleton<Single>::instance(); x.uses++; return std::to_string(x.v); });
}
static std::atomic<uint64_t> n_jobs, n_pairs; static std::string done(const std::string &r) { return r; }
// objects that never change, shared by all threads
struct Shared { data::string::aho_corasick ac; data::config_file cf; lang::shared_ptr<const std::string> sp; text::json::json js; data::intern<std::string> in; network::uri u; lang::function<int(int)> f; data::fenwick_tree<int> ft; std::vector<std::string> words; Shared(std::istream &is) : ac(std::vector<std::string>(1, "ab")), cf(is), sp(new std::string("shared")), u("http://h/p?q"), f([](int x) { return x + 1; }), ft(10) { for (int i = 0; i < 10; i++) { in.key2id(std::to_string(i)); ft.increase(i, i); } std::istringstream j("{\"a\":[1,2,{\"b\":\"c\"}]}"); j >> js; } };
static std::string use(const Shared &s, uint64_t seed) { G g(seed); std::ostringstream o; std::vector<std::pair<int, int> > r; s.ac.search("abxabab", r); o << r.size() << s.cf["x"]["y"] << s.cf["no"]["no"]; { lang::shared_ptr<const std::string> p = s.sp, q = p; o << *q; lang::weak_ptr<const std::string> w(q); o << *w.lock(); } const text::json::json j = s.js; text::json::json c = j["a"][2]["b"]; o << text::json::json_cast<std::string>(c) << j << s.in.key2id_nogen(std::to_string(g.below(12))) << s.in.id2key(3) << s.u << s.u.path() << s.f(g.below(9)); return o.str(); }
static void round_(G &g, int nthreads, const std::vector<std::vector<std::pair<int, uint64_t> > > &plan, std::vector<std::vector<std::string> > &out) { std::atomic<int> ready(0); std::atomic<bool> go(false); std::vector<std::thread> ts; out.assign(nthreads, std::vector<std::string>()); for (int t = 0; t < nthreads; t++) ts.push_back(std::thread([&, t] { ready++; while (!go) ; for (auto &p : plan[t]) { out[t].push_back(done(jobs[p.first].second(p.second))); n_jobs++; V::tick(); } })); while (ready < nthreads) std::this_thread::yield(); go = true; for (auto &t : ts) t.join(); (void)g; }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("threads running work on objects of their own in every part of the library, all beginning with the same part at the same moment, then mixed, and threads reading shared immutable objects; under ThreadSanitizer, results compared with the same work run alone; distinct = distinct (part, input) pairs"); dir = getenv("VH_SCRATCH") ? getenv("VH_SCRATCH") : "."; define(); G g(V::S().seed);
  std::vector<int> order; for (size_t i = 0; i < jobs.size(); i++) order.push_back(i); g.shuffle(order); std::vector<std::pair<std::pair<int, uint64_t>, std::string> > later; int nt = 6;
  // the first use of each part in this process is concurrent
  for (int j : order) { std::vector<std::vector<std::pair<int, uint64_t> > > plan(nt); std::vector<std::vector<std::string> > out; for (auto &p : plan) for (int k = 0; k < 3; k++) p.push_back(std::make_pair(j, g.u64())); V::cur("first use of " + jobs[j].first + " by all threads"); round_(g, nt, plan, out); for (int t = 0; t < nt; t++) for (size_t k = 0; k < out[t].size(); k++) later.push_back(std::make_pair(plan[t][k], out[t][k])); V::eval(); }
  std::istringstream ct("[x]\ny = z\n"); Shared sh(ct);
  auto settle = [&] { for (auto &l : later) { V::cur("alone: " + jobs[l.first.first].first); std::string r = jobs[l.first.first].second(l.first.second); VCHECK(r == l.second, jobs[l.first.first].first << " gave " << V::quote(l.second) << " beside other threads, " << V::quote(r) << " alone (input seed " << l.first.second << ")"); n_pairs++; V::eval(); V::nontrivial(l.first.second ^ l.first.first); } later.clear(); };
  settle(); for (int i = 0; i < 3; i++) V::sample("first use of " + jobs[order[i]].first + " by " + std::to_string(nt) + " threads");
  V::cases("mixed", 100000, .75, [&](G &g, uint64_t) { int n = 2 + g.below(7); std::vector<std::vector<std::pair<int, uint64_t> > > plan(n); std::vector<std::vector<std::string> > out; bool same = g.chance(1, 3); int one = g.below(jobs.size()); for (auto &p : plan) { int m = 1 + g.below(12); for (int k = 0; k < m; k++) p.push_back(std::make_pair(same ? one : (int)g.below(jobs.size()), g.u64())); } V::cur(same ? "all threads: " + jobs[one].first : "mixed work"); round_(g, n, plan, out); for (int t = 0; t < n; t++) for (size_t k = 0; k < out[t].size(); k++) later.push_back(std::make_pair(plan[t][k], out[t][k])); settle(); });
  V::cases("shared immutable objects", 100000, 1, [&](G &g, uint64_t) { int n = 2 + g.below(7); std::vector<std::thread> ts; std::vector<std::string> out(n); std::vector<uint64_t> seed(n); for (auto &s : seed) s = g.u64(); V::cur("shared immutable objects"); for (int t = 0; t < n; t++) ts.push_back(std::thread([&, t] { for (int k = 0; k < 20; k++) out[t] += use(sh, seed[t] + k); V::tick(); })); for (auto &t : ts) t.join(); for (int t = 0; t < n; t++) { std::string w; for (int k = 0; k < 20; k++) w += use(sh, seed[t] + k); VCHECK(w == out[t], "reading a shared immutable object beside other threads gave " << V::quote(out[t]) << ", alone " << V::quote(w)); } });
  V::count("parts of the library", jobs.size()); V::count("pieces of work run beside other threads", n_jobs); V::count("results compared with a run alone", n_pairs); return V::finish(); }
