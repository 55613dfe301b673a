// C50: values bound to and fetched from statements of both connectors, against what was stored.
#include "fakedb.h"
#include <tuple>
#include <iomanip>
#include <database/mysql/connection.h>
#include <database/postgresql/connection.h>
using namespace pfi::database; typedef pfi::lang::shared_ptr<sql_value> SV; typedef pfi::lang::shared_ptr<statement> ST; typedef pfi::lang::shared_ptr<connection> CN;
static uint64_t n_vals, n_null, n_typed, n_inter, n_wrong, n_big, n_conv; static int next_table = 1;
static bool PGSQL;
static CN open_() { return CN(PGSQL ? postgresql::connect("host=x") : mysql::connect("h", 1, "d", "u", "p")); }
static ST prep(CN &c, const std::string &q) { D::submitted->insert(q); return ST(c->prepare(q)); }
// a value of the harness's own: n, b, i(int32), l(int64), d, s, t, u (text of another type)
struct W { char k; int64_t i; double d; std::string s; uint64_t sec; int usec; bool f4; W() : k('n'), i(0), d(0), sec(0), usec(0), f4(false) {} };
static std::string show(const W &w) { std::ostringstream o; o << w.k << ":"; if (w.k == 's' || w.k == 'u') o << V::quote(w.s, 100); else if (w.k == 'd') o << std::setprecision(17) << w.d; else if (w.k == 't') o << w.sec << "." << w.usec; else o << w.i; return o.str(); }
static SV sql(const W &w) { switch (w.k) { case 'b': return to_sql(w.i != 0); case 'i': return to_sql((int32_t)w.i); case 'l': return to_sql((int64_t)w.i); case 'd': return to_sql(w.d); case 's': return to_sql(w.s); case 'u': return SV(new sql_unknown(w.s)); case 't': return to_sql(D::clock_time(w.sec, w.usec)); } return SV(); }
static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
static void is(const SV &v, const W &w, const std::string &how) { n_vals++; V::eval(); if (w.k == 'n') { n_null++; VCHECK(!v, "NULL came back as a value: " << how); return; } VCHECK(v, show(w) << " came back as NULL: " << how); switch (w.k) { case 'b': if (PGSQL) { auto p = dynamic_cast<sql_bool *>(v.get()); VCHECK(p && p->get() == (w.i != 0), "bool " << how); } else VEQ(from_sql<int64_t>(v), w.i, "bool " << how); break; case 'i': case 'l': VEQ(from_sql<int64_t>(v), w.i, "integer " << how); if (w.i == (int32_t)w.i) VEQ(from_sql<int32_t>(v), (int32_t)w.i, "integer " << how); else { try { int32_t x = from_sql<int32_t>(v); VFAIL(w.i << " was fetched as the int32 " << x); } catch (const database_error &) { n_conv++; } } break; case 'd': VCHECK(w.f4 ? (float)from_sql<double>(v) == (float)w.d : same(from_sql<double>(v), w.d), "double " << std::setprecision(17) << from_sql<double>(v) << " stored " << w.d << " " << how); break; case 's': case 'u': VCHECK(from_sql<std::string>(v) == w.s, "string " << V::quote(from_sql<std::string>(v)) << " stored " << V::quote(w.s) << " " << how); break; case 't': { auto c = from_sql<D::clock_time>(v); VCHECK(c.sec == w.sec && c.usec == w.usec, "timestamp " << c.sec << "." << c.usec << " stored " << w.sec << "." << w.usec << " " << how); auto k = from_sql<D::calendar_time>(v); VEQ(k.usec, w.usec, "calendar"); } }
  // never a value of another kind
  char k = w.k == 'l' ? 'i' : w.k == 'u' ? 's' : w.k == 'b' && !PGSQL ? 'i' : w.k; int threw = 0, tried = 0; auto no = [&](char t, std::function<void()> f) { if (t == k) return; tried++; try { f(); } catch (const database_error &) { threw++; } }; no('b', [&] { from_sql<bool>(v); }); no('s', [&] { from_sql<std::string>(v); }); no('i', [&] { from_sql<int32_t>(v); }); no('i', [&] { from_sql<int64_t>(v); }); no('d', [&] { from_sql<double>(v); }); no('t', [&] { from_sql<D::clock_time>(v); }); VCHECK(threw == tried, "a value of kind " << w.k << " was converted to another type: " << how); n_wrong += threw; }
static double rdouble(V::Rng &g) { switch (g.below(7)) { case 0: return (double)(int)g.u32() / 100; case 1: { static const double v[] = {0., -0., 1., -1., 1e308, -1e308, 1e-308, 5e-324, 1e-20, 0.1, 1. / 3, 123456789.123456789, 1e15, 1e17, 9007199254740993., 2.2250738585072014e-308, 1.7976931348623157e308}; return v[g.below(17)]; } case 2: return g.below(1000); default: { uint64_t b = g.u64(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 2.5; } } }
static int64_t rint64(V::Rng &g, int bits) { int64_t v; switch (g.below(5)) { case 0: v = (int64_t)g.below(20) - 10; break; case 1: { static const int64_t b[] = {INT64_MIN, INT32_MIN, INT32_MAX, INT32_MIN - 1LL, INT32_MAX + 1LL, UINT32_MAX, INT64_MIN + 1, -1}; v = bits == 64 ? b[g.below(8)] : INT64_MIN; break; } case 2: v = INT64_MAX; break; default: v = (int64_t)g.u64() >> g.below(63); } if (bits < 64) { v >>= 64 - bits - (g.chance(1, 3) ? g.below(3) ? 0 : 0 : 0); } return v; }
static std::string rstr(V::Rng &g) { std::string s = V::rand_bytes(g, g.chance(1, 12) ? 16000 + g.below(1200) : g.chance(1, 12) ? V::rand_len(g, 100000) : V::rand_len(g, 60)); if (s.size() >= 16384) n_big++; if (PGSQL) for (auto &c : s) if (!c) c = '?'; if (g.chance(1, 8)) s += "'\"\\?$1 %"; return s; }
static W value(V::Rng &g, const D::Col &c) { W w; if (g.chance(1, 7)) return w; int t = PGSQL ? c.pg : c.my; if (PGSQL) switch (t) { case 16: w.k = 'b'; w.i = g.below(2); break; case 20: w.k = 'l'; w.i = rint64(g, 64); break; case 21: w.k = 'i'; w.i = rint64(g, 16); break; case 23: w.k = 'i'; w.i = rint64(g, 32); break; case 700: w.k = 'd'; w.f4 = true; w.d = (float)((int)g.u32() / 64.); break; case 701: w.k = 'd'; w.d = g.chance(1, 15) ? NAN : g.chance(1, 15) ? INFINITY : g.chance(1, 15) ? -INFINITY : rdouble(g); break; case 1114: w.k = 't'; break; case 25: case 1043: w.k = 's'; w.s = rstr(g); break; default: w.k = g.chance(1, 2) ? 'u' : 's'; w.s = rstr(g); w.k = 'u'; }
  else switch (t) { case MYSQL_TYPE_TINY: w.k = 'i'; w.i = c.uns ? g.below(256) : rint64(g, 8); break; case MYSQL_TYPE_SHORT: w.k = 'i'; w.i = c.uns ? g.below(65536) : rint64(g, 16); break; case MYSQL_TYPE_LONG: w.k = 'l'; w.i = c.uns ? (int64_t)g.u32() : rint64(g, 32); break; case MYSQL_TYPE_LONGLONG: w.k = 'l'; w.i = c.uns ? (int64_t)(g.u64() >> 1) : rint64(g, 64); break; case MYSQL_TYPE_FLOAT: w.k = 'd'; w.d = (float)((int)g.u32() / 64.); break; case MYSQL_TYPE_DOUBLE: w.k = 'd'; w.d = rdouble(g); break; case MYSQL_TYPE_DATETIME: case MYSQL_TYPE_TIMESTAMP: w.k = 't'; break; default: w.k = 's'; w.s = rstr(g); }
  if (w.k == 'i' && g.chance(1, 2)) w.k = 'l'; if (w.k == 'l' && w.i == (int32_t)w.i && g.chance(1, 2)) w.k = 'i';
  if (w.k == 't') { w.sec = g.chance(1, 3) ? g.below(2000000000) : g.chance(1, 6) ? g.below(100) : g.u64() % 253402000000ULL; switch (g.below(5)) { case 0: w.usec = 0; break; case 1: w.usec = 100000 * g.below(10); break; case 2: w.usec = g.below(100); break; case 3: w.usec = 1000 * g.below(1000); break; default: w.usec = g.below(1000000); } } return w; }
static D::Col col(V::Rng &g) { static const int pg[] = {16, 20, 21, 23, 25, 700, 701, 1043, 1114, 1042, 19}; static const int my[] = {MYSQL_TYPE_TINY, MYSQL_TYPE_SHORT, MYSQL_TYPE_LONG, MYSQL_TYPE_LONGLONG, MYSQL_TYPE_FLOAT, MYSQL_TYPE_DOUBLE, MYSQL_TYPE_STRING, MYSQL_TYPE_VAR_STRING, MYSQL_TYPE_BLOB, MYSQL_TYPE_DATETIME, MYSQL_TYPE_TIMESTAMP}; D::Col c; c.pg = pg[g.below(11)]; int m = g.below(11); c.my = my[m]; c.uns = m < 4 && g.chance(1, 2); return c; }
static int table(const std::vector<D::Col> &c) { int id = next_table++; D::Table t; t.cols = c; (*D::tables)[id] = t; return id; }
static std::string noise(V::Rng &g) { static const char *n[] = {"", " -- 'x?y'", " \"c?d\"", " 'it''s ? ok'", " ''", " \"a'?b\" 'c\"?d'"}; return n[g.below(6)]; }
static std::string insert_(V::Rng &g, int id, size_t n) { std::string q = "insert into t" + std::to_string(id) + noise(g) + " values ("; for (size_t i = 0; i < n; i++) { if (i) q += ","; if (g.chance(1, 6)) q += "'?'||"; q += "?"; } return q + ")" + noise(g); }
struct Tab { int id; std::vector<D::Col> cols; std::vector<std::vector<W> > rows; };
static Tab newtab(V::Rng &g, size_t most) { Tab t; size_t n = 1 + g.below(most); for (size_t i = 0; i < n; i++) t.cols.push_back(col(g)); t.id = table(t.cols); return t; }
static std::ostringstream *console = new std::ostringstream;
static void leaks(const std::string &how) { VCHECK(console->str().empty(), "the connector wrote to standard output: " << V::quote(console->str(), 60)); VCHECK(D::handles->empty(), D::handles->size() << " client library handles were never released: " << how); D::tables->clear(); D::submitted->clear(); for (const char *s : {"BEGIN", "COMMIT", "ROLLBACK"}) D::submitted->insert(s); }
static void vec(const std::vector<W> &r, std::vector<SV> &a) { a.clear(); for (auto &w : r) a.push_back(sql(w)); }
static void check_rows(ST &s, const Tab &t, size_t from, size_t n, const std::string &how) { std::vector<SV> row; if (from == 0) row.resize(3); for (size_t i = from; i < from + n; i++) { VCHECK(s->fetch_row(row), "row " << i << " of " << t.rows.size() << " is missing: " << how); VEQ(row.size(), t.cols.size(), "columns"); for (size_t j = 0; j < row.size(); j++) is(row[j], t.rows[i][j], how + " column type " + std::to_string(PGSQL ? t.cols[j].pg : t.cols[j].my)); } }
static void roundtrip(V::Rng &g, uint64_t idx) { PGSQL = g.chance(1, 2); setenv("TZ", g.chance(1, 2) ? "UTC" : "JST-9", 1); tzset(); std::string how = PGSQL ? "PostgreSQL" : "MySQL"; V::cur(how); { CN c = open_(); int nt = 1 + g.below(3); std::vector<Tab> ts; std::vector<ST> ins; std::vector<std::string> qs; uint64_t h = idx; for (int i = 0; i < nt; i++) { ts.push_back(newtab(g, 12)); qs.push_back(insert_(g, ts[i].id, ts[i].cols.size())); ins.push_back(prep(c, qs[i])); }
    int n = g.below(12); std::vector<SV> a; for (int k = 0; k < n; k++) { int i = g.below(nt); std::vector<W> r; for (auto &cc : ts[i].cols) r.push_back(value(g, cc)); vec(r, a); std::string what = how; for (auto &w : r) what += " " + show(w); V::cur(what); if (g.chance(1, 4)) { D::submitted->insert(qs[i]); c->run(qs[i], a); } else ins[i]->execute(a); ts[i].rows.push_back(r); if (g.chance(1, 8)) { std::vector<SV> b = a; if (g.chance(1, 2)) b.push_back(to_sql(1)); else b.pop_back(); try { ins[i]->execute(b); VFAIL("a statement of " << a.size() << " parameters was executed with " << b.size()); } catch (const database_error &) {} } h = V::mix64(h ^ V::hash_str(what)); if (idx < 2 && k == 0) V::sample(what); }
    // interleaved cursors (results of PostgreSQL are held by the client)
    for (int i = 0; i < nt; i++) { std::string q = "select * from t" + std::to_string(ts[i].id) + " where x <> '?'"; if (PGSQL && g.chance(1, 2)) { ST s1 = prep(c, q), s2 = prep(c, q); s1->execute(); size_t half = ts[i].rows.size() ? g.below(ts[i].rows.size() + 1) : 0; check_rows(s1, ts[i], 0, half, "first cursor"); s2->execute(); check_rows(s2, ts[i], 0, ts[i].rows.size(), "second cursor"); check_rows(s1, ts[i], half, ts[i].rows.size() - half, "first cursor"); std::vector<SV> r; VCHECK(!s1->fetch_row(r) && !s2->fetch_row(r), "more rows than were stored"); n_inter++; continue; } ST s = prep(c, q); for (int rep = 1 + g.below(2); rep > 0; rep--) { s->execute(); check_rows(s, ts[i], 0, ts[i].rows.size(), how); std::vector<SV> r; VCHECK(!s->fetch_row(r), "more rows than were stored"); } if (g.chance(1, 3)) { ST l = prep(c, "select * from t" + std::to_string(ts[i].id) + " limit ?"); int k = g.below(6); l->execute(k); check_rows(l, ts[i], 0, std::min<size_t>(k, ts[i].rows.size()), "limit"); std::vector<SV> r; VCHECK(!l->fetch_row(r), "more rows than the limit"); } }
    V::nontrivial(h); } leaks(how); }
// values that were stored by somebody else
static void foreign(V::Rng &g, uint64_t idx) { PGSQL = g.chance(1, 2); setenv("TZ", g.chance(1, 2) ? "UTC" : "JST-9", 1); tzset(); { CN c = open_(); Tab t = newtab(g, 9); int n = 1 + g.below(8); for (int k = 0; k < n; k++) { std::vector<W> r; D::Row d; for (auto &cc : t.cols) { W w = value(g, cc); D::Val v; switch (w.k) { case 'b': v.k = 'b'; v.i = w.i; break; case 'i': case 'l': v.k = 'i'; v.i = w.i; break; case 'd': v.k = PGSQL && cc.pg == 700 ? 'f' : 'd'; v.d = w.d; break; case 's': case 'u': v.k = 's'; v.s = w.s; break; case 't': { v.k = 't'; time_t tt = w.sec; tm m; localtime_r(&tt, &m); int f[7] = {m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec, w.usec}; memcpy(v.t, f, sizeof f); } } r.push_back(w); d.push_back(v); } t.rows.push_back(r); (*D::tables)[t.id].rows.push_back(d); } V::cur("foreign rows"); ST s = prep(c, "select * from t" + std::to_string(t.id)); s->execute(); check_rows(s, t, 0, t.rows.size(), PGSQL ? "PostgreSQL" : "MySQL"); std::vector<SV> r; VCHECK(!s->fetch_row(r), "more rows");
    if (!PGSQL) { // an unsigned number no int64 can hold
      D::Col cc = {MYSQL_TYPE_LONGLONG, true, 20}; int id = table(std::vector<D::Col>(1, cc)); D::Val v; v.k = 'i'; v.i = (int64_t)(g.u64() | 1ULL << 63); (*D::tables)[id].rows.push_back(D::Row(1, v)); ST u = prep(c, "select * from t" + std::to_string(id)); u->execute(); try { int64_t x; if (u->fetch_row(x)) VFAIL((uint64_t)v.i << " was fetched as " << x); } catch (const database_error &) { n_conv++; } } V::nontrivial(idx * 31 + t.id); } leaks("foreign"); }
// the typed interface, one to ten values of every type
template <int K> struct Ty; template <> struct Ty<0> { typedef std::string T; static T make(V::Rng &g) { return rstr(g); } static bool eq(const T &a, const T &b) { return a == b; } }; template <> struct Ty<1> { typedef int32_t T; static T make(V::Rng &g) { return (int32_t)rint64(g, 32); } static bool eq(T a, T b) { return a == b; } }; template <> struct Ty<2> { typedef int64_t T; static T make(V::Rng &g) { return rint64(g, 64); } static bool eq(T a, T b) { return a == b; } }; template <> struct Ty<3> { typedef double T; static T make(V::Rng &g) { return rdouble(g); } static bool eq(T a, T b) { return same(a, b); } }; template <> struct Ty<4> { typedef D::clock_time T; static T make(V::Rng &g) { return T(g.u64() % 253402000000ULL, g.chance(1, 3) ? 0 : g.below(1000000)); } static bool eq(const T &a, const T &b) { return a.sec == b.sec && a.usec == b.usec; } };
static const D::Col tycol[5] = {{MYSQL_TYPE_BLOB, false, 25}, {MYSQL_TYPE_LONG, false, 23}, {MYSQL_TYPE_LONGLONG, false, 20}, {MYSQL_TYPE_DOUBLE, false, 701}, {MYSQL_TYPE_DATETIME, false, 1114}};
template <int O, size_t... I> static void typed_(V::Rng &g, std::index_sequence<I...>) { auto in = std::make_tuple(Ty<(O + I) % 5>::make(g)...); auto out = std::make_tuple(Ty<(O + I) % 5>::make(g)...); auto out2 = out; std::vector<D::Col> cs = {tycol[(O + I) % 5]...}; V::cur("typed interface, " + std::to_string(cs.size()) + " values"); { CN c = open_(); int id = table(cs); std::string q = insert_(g, id, cs.size()); ST s = prep(c, q); s->execute(std::get<I>(in)...); c->run(q, std::get<I>(in)...); ST f = prep(c, "select * from t" + std::to_string(id)); f->execute(); VCHECK(f->fetch_row(std::get<I>(out)...), "row is missing"); VCHECK(f->fetch_row(std::get<I>(out2)...), "row is missing"); bool ok[] = {Ty<(O + I) % 5>::eq(std::get<I>(in), std::get<I>(out))...}, ok2[] = {Ty<(O + I) % 5>::eq(std::get<I>(in), std::get<I>(out2))...}; for (size_t i = 0; i < cs.size(); i++) { VCHECK(ok[i] && ok2[i], "value " << i + 1 << " of " << cs.size() << " differs from the one given"); n_typed++; } VCHECK(!f->fetch_row(std::get<I>(out)...), "more rows"); 
    // a row of another width
    std::vector<SV> vals = {to_sql(std::get<I>(in))...}; for (int wide = 0; wide < 2; wide++) { std::vector<D::Col> cw = cs; std::vector<SV> a = vals; if (wide) { cw.push_back(tycol[1]); a.push_back(to_sql((int32_t)7)); } else { cw.pop_back(); a.pop_back(); } if (cw.empty()) continue; int id2 = table(cw); prep(c, insert_(g, id2, cw.size()))->execute(a); ST w = prep(c, "select * from t" + std::to_string(id2)); w->execute(); bool threw = false; try { w->fetch_row(std::get<I>(out)...); } catch (const database_error &) { threw = true; } VCHECK(threw, "a row of " << cw.size() << " columns was fetched into " << cs.size() << " values"); } V::eval(); V::nontrivial(V::hash_str(q) + id); } leaks("typed"); }
template <int O> static void typedO(V::Rng &g, int n) { switch (n) { case 1: typed_<O>(g, std::make_index_sequence<1>()); break; case 2: typed_<O>(g, std::make_index_sequence<2>()); break; case 3: typed_<O>(g, std::make_index_sequence<3>()); break; case 4: typed_<O>(g, std::make_index_sequence<4>()); break; case 5: typed_<O>(g, std::make_index_sequence<5>()); break; case 6: typed_<O>(g, std::make_index_sequence<6>()); break; case 7: typed_<O>(g, std::make_index_sequence<7>()); break; case 8: typed_<O>(g, std::make_index_sequence<8>()); break; case 9: typed_<O>(g, std::make_index_sequence<9>()); break; default: typed_<O>(g, std::make_index_sequence<10>()); } }
static void typed(V::Rng &g, uint64_t i) { PGSQL = i & 1; setenv("TZ", "UTC", 1); tzset(); int n = 1 + i / 2 % 10; switch (i / 20 % 5) { case 0: typedO<0>(g, n); break; case 1: typedO<1>(g, n); break; case 2: typedO<2>(g, n); break; case 3: typedO<3>(g, n); break; default: typedO<4>(g, n); } }
static void manyrows(V::Rng &g, uint64_t i) { PGSQL = i & 1; size_t n = 65536 + g.below(300); V::cur("a result of " + std::to_string(n) + " rows"); { CN c = open_(); int id = table(std::vector<D::Col>(1, tycol[2])); for (size_t k = 0; k < n; k++) { D::Val v; v.k = 'i'; v.i = k; (*D::tables)[id].rows.push_back(D::Row(1, v)); } ST s = prep(c, "select * from t" + std::to_string(id)); s->execute(); int64_t x = 0; for (size_t k = 0; k < n; k++) { VCHECK(s->fetch_row(x), "row " << k << " of " << n << " is missing"); VEQ(x, (int64_t)k, "row " << k << " of " << n); } VCHECK(!s->fetch_row(x), "more rows than were stored"); } leaks("many rows"); SV none; VEQ(from_sql<std::string>(none), std::string(), "NULL fetched as a string"); auto refuses = [&](std::function<void()> f) { try { f(); } catch (const database_error &) { return true; } return false; }; VCHECK(refuses([&] { from_sql<int32_t>(none); }) && refuses([&] { from_sql<int64_t>(none); }) && refuses([&] { from_sql<double>(none); }) && refuses([&] { from_sql<bool>(none); }) && refuses([&] { from_sql<D::clock_time>(none); }), "NULL was fetched as a number or a time"); }
// what a connection is opened with
static std::string pgvalue(const std::string &s, const std::string &key) { std::string out, k; size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == ' ') i++; k.clear(); while (i < s.size() && s[i] != '=') k += s[i++]; i++; std::string v; if (i < s.size() && s[i] == '\'') { i++; while (i < s.size() && s[i] != '\'') { if (s[i] == '\\') i++; if (i < s.size()) v += s[i++]; } i++; } else while (i < s.size() && s[i] != ' ') { if (s[i] == '\\') i++; if (i < s.size()) v += s[i++]; } if (k == key) out = v; } return out; }
static void opening(V::Rng &g, uint64_t i) { std::string v[4]; for (auto &s : v) s = g.chance(1, 2) ? V::rand_text(g, V::rand_len(g, 12), "ab1 '\\=\"") : V::rand_text(g, g.below(10), "abc.xyz"); uint16_t port = g.u32(); V::cur("connect " + V::quote(v[0]) + " " + V::quote(v[3])); { CN c(postgresql::connect(v[0], port, v[1], v[2], v[3])); const char *k[] = {"host", "dbname", "user", "password"}; for (int j = 0; j < 4; j++) VCHECK(pgvalue(D::last_conninfo, k[j]) == v[j], k[j] << " " << V::quote(v[j]) << " is sent as " << V::quote(D::last_conninfo)); VEQ(pgvalue(D::last_conninfo, "port"), std::to_string(port), "port"); CN m(mysql::connect(v[0], port, v[1], v[2], v[3])); std::vector<std::string> w = {v[0], v[2], v[3], v[1], std::to_string(port)}; VCHECK(*D::last_my == w, "MySQL connection parameters"); } leaks("opening"); V::nontrivial(i + V::hash_str(v[3])); }
int main(int argc, char **argv) { V::init(argc, argv); std::cout.rdbuf(console->rdbuf()); leaks("start"); V::rule("tables of random column types in a server model behind the client libraries' functions; rows of random and extreme values are stored through the connectors or by others and fetched back, with several statements alive; distinct = distinct rows and statements"); V::cases("many rows", 2, 9, manyrows); V::cases("typed interface", 2000, .3, typed); V::cases("round trips", 6000, .7, roundtrip); V::cases("rows stored by others", 4000, .93, foreign); V::cases("connection parameters", 500, 1, opening);
  V::count("values compared", n_vals); V::count("NULLs compared", n_null); V::count("typed values compared", n_typed); V::count("interleaved cursors", n_inter); V::count("strings over the initial buffer", n_big); V::count("conversions refused", n_wrong + n_conv); V::count("client library calls checked", D::n_calls); V::count("statements prepared", D::n_prepared); V::count("statements executed", D::n_executed); V::count("truncated fetches", D::n_trunc); V::count("handles tracked", D::n_handles); return V::finish(); }
