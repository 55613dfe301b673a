// The database boundary of the monitors: this file defines the functions of the MySQL and PostgreSQL client libraries
// that the connectors call, over a small server model (tables, sessions, transactions). It keeps the ledger of handles
// (a handle released twice, used after release or never released is a violation), checks the calls against the
// libraries' documented contracts, and can fail any call or lose the session.
#ifndef VERIF_FAKEDB_H
#define VERIF_FAKEDB_H
#include "common.h"
#include <mysql.h>
#include <errmsg.h>
#include <libpq-fe.h>
#include <cmath>
#include <database/database.h>
namespace D {
using pfi::system::time::clock_time; using pfi::system::time::calendar_time;
// a value as the server keeps it: n null, b bool, i integer, d double, f float, s string, t timestamp (calendar fields)
struct Val { char k; int64_t i; bool uns; double d; std::string s; int t[7]; Val() : k('n'), i(0), uns(false), d(0) { memset(t, 0, sizeof t); } };
struct Col { int my; bool uns; int pg; };
typedef std::vector<Val> Row;
struct Table { std::vector<Col> cols; std::vector<Row> rows; };
struct Session { bool tx, dead; std::vector<std::pair<int, Row> > pending; Session(); ~Session(); };
static std::set<Session *> *sessions = new std::set<Session *>;
inline Session::Session() : tx(false), dead(false) { sessions->insert(this); }
inline Session::~Session() { sessions->erase(this); }
static std::map<int, Table> *tables = new std::map<int, Table>;
static std::set<std::string> *submitted = new std::set<std::string>; // the statement texts given to prepare/run
static std::set<const void *> *handles = new std::set<const void *>;
static long fail_in = -1; static int fail_kind = 0; // 0 error, 1 session lost, 2 (PG) no result object
static bool refuse_connect = false; static std::string fault_site, last_conninfo; static std::vector<std::string> *last_my = new std::vector<std::string>;
static uint64_t n_lost, n_calls, n_faults, n_prepared, n_executed, n_rows, n_trunc, n_handles, n_sessions;
inline void hold(const void *p) { handles->insert(p); n_handles++; }
inline void must(const void *p, const char *what) { n_calls++; if (!handles->count(p)) V::fail(std::string(what) + " was given a handle that is not live"); }
inline void drop(const void *p, const char *what) { must(p, what); handles->erase(p); }
inline bool fault(const char *site) { if (fail_in < 0) return false; if (fail_in-- > 0) return false; fail_in = -1; n_faults++; fault_site = site; return true; }
inline std::string upper(std::string s) { for (auto &c : s) c = toupper(c); return s; }
// statement text: number of parameters outside quotes
inline int params(const std::string &q, char mark, std::string *plain, bool *bad) { int n = 0; char quote = 0; std::string o; for (size_t i = 0; i < q.size(); i++) { char c = q[i]; if (quote) { if (c == quote) quote = 0; o += c; continue; } if (c == '\'' || c == '"') { quote = c; o += c; continue; } if (c == mark && mark == '?') { n++; o += '?'; continue; } if (c == mark && i + 1 < q.size() && isdigit((unsigned char)q[i + 1])) { int k = atoi(q.c_str() + i + 1); if (k != n + 1 && bad) *bad = true; n++; while (i + 1 < q.size() && isdigit((unsigned char)q[i + 1])) i++; o += '?'; continue; } o += c; } if (plain) *plain = o; return n; }
// runs a statement; returns false and a message on errors; *res = table of the rows of a select
struct Result { bool tuples; std::vector<Col> cols; std::vector<Row> rows; Result() : tuples(false) {} };
inline bool run(Session &s, const std::string &q, const Row &args, Result &r, std::string &err) { n_executed++; if (q == "BEGIN") { s.tx = true; s.pending.clear(); return true; } if (q == "COMMIT") { for (auto &p : s.pending) (*tables)[p.first].rows.push_back(p.second); s.pending.clear(); s.tx = false; return true; } if (q == "ROLLBACK") { s.pending.clear(); s.tx = false; return true; }
  if (q.compare(0, 13, "insert into t") == 0) { int id = atoi(q.c_str() + 13); if (!tables->count(id)) { err = "no table"; return false; } Table &t = (*tables)[id]; if (args.size() != t.cols.size()) { err = "wrong number of values"; return false; } if (s.tx) s.pending.push_back(std::make_pair(id, args)); else t.rows.push_back(args); return true; }
  if (q.compare(0, 15, "select * from t") == 0) { int id = atoi(q.c_str() + 15); if (!tables->count(id)) { err = "no table"; return false; } Table &t = (*tables)[id]; r.tuples = true; r.cols = t.cols; r.rows = t.rows; for (auto &p : s.pending) if (p.first == id) r.rows.push_back(p.second); if (!args.empty() && (size_t)args[0].i < r.rows.size()) r.rows.resize(args[0].i); return true; }
  err = "syntax error"; return false; }
// ---- PostgreSQL
struct PC { Session *s; ConnStatusType st; std::map<std::string, std::string> prep; };
struct PR { ExecStatusType st; std::string err; Result r; std::vector<std::vector<std::string> > text; };
inline std::string pgtext(const Val &v, int pg) { char b[128]; switch (v.k) { case 'b': return v.i ? "t" : "f"; case 'i': return std::to_string((long long)v.i); case 'f': case 'd': if (std::isnan(v.d)) return "NaN"; if (std::isinf(v.d)) return v.d > 0 ? "Infinity" : "-Infinity"; for (int p = v.k == 'f' ? 6 : 15; p <= 17; p++) { snprintf(b, sizeof b, "%.*g", p, v.d); if (v.k == 'f' ? strtof(b, 0) == (float)v.d : strtod(b, 0) == v.d) break; } return b; case 't': { snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", v.t[0], v.t[1], v.t[2], v.t[3], v.t[4], v.t[5]); std::string s = b; if (v.t[6]) { snprintf(b, sizeof b, ".%06d", v.t[6]); s += b; while (s[s.size() - 1] == '0') s.resize(s.size() - 1); } return s; } default: return v.s; } }
inline bool pgparse(const char *p, int pg, Val &v) { char *e; errno = 0; switch (pg) { case 16: { std::string s = p; v.k = 'b'; v.i = s == "true" || s == "t"; return s == "true" || s == "false" || s == "t" || s == "f"; } case 20: case 21: case 23: { v.k = 'i'; v.i = strtoll(p, &e, 10); if (!*p || *e || errno) return false; return pg == 20 || (pg == 23 ? v.i == (int32_t)v.i : v.i == (int16_t)v.i); } case 700: case 701: v.k = pg == 700 ? 'f' : 'd'; v.d = strtod(p, &e); if (pg == 700) v.d = (float)v.d; return *p && !*e; case 1114: { v.k = 't'; int n = 0; if (sscanf(p, "%d-%d-%d %d:%d:%d%n", v.t, v.t + 1, v.t + 2, v.t + 3, v.t + 4, v.t + 5, &n) != 6) return false; v.t[6] = 0; if (p[n] == '.') { int u = 100000; for (n++; isdigit((unsigned char)p[n]); n++, u /= 10) v.t[6] += (p[n] - '0') * u; } return !p[n] && v.t[1] >= 1 && v.t[1] <= 12 && v.t[2] >= 1 && v.t[2] <= 31 && v.t[3] >= 0 && v.t[3] < 24 && v.t[4] >= 0 && v.t[4] < 60 && v.t[5] >= 0 && v.t[5] < 60; } default: v.k = 's'; v.s = p; return true; } }
inline void die(Session &s) { s.dead = true; s.tx = false; s.pending.clear(); }
// A COMMIT that fails ends the transaction without its rows, as both servers do; a ROLLBACK fails only with the session.
// every session is lost between two calls; the clients learn of it at their next call
inline void lose_all() { for (Session *s : *sessions) die(*s); n_lost++; }
// ---- MySQL
struct MC : MYSQL { Session *s; bool connected; unsigned err; std::string msg; std::set<void *> stmts; };
struct MS { MC *c; std::string q; int n; unsigned err; std::string msg; std::vector<MYSQL_BIND> in, out; Result r; size_t at; bool executed; MS() : c(0), n(0), err(0), at(0), executed(false) {} };
struct MM { std::vector<MYSQL_FIELD> f; };
}
extern "C" {
using namespace D;
#define PCC(c) ((PC *)(c))
#define PRR(r) ((PR *)(r))
int PQisthreadsafe(void) { return 1; }
PGconn *PQconnectdb(const char *info) { n_calls++; last_conninfo = info; PC *c = new PC; c->s = new Session; n_sessions++; c->st = refuse_connect || fault("connect") ? CONNECTION_BAD : CONNECTION_OK; hold(c); return (PGconn *)c; }
void PQfinish(PGconn *c) { if (!c) return; drop(c, "PQfinish"); delete PCC(c)->s; delete PCC(c); }
void PQreset(PGconn *c) { must(c, "PQreset"); delete PCC(c)->s; PCC(c)->s = new Session; n_sessions++; PCC(c)->prep.clear(); PCC(c)->st = refuse_connect || fault("reset") ? CONNECTION_BAD : CONNECTION_OK; }
ConnStatusType PQstatus(const PGconn *c) { if (!c) return CONNECTION_BAD; must(c, "PQstatus"); return PCC(c)->st; }
char *PQerrorMessage(const PGconn *c) { must(c, "PQerrorMessage"); return (char *)"error"; }
PGTransactionStatusType PQtransactionStatus(const PGconn *c) { must(c, "PQtransactionStatus"); if (PCC(c)->st != CONNECTION_OK) return PQTRANS_UNKNOWN; return PCC(c)->s->tx ? PQTRANS_INTRANS : PQTRANS_IDLE; }
static PGresult *pgres(ExecStatusType st, const std::string &e) { PR *r = new PR; r->st = st; r->err = e; hold(r); return (PGresult *)r; }
static bool pgdown(PGconn *c, const char *site, PGresult **out) { PC *p = PCC(c); *out = 0; if (p->st != CONNECTION_OK || p->s->dead) { p->st = CONNECTION_BAD; *out = pgres(PGRES_FATAL_ERROR, "no connection to the server"); return true; } if (fault(site)) { bool lose = fail_kind == 1 || strstr(site, "ROLLBACK") || (fail_kind == 2 && strstr(site, "COMMIT")); if (strstr(site, "COMMIT")) { p->s->tx = false; p->s->pending.clear(); } if (lose) { n_lost++; die(*p->s); p->st = CONNECTION_BAD; } else if (fail_kind == 2) return true; *out = pgres(PGRES_FATAL_ERROR, "injected error"); return true; } return false; }
PGresult *PQprepare(PGconn *c, const char *name, const char *q, int nt, const Oid *) { must(c, "PQprepare"); PGresult *r; if (pgdown(c, ("prepare " + std::string(q).substr(0, 8)).c_str(), &r)) return r; n_prepared++; std::string plain; bool bad = false; params(q, '$', &plain, &bad); if (bad || !submitted->count(plain)) V::fail("the server was given the statement " + V::quote(q) + ", which nobody submitted"); PCC(c)->prep[name] = q; return pgres(PGRES_COMMAND_OK, ""); }
PGresult *PQexecPrepared(PGconn *c, const char *name, int n, const char *const *v, const int *, const int *fmt, int rf) { must(c, "PQexecPrepared"); PGresult *rr; if (!PCC(c)->prep.count(name) && PCC(c)->st == CONNECTION_OK && !PCC(c)->s->dead) return pgres(PGRES_FATAL_ERROR, "prepared statement does not exist"); std::string q = PCC(c)->prep.count(name) ? PCC(c)->prep[name] : ""; if (pgdown(c, ("execute " + q.substr(0, 8)).c_str(), &rr)) return rr; if (fmt || rf) V::fail("binary format is not modelled"); std::string plain; int np = params(q, '$', &plain, 0); if (np != n) return pgres(PGRES_FATAL_ERROR, "bind message supplies " + std::to_string(n) + " parameters, but prepared statement requires " + std::to_string(np)); Row args(n); std::vector<Col> cols; if (q.compare(0, 13, "insert into t") == 0) { int id = atoi(q.c_str() + 13); if (tables->count(id)) cols = (*tables)[id].cols; } for (int i = 0; i < n; i++) if (v[i]) if (!pgparse(v[i], i < (int)cols.size() ? cols[i].pg : 20, args[i])) return pgres(PGRES_FATAL_ERROR, "invalid input syntax: " + std::string(v[i])); Result r; std::string err; if (!run(*PCC(c)->s, plain, args, r, err)) return pgres(PGRES_FATAL_ERROR, err); PR *o = PRR(pgres(r.tuples ? PGRES_TUPLES_OK : PGRES_COMMAND_OK, "")); o->r = r; for (auto &row : r.rows) { o->text.push_back(std::vector<std::string>()); for (size_t i = 0; i < row.size(); i++) o->text.back().push_back(row[i].k == 'n' ? "" : pgtext(row[i], r.cols[i].pg)); } return (PGresult *)o; }
PGresult *PQexec(PGconn *c, const char *q) { PGresult *r = PQprepare(c, "\1x", q, 0, 0); if (!r || PRR(r)->st != PGRES_COMMAND_OK) return r; PQclear(r); return PQexecPrepared(c, "\1x", 0, 0, 0, 0, 0); }
PGresult *PQexecParams(PGconn *c, const char *q, int n, const Oid *, const char *const *v, const int *l, const int *f, int rf) { PGresult *r = PQprepare(c, "\1x", q, 0, 0); if (!r || PRR(r)->st != PGRES_COMMAND_OK) return r; PQclear(r); return PQexecPrepared(c, "\1x", n, v, l, f, rf); }
void PQclear(PGresult *r) { if (!r) return; drop(r, "PQclear"); delete PRR(r); }
ExecStatusType PQresultStatus(const PGresult *r) { if (!r) return PGRES_FATAL_ERROR; must(r, "PQresultStatus"); return PRR(r)->st; }
char *PQresultErrorMessage(const PGresult *r) { if (!r) return (char *)""; must(r, "PQresultErrorMessage"); return (char *)PRR(r)->err.c_str(); }
int PQnfields(const PGresult *r) { must(r, "PQnfields"); return PRR(r)->r.cols.size(); }
int PQntuples(const PGresult *r) { must(r, "PQntuples"); return PRR(r)->r.rows.size(); }
char *PQfname(const PGresult *r, int) { must(r, "PQfname"); return (char *)"col"; }
Oid PQftype(const PGresult *r, int i) { must(r, "PQftype"); return PRR(r)->r.cols.at(i).pg; }
char *PQcmdTuples(PGresult *r) { must(r, "PQcmdTuples"); return (char *)""; }
char *PQcmdStatus(PGresult *r) { must(r, "PQcmdStatus"); return (char *)""; }
static void pgin(const PGresult *r, int y, int x) { must(r, "PQget"); if (y < 0 || x < 0 || y >= (int)PRR(r)->r.rows.size() || x >= (int)PRR(r)->r.cols.size()) V::fail("a value outside the result was read"); }
char *PQgetvalue(const PGresult *r, int y, int x) { pgin(r, y, x); n_rows++; return (char *)PRR(r)->text[y][x].c_str(); }
int PQgetisnull(const PGresult *r, int y, int x) { pgin(r, y, x); return PRR(r)->r.rows[y][x].k == 'n'; }
int PQgetlength(const PGresult *r, int y, int x) { pgin(r, y, x); return PRR(r)->text[y][x].size(); }
// ---- MySQL
#define MCC(c) ((MC *)(c))
#define MSS(s) ((MS *)(s))
MYSQL *STDCALL mysql_init(MYSQL *m) { if (m) V::fail("mysql_init on a caller's structure is not modelled"); MC *c = new MC(); c->s = 0; c->connected = false; c->err = 0; hold(c); return c; }
MYSQL *STDCALL mysql_real_connect(MYSQL *m, const char *h, const char *u, const char *p, const char *d, unsigned int port, const char *, unsigned long) { must(m, "mysql_real_connect"); MC *c = MCC(m); last_my->clear(); last_my->push_back(h); last_my->push_back(u); last_my->push_back(p); last_my->push_back(d); last_my->push_back(std::to_string(port)); if (refuse_connect || fault("connect")) { c->err = 2003; c->msg = "can't connect"; return 0; } c->s = new Session; n_sessions++; c->connected = true; return m; }
void STDCALL mysql_close(MYSQL *m) { if (!m) return; drop(m, "mysql_close"); for (void *s : MCC(m)->stmts) MSS(s)->c = 0; delete MCC(m)->s; delete MCC(m); }
unsigned int STDCALL mysql_errno(MYSQL *m) { must(m, "mysql_errno"); return MCC(m)->err; }
const char *STDCALL mysql_error(MYSQL *m) { must(m, "mysql_error"); return MCC(m)->msg.c_str(); }
static bool mydown(MC *c, const char *site, unsigned &err, std::string &msg) { err = 0; msg = ""; if (!c || !c->connected || c->s->dead) { err = CR_SERVER_GONE_ERROR; msg = "server has gone away"; return true; } if (fault(site)) { if (strstr(site, "COMMIT")) { c->s->tx = false; c->s->pending.clear(); } if (fail_kind == 1 || strstr(site, "ROLLBACK")) { n_lost++; die(*c->s); err = CR_SERVER_LOST; msg = "lost connection"; } else { err = 1205; msg = "injected error"; } return true; } return false; }
int STDCALL mysql_ping(MYSQL *m) { must(m, "mysql_ping"); return mydown(MCC(m), "ping", MCC(m)->err, MCC(m)->msg) ? 1 : 0; }
int STDCALL mysql_query(MYSQL *m, const char *q) { must(m, "mysql_query"); MC *c = MCC(m); if (mydown(c, q, c->err, c->msg)) return 1; Result r; if (!run(*c->s, q, Row(), r, c->msg)) { c->err = 1064; return 1; } return 0; }
int STDCALL mysql_real_query(MYSQL *m, const char *q, unsigned long n) { return mysql_query(m, std::string(q, n).c_str()); }
unsigned long long STDCALL mysql_affected_rows(MYSQL *m) { must(m, "mysql_affected_rows"); return 0; }
MYSQL_STMT *STDCALL mysql_stmt_init(MYSQL *m) { must(m, "mysql_stmt_init"); if (fault("stmt_init")) { MCC(m)->err = 2008; return 0; } MS *s = new MS; s->c = MCC(m); MCC(m)->stmts.insert(s); hold(s); return (MYSQL_STMT *)s; }
my_bool STDCALL mysql_stmt_close(MYSQL_STMT *p) { drop(p, "mysql_stmt_close"); if (MSS(p)->c) MSS(p)->c->stmts.erase(p); delete MSS(p); return 0; }
unsigned int STDCALL mysql_stmt_errno(MYSQL_STMT *p) { must(p, "mysql_stmt_errno"); return MSS(p)->err; }
const char *STDCALL mysql_stmt_error(MYSQL_STMT *p) { must(p, "mysql_stmt_error"); return MSS(p)->msg.c_str(); }
const char *STDCALL mysql_stmt_sqlstate(MYSQL_STMT *p) { must(p, "mysql_stmt_sqlstate"); return "HY000"; }
int STDCALL mysql_stmt_prepare(MYSQL_STMT *p, const char *q, unsigned long n) { must(p, "mysql_stmt_prepare"); MS *s = MSS(p); if (mydown(s->c, "prepare", s->err, s->msg)) return 1; n_prepared++; s->q.assign(q, n); if (!submitted->count(s->q)) V::fail("the server was given the statement " + V::quote(s->q) + ", which nobody submitted"); s->n = params(s->q, '?', 0, 0); return 0; }
unsigned long STDCALL mysql_stmt_param_count(MYSQL_STMT *p) { must(p, "mysql_stmt_param_count"); return MSS(p)->n; }
static bool mycols(MS *s, std::vector<Col> &c) { if (s->q.compare(0, 15, "select * from t") != 0) return false; int id = atoi(s->q.c_str() + 15); if (!tables->count(id)) return false; c = (*tables)[id].cols; return true; }
unsigned int STDCALL mysql_stmt_field_count(MYSQL_STMT *p) { must(p, "mysql_stmt_field_count"); std::vector<Col> c; return mycols(MSS(p), c) ? c.size() : 0; }
MYSQL_RES *STDCALL mysql_stmt_result_metadata(MYSQL_STMT *p) { must(p, "mysql_stmt_result_metadata"); std::vector<Col> c; if (!mycols(MSS(p), c)) return 0; MM *m = new MM; for (auto &x : c) { MYSQL_FIELD f; memset(&f, 0, sizeof f); f.type = (enum_field_types)x.my; if (x.uns) f.flags |= UNSIGNED_FLAG; f.name = (char *)"col"; m->f.push_back(f); } hold(m); return (MYSQL_RES *)m; }
MYSQL_FIELD *STDCALL mysql_fetch_fields(MYSQL_RES *r) { must(r, "mysql_fetch_fields"); if (fault("fetch_fields")) return 0; return &((MM *)r)->f[0]; }
MYSQL_FIELD *STDCALL mysql_fetch_field_direct(MYSQL_RES *r, unsigned int i) { must(r, "mysql_fetch_field_direct"); return &((MM *)r)->f.at(i); }
unsigned int STDCALL mysql_num_fields(MYSQL_RES *r) { must(r, "mysql_num_fields"); return ((MM *)r)->f.size(); }
void STDCALL mysql_free_result(MYSQL_RES *r) { if (!r) return; drop(r, "mysql_free_result"); delete (MM *)r; }
my_bool STDCALL mysql_stmt_bind_param(MYSQL_STMT *p, MYSQL_BIND *b) { must(p, "mysql_stmt_bind_param"); MS *s = MSS(p); if (fault("bind_param")) { s->err = 1210; s->msg = "injected error"; return 1; } s->in.assign(b, b + s->n); return 0; }
my_bool STDCALL mysql_stmt_bind_result(MYSQL_STMT *p, MYSQL_BIND *b) { must(p, "mysql_stmt_bind_result"); MS *s = MSS(p); std::vector<Col> c; mycols(s, c); s->out.assign(b, b + c.size()); return 0; }
my_bool STDCALL mysql_stmt_reset(MYSQL_STMT *p) { must(p, "mysql_stmt_reset"); MSS(p)->r = Result(); MSS(p)->executed = false; return 0; }
my_bool STDCALL mysql_stmt_free_result(MYSQL_STMT *p) { must(p, "mysql_stmt_free_result"); MSS(p)->r = Result(); MSS(p)->executed = false; return 0; }
int STDCALL mysql_stmt_store_result(MYSQL_STMT *p) { must(p, "mysql_stmt_store_result"); return 0; }
unsigned long long STDCALL mysql_stmt_num_rows(MYSQL_STMT *p) { must(p, "mysql_stmt_num_rows"); return MSS(p)->r.rows.size(); }
unsigned long long STDCALL mysql_stmt_affected_rows(MYSQL_STMT *p) { must(p, "mysql_stmt_affected_rows"); return ~0ULL; }
static bool myparam(const MYSQL_BIND &b, Val &v) { if (b.buffer_type == MYSQL_TYPE_NULL || (b.is_null && *b.is_null)) return true; unsigned long len = b.length ? *b.length : b.buffer_length; switch (b.buffer_type) { case MYSQL_TYPE_TINY: v.k = 'i'; v.i = b.is_unsigned ? *(unsigned char *)b.buffer : *(signed char *)b.buffer; return true; case MYSQL_TYPE_SHORT: v.k = 'i'; v.i = b.is_unsigned ? *(unsigned short *)b.buffer : *(short *)b.buffer; return true; case MYSQL_TYPE_LONG: v.k = 'i'; v.i = b.is_unsigned ? (int64_t) * (unsigned *)b.buffer : *(int *)b.buffer; return true; case MYSQL_TYPE_LONGLONG: v.k = 'i'; v.i = *(long long *)b.buffer; v.uns = b.is_unsigned; return true; case MYSQL_TYPE_FLOAT: v.k = 'd'; v.d = *(float *)b.buffer; return true; case MYSQL_TYPE_DOUBLE: v.k = 'd'; v.d = *(double *)b.buffer; return true; case MYSQL_TYPE_DATE: case MYSQL_TYPE_DATETIME: case MYSQL_TYPE_TIMESTAMP: { MYSQL_TIME *m = (MYSQL_TIME *)b.buffer; v.k = 't'; if (m->neg) return false; int t[7] = {(int)m->year, (int)m->month, (int)m->day, (int)m->hour, (int)m->minute, (int)m->second, (int)m->second_part}; memcpy(v.t, t, sizeof t); return true; } case MYSQL_TYPE_STRING: case MYSQL_TYPE_VAR_STRING: case MYSQL_TYPE_BLOB: v.k = 's'; v.s.assign((char *)b.buffer, len); return true; default: return false; } }
int STDCALL mysql_stmt_execute(MYSQL_STMT *p) { must(p, "mysql_stmt_execute"); MS *s = MSS(p); s->r = Result(); s->at = 0; s->executed = false; if (mydown(s->c, ("execute " + s->q.substr(0, 8)).c_str(), s->err, s->msg)) return 1; if (s->n && (int)s->in.size() != s->n) { s->err = 2031; s->msg = "no data supplied for parameters"; return 1; } Row a(s->n); for (int i = 0; i < s->n; i++) if (!myparam(s->in[i], a[i])) { s->err = 2036; s->msg = "using unsupported buffer type"; return 1; } if (!run(*s->c->s, s->q, a, s->r, s->msg)) { s->err = 1064; return 1; } s->executed = true; return 0; }
static bool mycopy(const MYSQL_BIND &b, const Val &v, const Col &col, unsigned long off, bool &trunc) { if (b.is_null) *b.is_null = v.k == 'n'; if (v.k == 'n') return true; if ((int)b.buffer_type != col.my) V::fail("conversions of column types are not modelled"); auto put = [&](const void *q, size_t n) { memcpy(b.buffer, q, n); if (b.length) *b.length = n; }; switch (col.my) { case MYSQL_TYPE_TINY: { signed char x = v.i; put(&x, 1); if (col.uns != (bool)b.is_unsigned && x < 0) trunc = true; break; } case MYSQL_TYPE_SHORT: { short x = v.i; put(&x, 2); if (col.uns != (bool)b.is_unsigned && x < 0) trunc = true; break; } case MYSQL_TYPE_LONG: { int x = v.i; put(&x, 4); if (col.uns != (bool)b.is_unsigned && x < 0) trunc = true; break; } case MYSQL_TYPE_LONGLONG: { long long x = v.i; put(&x, 8); if (col.uns != (bool)b.is_unsigned && x < 0) trunc = true; break; } case MYSQL_TYPE_FLOAT: { float x = v.d; put(&x, 4); break; } case MYSQL_TYPE_DOUBLE: put(&v.d, 8); break; case MYSQL_TYPE_DATE: case MYSQL_TYPE_DATETIME: case MYSQL_TYPE_TIMESTAMP: { MYSQL_TIME m; memset(&m, 0, sizeof m); m.year = v.t[0]; m.month = v.t[1]; m.day = v.t[2]; m.hour = v.t[3]; m.minute = v.t[4]; m.second = v.t[5]; m.second_part = v.t[6]; put(&m, sizeof m); break; } default: { size_t rest = off < v.s.size() ? v.s.size() - off : 0, n = std::min<size_t>(rest, b.buffer_length); memcpy(b.buffer, v.s.data() + off, n); if (b.length) *b.length = v.s.size(); if (n < rest) { trunc = true; n_trunc++; } } } if (b.error) *b.error = trunc; return true; }
int STDCALL mysql_stmt_fetch(MYSQL_STMT *p) { must(p, "mysql_stmt_fetch"); MS *s = MSS(p); if (!s->executed || !s->r.tuples) { s->err = 2014; s->msg = "commands out of sync"; return 1; } if (mydown(s->c, "fetch", s->err, s->msg)) return 1; if (s->at >= s->r.rows.size()) return MYSQL_NO_DATA; Row &row = s->r.rows[s->at++]; n_rows++; bool any = false; for (size_t i = 0; i < s->out.size(); i++) { bool t = false; mycopy(s->out[i], row[i], s->r.cols[i], 0, t); any |= t; } return any ? MYSQL_DATA_TRUNCATED : 0; }
int STDCALL mysql_stmt_fetch_column(MYSQL_STMT *p, MYSQL_BIND *b, unsigned int col, unsigned long off) { must(p, "mysql_stmt_fetch_column"); MS *s = MSS(p); if (s->at == 0 || col >= s->r.cols.size()) { s->err = 2034; return 1; } if (fault("fetch_column")) { s->err = 2013; s->msg = "injected error"; return 1; } bool t = false; mycopy(*b, s->r.rows[s->at - 1][col], s->r.cols[col], off, t); return 0; }
}
#endif
