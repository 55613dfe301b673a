// C53: transactions over both connectors with faults at every client call, against a ledger of the rows each history
// may leave behind.
#include "fakedb.h"
#include <functional>
#include <database/mysql/connection.h>
#include <database/postgresql/connection.h>
using namespace pfi::database;
typedef pfi::lang::shared_ptr<connection> CN;
typedef pfi::lang::shared_ptr<statement> ST;
static uint64_t n_tx, n_committed, n_boom, n_failed, n_auto, n_autofail, n_destroyed, n_refused, n_read, n_early, n_swallowed;
static bool PGSQL;
static const std::string INS = "insert into t1 values (?)", SEL = "select * from t1";
static CN open_() { return CN(PGSQL ? postgresql::connect("host=x") : mysql::connect("h", 1, "d", "u", "p")); }
struct Boom { int k; Boom(int k) : k(k) {} };
static std::vector<int64_t> visible() { std::vector<int64_t> v; for (auto &r : (*D::tables)[1].rows) v.push_back(r[0].i); return v; }
// The rows that must be there. Faults are raised before the server acts, so a call that failed left nothing.
struct Ledger { std::vector<int64_t> rows; std::string log; int64_t next; Ledger() : next(1) {} };
static void agree(const Ledger &l, const std::string &what) { V::eval(); auto v = visible(); VCHECK(v == l.rows, what << ": " << v.size() << " rows are stored, " << l.rows.size() << " should be; history:" << l.log); }
static void arm(V::Rng &g) { if (g.chance(3, 5)) { D::fail_in = g.below(g.chance(1, 2) ? 6 : 24); D::fail_kind = g.chance(1, 2) ? 1 : g.chance(1, 3) ? 2 : 0; } else D::fail_in = -1; D::refuse_connect = false; }
static std::string fault_text() { return D::fail_in < 0 ? "" : " [fault " + std::to_string(D::fail_kind) + " in " + std::to_string(D::fail_in) + "]"; }
// one insertion of the next number, by one of the ways there are; throws database_error
static void insert(V::Rng &g, CN &c, ST &pre, int64_t v) { switch (g.below(pre ? 3 : 2)) { case 0: c->run(INS, v); break; case 1: { ST s(c->prepare(INS)); s->execute(v); break; } default: pre->execute(v); } }
// the statements of one transaction; the rows it stored in mine; leaves by Boom, a database error or normally
static void body(V::Rng &g, CN &c, ST &pre, Ledger &l, std::vector<int64_t> &mine, int n, int boom, bool swallow) { for (int i = 0; i < n; i++) { if (i == boom) { l.log += " throw"; throw Boom(boom); } if (g.chance(1, 14)) { D::lose_all(); l.log += " LOST"; } int64_t v = l.next++; if (swallow) { try { insert(g, c, pre, v); mine.push_back(v); l.log += " +" + std::to_string(v); } catch (const database_error &) { n_swallowed++; l.log += " +" + std::to_string(v) + "failed"; if (D::sessions->empty() || !(*D::sessions->begin())->dead) throw; } } else { l.log += " +" + std::to_string(v); insert(g, c, pre, v); mine.push_back(v); }
    if (g.chance(1, 5)) { ST s(c->prepare(SEL)); s->execute(); int64_t x; std::vector<int64_t> got, want = l.rows; want.insert(want.end(), mine.begin(), mine.end()); while (s->fetch_row(x)) got.push_back(x); n_read++; V::eval(); VCHECK(got == want, "a transaction read " << got.size() << " rows instead of the stored ones and its own (" << want.size() << "); history:" << l.log); } } if (n == boom) { l.log += " throw"; throw Boom(boom); } }
static void one_transaction(V::Rng &g, CN &c, ST &pre, Ledger &l) { n_tx++; std::vector<int64_t> mine; int n = g.below(6), boom = g.chance(1, 3) ? (int)g.below(n + 1) : -1; bool swallow = g.chance(1, 5); int form = g.below(4); arm(g); if (g.chance(1, 12)) D::lose_all(); l.log += " {" + std::to_string(form) + fault_text(); bool threw = false;
  try { switch (form) {
    case 0: transaction(c) { body(g, c, pre, l, mine, n, boom, swallow); } break;
    case 1: transaction(c.get()) { body(g, c, pre, l, mine, n, boom, swallow); } break;
    case 2: { auto f = [&]() -> int { transaction(c) { body(g, c, pre, l, mine, n, boom, swallow); n_early++; return 7; } return 8; }; VEQ(f(), 7, "the value returned from within a transaction"); break; }
    default: c->begin_transaction(); try { body(g, c, pre, l, mine, n, boom, swallow); } catch (...) { try { c->rollback(); } catch (const database_error &) {} throw; } c->commit(); } }
  catch (const Boom &b) { threw = true; n_boom++; VEQ(b.k, boom, "the exception a transaction was left by"); }
  catch (const database_error &e) { threw = true; n_failed++; if (form == 0 && boom >= 0) l.log += " E"; }
  // anything else ends the program: every error of the connectors is a database_error
  if (!threw) { VCHECK(boom < 0, "the exception of the body was lost; history:" << l.log); l.rows.insert(l.rows.end(), mine.begin(), mine.end()); n_committed++; }
  l.log += threw ? " }aborted" : " }committed"; D::fail_in = -1; agree(l, threw ? "after a transaction that was reported as failed" : "after a transaction that was reported as committed"); }
static void outside(V::Rng &g, CN &c, ST &pre, Ledger &l) { arm(g); if (g.chance(1, 8)) D::lose_all(); int64_t v = l.next++; l.log += " (" + fault_text(); try { insert(g, c, pre, v); l.rows.push_back(v); n_auto++; l.log += "+" + std::to_string(v) + ")"; } catch (const database_error &) { n_autofail++; l.log += "failed)"; } D::fail_in = -1; agree(l, "after an insertion outside of transactions"); }
static void history(V::Rng &g, uint64_t idx) { PGSQL = g.chance(1, 2); D::tables->clear(); D::Col col = {MYSQL_TYPE_LONGLONG, false, 20}; (*D::tables)[1].cols.push_back(col); D::fail_in = -1; D::refuse_connect = false; Ledger l; l.log = PGSQL ? "PostgreSQL" : "MySQL";
  { CN c = open_(); ST pre; if (g.chance(1, 2)) pre.reset(c->prepare(INS)); int n = 1 + g.below(7); for (int i = 0; i < n; i++) { switch (g.below(8)) { case 0: case 1: outside(g, c, pre, l); break;
        case 2: { // the server is away for a while
          D::lose_all(); D::refuse_connect = true; l.log += " AWAY"; n_refused++; for (int k = 1 + g.below(3); k > 0; k--) { bool threw = false; try { switch (g.below(4)) { case 0: c->run(INS, (int64_t)-1); break; case 1: { ST s(c->prepare(INS)); s->execute((int64_t)-1); break; } case 2: c->begin_transaction(); break; default: transaction(c) { c->run(INS, (int64_t)-1); } } } catch (const database_error &) { threw = true; } VCHECK(threw, "a call succeeded while no server could be reached; history:" << l.log); } D::refuse_connect = false; agree(l, "while the server was away"); break; }
        case 3: if (pre) { pre.reset(); l.log += " drop"; } else { try { pre.reset(c->prepare(INS)); l.log += " prepare"; } catch (const database_error &) {} } break;
        default: one_transaction(g, c, pre, l); } V::cur(l.log); }
    // the connection goes in the middle of a transaction while a statement of it lives on
    if (g.chance(1, 2)) { std::vector<int64_t> mine; ST s; D::fail_in = -1; bool begun = false; try { s.reset(c->prepare(INS)); c->begin_transaction(); begun = true; s->execute(l.next++); c->run(INS, l.next++); } catch (const database_error &) {} if (begun) { l.log += " DESTROYED"; n_destroyed++; c.reset(); agree(l, "after a connection was destroyed in a transaction"); if (g.chance(1, 2)) { int64_t v = l.next++; bool ok = true; try { s->execute(v); } catch (const database_error &) { ok = false; } if (ok) l.rows.push_back(v); agree(l, "after a statement was executed once its connection was gone"); } } }
    else { // whatever came before, a working server is used again and nothing is left open
      bool ok = false; int64_t v = l.next++; for (int k = 0; k < 3 && !ok; k++) try { c->run(INS, v); ok = true; } catch (const database_error &) {} VCHECK(ok, "a connection does not recover although the server is reachable; history:" << l.log); l.rows.push_back(v); agree(l, "after an insertion on a recovered connection"); } }
  V::cur(l.log); agree(l, "after everything was destroyed"); VCHECK(D::handles->empty(), D::handles->size() << " client library handles were never released; history:" << l.log); VCHECK(D::sessions->empty(), "sessions were left open"); V::nontrivial(V::hash_str(l.log)); if (idx < 3) V::sample(l.log); }
static void opening(V::Rng &g, uint64_t idx) { PGSQL = g.chance(1, 2); D::refuse_connect = g.chance(1, 2); D::fail_in = D::refuse_connect ? -1 : g.below(2); bool fail = D::refuse_connect || D::fail_in == 0; V::cur("opening"); bool threw = false; try { CN c = open_(); } catch (const database_error &) { threw = true; } VCHECK(threw || !fail, "a connection that failed was returned"); VCHECK(!threw || fail, "a connection that works was refused"); D::refuse_connect = false; D::fail_in = -1; VCHECK(D::handles->empty(), "handles of a connection were never released"); V::eval(); V::nontrivial(fail); }
int main(int argc, char **argv) { V::init(argc, argv); for (auto &s : {std::string("BEGIN"), std::string("COMMIT"), std::string("ROLLBACK"), INS, SEL}) D::submitted->insert(s); V::rule("histories of transactions, single statements, lost sessions, unreachable servers and destroyed connections over a server model behind the client libraries' functions, with a fault (error, lost session, no result) at a random client call; distinct = distinct histories"); V::cases("histories", 60000, .97, history); V::cases("opening", 300, 1, opening);
  V::count("transactions", n_tx); V::count("committed", n_committed); V::count("left by an exception of the body", n_boom); V::count("failed by the database", n_failed); V::count("left by return", n_early); V::count("errors swallowed in the body", n_swallowed); V::count("single statements stored", n_auto); V::count("single statements failed", n_autofail); V::count("connections destroyed in a transaction", n_destroyed); V::count("times the server was away", n_refused); V::count("reads within transactions", n_read); V::count("faults injected", D::n_faults); V::count("sessions lost", D::n_lost); V::count("client library calls checked", D::n_calls); V::count("handles tracked", D::n_handles); return V::finish(); }
