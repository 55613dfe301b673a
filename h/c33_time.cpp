#include "common.h"
#include <system/time_util.h>
#include <concurrent/internal.h>
#include <time.h>
#include <cmath>
using namespace pfi::system::time;
typedef __int128 I; static std::atomic<uint64_t> n_arith, n_round, n_comp, n_now, n_ts, n_dst, n_fix;
struct Z { const char *tz; int off; /* fixed offset in seconds, or 1 if it has summer time */ };
static const Z zs[] = {{"UTC0", 0}, {"JST-9", 32400}, {"HST10", -36000}, {"<+0545>-5:45", 20700}, {"<-1130>11:30", -41400}, {"EST5EDT,M3.2.0,M11.1.0", 1}, {"GMT0BST,M3.5.0/1,M10.5.0", 1}, {"NZST-12NZDT,M9.5.0,M4.1.0/3", 1}, {"<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", 1}, {"<-03>3<-02>,M3.5.0/-2,M10.5.0/-1", 1}};
static I inst(uint64_t s, int64_t u) { return (I)(int64_t)s * 1000000 + u; }
static void arith(V::Rng &g, uint64_t idx) {
  auto sec = [&]() -> uint64_t { switch (g.below(4)) { case 0: return g.below(3); case 1: return 1000000000 + g.below(1000000000); case 2: return g.below((uint64_t)1 << 40); default: return g.below(100000); } }; bool wild = g.chance(1, 4); auto us = [&]() -> int32_t { switch (g.below(4)) { case 0: return g.chance(1, 2) ? 0 : 999999; case 1: return g.below(3); default: return g.below(1000000); } }; auto uw = [&]() -> int32_t { return wild ? (int32_t)g.range(-9000000, 9000000) : us(); };
  clock_time a(sec(), us()), b(sec(), uw()); std::ostringstream o; o << a.sec << "." << a.usec << " with " << b.sec << "." << b.usec; V::cur(o.str()); V::nontrivial(V::hash_str(o.str())); if (idx < 2) V::sample(o.str()); n_arith++;
  auto ok = [&](const clock_time &c, I want, const char *w) { VCHECK(c.usec >= 0 && c.usec < 1000000, w << " leaves " << c.usec << " microseconds: " << o.str()); VCHECK(inst(c.sec, c.usec) == want, w << " gives " << (int64_t)c.sec << "s " << c.usec << "us: " << o.str()); };
  I ia = inst(a.sec, a.usec), ib = inst(b.sec, b.usec); { clock_time c(a); clock_time &r = (c += b); VCHECK(&r == &c, "+= returns its left operand"); ok(c, ia + ib, "+="); ok(a + b, ia + ib, "+"); c -= b; ok(c, ia, "+= then -="); } { clock_time c(a); clock_time &r = (c -= b); VCHECK(&r == &c, "-= returns its left operand"); ok(c, ia - ib, "-="); ok(a - b, ia - ib, "-"); c += b; ok(c, ia, "-= then +="); } { clock_time c(a); c += c; ok(c, ia * 2, "+= itself"); c = a; c -= c; ok(c, 0, "-= itself"); }
  if (!wild) { VEQ(a < b, ia < ib, "a < b: " << o.str()); VEQ(b < a, ib < ia, "b < a: " << o.str()); VCHECK(!(a < a), "a < a"); clock_time c = ia < ib ? b - a : a - b; double d = c, w = (double)(long double)(ia < ib ? ib - ia : ia - ib) / 1e6; VCHECK(std::fabs(d - w) <= 1e-9 + w * 1e-15, "difference as seconds is " << d << " want " << w); double e = a; VCHECK(std::fabs(e - (double)ia / 1e6) <= 1e-9 + e * 1e-15, "as seconds " << e); clock_time s(a.sec, b.usec); VEQ(a < s, a.usec < b.usec, "same second"); } }
static int64_t days(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
static void civil(int64_t z, int64_t &y, int &m, int &d) { z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = (int64_t)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2; }
static std::string show(const calendar_time &c) { char b[160]; snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d.%d yday %d wday %d dst %d", c.year, c.mon, c.mday, c.hour, c.min, c.sec, c.usec, c.yday, c.wday, (int)c.isdst); return b; }
static void zone(const Z &z) { setenv("TZ", z.tz, 1); tzset(); }
static void expect(const calendar_time &c, int64_t t, int us, const Z &z, const std::string &w) {
  time_t tt = t; tm r; localtime_r(&tt, &r); if (z.off != 1) { int64_t l = t + z.off, dd = l >= 0 ? l / 86400 : -((86399 - l) / 86400), s = l - dd * 86400; int64_t y; int m, d; civil(dd, y, m, d); VCHECK(c.year == y && c.mon == m && c.mday == d && c.hour == s / 3600 && c.min == s / 60 % 60 && c.sec == s % 60, w << ": got " << show(c)); VEQ((int64_t)c.yday, dd - days(y, 1, 1), w << " yday"); VEQ((int64_t)c.wday, ((dd + 4) % 7 + 7) % 7, w << " wday"); VCHECK(!c.isdst, w << ": summer time in a zone without it"); n_fix++; }
  VCHECK(c.year == r.tm_year + 1900 && c.mon == r.tm_mon + 1 && c.mday == r.tm_mday && c.hour == r.tm_hour && c.min == r.tm_min && c.sec == r.tm_sec && c.yday == r.tm_yday && c.wday == r.tm_wday && c.isdst == (r.tm_isdst > 0), w << ": got " << show(c) << ", the host's calendar says " << r.tm_year + 1900 << "-" << r.tm_mon + 1 << "-" << r.tm_mday << " " << r.tm_hour << ":" << r.tm_min << ":" << r.tm_sec << " dst " << r.tm_isdst); VEQ(c.usec, us, w << " microseconds"); if (c.isdst) n_dst++; }
static int64_t instant(V::Rng &g, const Z &z) { switch (g.below(4)) { case 0: return g.below(4102444800u); case 1: return g.below(100000); case 2: { int64_t y = g.range(1970, 2400); static const int md[][2] = {{1, 1}, {2, 28}, {2, 29}, {3, 1}, {12, 31}, {6, 30}}; const int *m = md[g.below(6)]; int64_t t = days(y, m[0], m[1]) * 86400 - (z.off == 1 ? 0 : z.off) + (g.chance(1, 2) ? 0 : 86399) + g.range(-1, 1); return t < 0 ? 0 : t; } default: { // near a summer-time change
      int64_t y = g.range(1980, 2100); int64_t lo = days(y, g.chance(1, 2) ? 1 : 7, 1) * 86400, hi = lo + 184 * 86400; time_t a = lo, b = hi; tm x, q; localtime_r(&a, &x); localtime_r(&b, &q); if (x.tm_isdst == q.tm_isdst) return g.below(4102444800u); while (hi - lo > 1) { time_t m = (lo + hi) / 2; localtime_r(&m, &q); if (q.tm_isdst == x.tm_isdst) lo = m; else hi = m; } return hi + g.range(-7300, 7300); } } }
static void cal(V::Rng &g, uint64_t idx) {
  const Z &z = zs[g.below(sizeof zs / sizeof *zs)]; zone(z); int64_t t = instant(g, z); int us = g.chance(1, 3) ? 999999 : g.below(1000000); std::ostringstream o; o << z.tz << " instant " << t << "." << us; V::cur(o.str()); V::nontrivial(V::hash_str(o.str())); if (idx < 3) V::sample(o.str());
  clock_time ct(t, us); calendar_time c(ct); expect(c, t, us, z, o.str()); clock_time back(c); VCHECK((int64_t)back.sec == t && back.usec == us, o.str() << ": to a calendar time and back gives " << (int64_t)back.sec << "." << back.usec << " by way of " << show(c)); n_round++;
  // the component constructor keeps the components of every local time that exists
  calendar_time k(c.year, c.mon, c.mday, c.hour, c.min, c.sec, c.usec); clock_time kt(k); if (z.off != 1) { expect(k, t, us, z, "constructed from components, " + o.str()); VCHECK((int64_t)kt.sec == t, "constructed from components, " << o.str()); }
  else { VCHECK(k.year == c.year && k.mon == c.mon && k.mday == c.mday && k.hour == c.hour && k.min == c.min && k.sec == c.sec && k.usec == c.usec && k.yday == c.yday && k.wday == c.wday, "constructed from components " << show(c) << " (" << o.str() << "): " << show(k)); int64_t d = (int64_t)kt.sec - t; if (d < 0) d = -d; VCHECK(k.isdst == c.isdst ? d == 0 : (d > 0 && d <= 7200), "constructed from components " << show(c) << ": instant " << (int64_t)kt.sec << " instead of " << t); } n_comp++;
  if (g.chance(1, 3)) { calendar_time m(c.year, c.mon, c.mday); VCHECK(m.year == c.year && m.mon == c.mon && m.mday == c.mday && m.min == 0 && m.sec == 0 && m.usec == 0 && m.hour == 0, "date only, " << o.str() << ": " << show(m)); int dy = g.range(-40, 40), ds = g.range(-100000, 100000); // out-of-range components carry over
    calendar_time q(c.year, c.mon, c.mday + dy, c.hour, c.min, c.sec + ds); if (z.off != 1) expect(q, t + (int64_t)dy * 86400 + ds, 0, z, "carrying components, " + o.str()); }
  { calendar_time e; VCHECK(e.year == 0 && e.mon == 0 && e.mday == 0 && e.hour == 0 && e.min == 0 && e.sec == 0 && e.usec == 0 && e.yday == 0 && e.wday == 0 && !e.isdst, "default calendar time is not all zero"); } }
static void now(V::Rng &, uint64_t) { static I last; timespec a, b; clock_gettime(CLOCK_REALTIME, &a); clock_time c = get_clock_time(); clock_gettime(CLOCK_REALTIME, &b); I lo = (I)a.tv_sec * 1000000 + a.tv_nsec / 1000, hi = (I)b.tv_sec * 1000000 + b.tv_nsec / 1000 + 1, v = inst(c.sec, c.usec); if (hi < lo || v < last - 1000000) { last = v; return; } VCHECK(c.usec >= 0 && c.usec < 1000000, "get_clock_time microseconds " << c.usec); VCHECK(v >= lo - 1 && v <= hi, "get_clock_time " << (int64_t)c.sec << "." << c.usec << " is outside the readings taken round it"); last = v; n_now++; }
static void ts(V::Rng &g, uint64_t) { double s; switch (g.below(6)) { case 0: s = -g.unit() * 1e6; break; case 1: s = 0; break; case 2: s = g.unit(); break; case 3: s = (double)g.below(2000000000); break; case 4: s = g.below(100) + 1 - 1e-12; break; default: s = 1.7e9 + g.unit() * 1e8; } V::cur("to_timespec " + std::to_string(s)); timespec t = pfi::concurrent::to_timespec(s); VCHECK(t.tv_nsec >= 0 && t.tv_nsec < 1000000000, "to_timespec(" << s << ") nanoseconds " << t.tv_nsec); if (s <= 0) VCHECK(t.tv_sec == 0 && t.tv_nsec == 0, "to_timespec(" << s << ") is " << t.tv_sec << "." << t.tv_nsec); else { long double d = (long double)s - t.tv_sec - t.tv_nsec * 1e-9L; VCHECK(d <= 1.1e-9L && d >= -1.1e-9L, "to_timespec(" << s << ") is " << t.tv_sec << "s " << t.tv_nsec << "ns"); } n_ts++; }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("sums, differences and comparisons of clock times against 128-bit microsecond arithmetic; instants from 1970 to 2400 in ten POSIX time zones (fixed offsets against a proleptic Gregorian computation, summer-time zones against the host's calendar, concentrated at month ends, leap days and clock changes), both ways; the current time bracketed by the system clock; distinct = distinct operands and instants"); V::cases("arithmetic", 60000, .25, arith); V::cases("calendar", 40000, .85, cal); V::cases("now", 20000, .92, now); V::cases("timespec", 40000, 1, ts); V::count("arithmetic pairs", n_arith); V::count("round trips", n_round); V::count("component constructions", n_comp); V::count("summer-time instants", n_dst); V::count("fixed-offset calendar checks", n_fix); V::count("clock readings", n_now); V::count("deadlines", n_ts); return V::finish(); }
