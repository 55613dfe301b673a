#include "json_ref.h"
#include <pthread.h>
using namespace JR; using namespace pfi::text::json;
static std::atomic<uint64_t> n_ok, n_bad, n_eof, n_utf, n_range, n_events;
struct Rec : json_parser::callback { std::string t; void null() { t += 'N'; } void boolean(bool b) { t += b ? 'T' : 'F'; } void integer(int64_t v) { J j(Int); j.i = v; t += show(j) + ";"; } void number(double v) { J j(Flt); j.d = v; t += show(j) + ";"; } void string(const char *p, size_t n) { t += "s" + V::quote(std::string(p, n), 1000000); } void start_object() { t += '{'; } void object_key(const char *p, size_t n) { t += "k" + V::quote(std::string(p, n), 1000000); } void end_object() { t += '}'; } void start_array() { t += '['; } void end_array() { t += ']'; } };
enum R { OK, BAD, EOD, UTF, OTHER };
static const char *rn[] = {"a value", "parse_error", "end_of_data", "invalid_argument", "another exception"};
static R libparse(json_parser &p, J &out) { try { json j = p.parse(); out = from_lib(j); return OK; } catch (const pfi::lang::parse_error &) { return BAD; } catch (const pfi::lang::end_of_data &) { return EOD; } catch (const std::invalid_argument &) { return UTF; } catch (const std::exception &e) { VFAIL("unexpected exception " << e.what()); } catch (...) { VFAIL("unexpected exception"); } return OTHER; }
// Reads all values of the text with one parser and with the reference reader, side by side.
static void doc(const std::string &s, V::Rng &g) {
  V::cur(V::quote(s, 15000)); ChunkBuf cb(s, g.u64(), g.chance(1, 2) ? 1 : 64), cb2(s, g.u64(), 7); std::istream is(&cb), is2(&cb2); json_parser p(is), p2(is2); Reader r(s);
  for (int k = 0; k < 50; k++) {
    J want, got; int st = 0; bool atend = false; try { r.ws(); if (r.end()) atend = true; } catch (const Utf &) {} r.trace.clear();
    try { want = r.value(); } catch (const Bad &) { st = 1; } catch (const Eof &) { st = 2; } catch (const Utf &) { st = 3; } catch (const Range &) { st = 4; }
    R res = libparse(p, got); Rec rec; std::string ex; R res2 = OK; try { p2.parse_stream(rec); } catch (const pfi::lang::parse_error &) { res2 = BAD; } catch (const pfi::lang::end_of_data &) { res2 = EOD; } catch (const std::invalid_argument &) { res2 = UTF; } n_events += rec.t.size();
    VCHECK(res == res2, "parse() ended with " << rn[res] << " and parse_stream() with " << rn[res2]);
    if (st == 0) { uint32_t cp; bool badnext = !r.end() && !u8(s, r.p, cp) && (want.t == Int || want.t == Flt);
      if (badnext && res == UTF) { n_utf++; return; }  // the number's lookahead met malformed UTF-8
      VCHECK(res == OK, "a well-formed document (value " << k << ") was refused with " << rn[res] << "; reference value " << show(want)); VCHECK(same(want, got), "value " << k << " parsed as " << show(got) << " expected " << show(want)); VCHECK(rec.t == r.trace, "events " << V::quote(rec.t, 500) << " expected " << V::quote(r.trace, 500)); n_ok++; continue; }
    if (atend) { VCHECK(res == EOD, "nothing left to read, but the parser reports " << rn[res]); n_eof++; return; }
    if (st == 1 || st == 4) { VCHECK(res == BAD, "malformed document: the parser reports " << rn[res] << (res == OK ? " = " + show(got) : "") << ", reference says malformed at " << r.p); st == 1 ? n_bad++ : n_range++; }
    else if (st == 2) { VCHECK(res == EOD || res == BAD, "truncated document: the parser reports " << rn[res] << (res == OK ? " = " + show(got) : "")); n_eof++; }
    else { VCHECK(res != OK, "malformed UTF-8 was accepted as " << show(got)); n_utf++; }
    VCHECK(r.trace.compare(0, rec.t.size(), rec.t) == 0 || rec.t.compare(0, r.trace.size(), r.trace) == 0, "events before the error " << V::quote(rec.t, 500) << " expected " << V::quote(r.trace, 500)); return;
  }
}
static std::string wsp(V::Rng &g) { return g.chance(2, 3) ? "" : V::rand_text(g, g.below(4), " \t\n\r"); }
static std::string estr(const std::string &s, V::Rng &g) { std::string o = "\""; for (size_t p = 0; p < s.size();) { uint32_t c; int n = u8(s, p, c); std::string raw = s.substr(p, n); p += n; char b[32]; bool must = c < 0x20 || c == '"' || c == '\\'; size_t sh = c < 0x80 ? std::string("\"\\/\b\f\n\r\t").find((char)c) : std::string::npos;
    if (!must && g.chance(2, 3)) o += raw; else if (sh != std::string::npos && g.chance(2, 3)) { o += '\\'; o += "\"\\/bfnrt"[sh]; } else { const char *f = g.chance(1, 2) ? "\\u%04x" : "\\u%04X"; if (c >= 0x10000) { snprintf(b, sizeof b, f, 0xD800 + ((c - 0x10000) >> 10)); o += b; snprintf(b, sizeof b, f, 0xDC00 + ((c - 0x10000) & 0x3ff)); o += b; } else { snprintf(b, sizeof b, f, c); o += b; } } } return o + "\""; }
static bool small_numbers;
static std::string enumr(V::Rng &g) { if (small_numbers) { std::string s = std::to_string(g.range(-100000, 100000)); if (g.chance(1, 4)) s += "." + std::to_string(g.below(1000)); if (g.chance(1, 6)) s += "e" + std::to_string(g.range(-20, 20)); return s; } std::string s = g.chance(1, 3) ? "-" : ""; int n = 1 + g.below(g.chance(1, 8) ? 25 : 6); std::string d = V::rand_text(g, n, "0123456789"); size_t nz = d.find_first_not_of('0'); d = nz == std::string::npos ? "0" : d.substr(nz); s += d; if (g.chance(1, 3)) s += "." + V::rand_text(g, 1 + g.below(8), "0123456789"); if (g.chance(1, 3)) { s += g.chance(1, 2) ? "e" : "E"; int k = g.below(3); s += k == 0 ? "" : k == 1 ? "+" : "-"; s += V::rand_text(g, 1 + g.below(g.chance(1, 4) ? 4 : 2), "0123456789"); } return s; }
static std::string text(const J &j, V::Rng &g) { std::string o = wsp(g); switch (j.t) { case Nul: o += "null"; break; case Int: case Flt: o += enumr(g); break; case Bol: o += j.i ? "true" : "false"; break; case Str: o += estr(j.s, g); break; case Arr: o += "["; for (size_t i = 0; i < j.a.size(); i++) o += (i ? "," : "") + text(j.a[i], g); o += wsp(g) + "]"; break; case Obj: { o += "{"; bool f = true; for (auto &x : j.o) { o += (f ? "" : ",") + wsp(g) + estr(x.first, g) + wsp(g) + ":" + text(x.second, g); f = false; if (g.chance(1, 12)) o += "," + estr(x.first, g) + ":" + enumr(g); } o += wsp(g) + "}"; } } return o + wsp(g); }
static void valid(V::Rng &g, uint64_t idx) { std::string s; int n = g.chance(1, 4) ? 1 + g.below(4) : 1; for (int k = 0; k < n; k++) { int fuel = 1 + g.below(30); s += text(gen(g, g.chance(1, 8) ? 30 : 5, fuel), g) + (k + 1 < n && g.chance(3, 4) ? " " : ""); } doc(s, g); V::nontrivial(V::hash_str(s)); if (idx < 3) V::sample(V::quote(s, 300));
  if (s.size() < 40) for (size_t i = 0; i < s.size(); i++) doc(s.substr(0, i), g); else doc(s.substr(0, g.below(s.size())), g); }
static void mutated(V::Rng &g, uint64_t) { int fuel = 1 + g.below(20); std::string s = text(gen(g, 5, fuel), g); int m = 1 + g.below(3); static const std::string al = "{}[]\",:\\/utfn0123456789.eE+- \x00\x01\x7f\x80\xc0\xed\xa0\xff"; for (int i = 0; i < m && !s.empty(); i++) { size_t p = g.below(s.size() + 1); switch (g.below(5)) { case 0: if (p < s.size()) s[p] = al[g.below(al.size())]; break; case 1: s.insert(p, 1, al[g.below(al.size())]); break; case 2: s.erase(p, 1 + g.below(3)); break; case 3: { size_t q = g.below(s.size()); s.insert(p, s.substr(q, g.below(5))); break; } default: if (p < s.size()) s[p] = (char)g.u32(); } } doc(s, g); V::nontrivial(V::hash_str(s)); }
static void garbage(V::Rng &g, uint64_t idx) { static const std::string al[] = {"[]{},:\"a1", "-+.eE0123456789 ", "\\u0123DdCc8aF\"", "truefalsn ,", "\"\\/bfnrtu\x1f\x20"}; std::string s; if (g.chance(1, 6)) s = V::rand_bytes(g, g.below(30)); else s = V::rand_text(g, 1 + g.below(14), al[g.below(5)]); if (g.chance(1, 4)) s = "\"" + s; if (g.chance(1, 4)) s = "[" + s + "]"; doc(s, g); V::nontrivial(V::hash_str(s)); }
// every short text over the number alphabet, bare, terminated and inside an array
static void numbers(V::Rng &g, uint64_t idx) { static const char al[] = "-0.e+5E"; uint64_t k = idx; std::string s; int len = 1; uint64_t p = 7; while (k >= p) { k -= p; p *= 7; len++; } for (int i = 0; i < len; i++) { s += al[k % 7]; k /= 7; } doc(s, g); doc("[" + s + "]", g); doc(s + " 1", g); V::nontrivial(V::hash_str(s)); }
// escapes of every interesting UTF-16 unit, alone, in pairs and in triples, bare and inside text
static void surr(V::Rng &g, uint64_t idx) { static const char *U[] = {"0000", "001F", "0022", "005c", "007f", "0080", "07FF", "0800", "d7ff", "D800", "d801", "dBff", "DC00", "dc01", "dFFf", "e000", "fFff"}; auto u = [&](size_t i) { return std::string("\\u") + U[i % 17]; }; std::string s; if (idx < 17) s = u(idx); else if (idx < 17 + 289) s = u((idx - 17) / 17) + u((idx - 17) % 17); else s = u(9 + g.below(8)) + u(9 + g.below(8)) + u(9 + g.below(8)) + (g.chance(1, 2) ? u(g.below(17)) : "x"); doc("\"" + s + "\"", g); doc("{\"" + s + "\":[\"a" + s + "\"]}", g); doc("\"" + s, g); doc("\"" + s.substr(0, s.size() - 1) + "\"", g); V::nontrivial(V::hash_str(s)); }
// long chains of nested containers with empty ones and other members on the way
static void chains(V::Rng &g, uint64_t) { int d = 1 + g.below(60); std::string s = g.chance(1, 2) ? "{}" : g.chance(1, 2) ? "[]" : "1"; static const char *E[] = {"{}", "[]", "1", "\"s\"", "[{}]", "{\"e\":{}}", "null"}; for (int i = 0; i < d; i++) { std::string k = std::string(1, 'a' + g.below(5)); if (g.chance(1, 2)) { std::string b = g.chance(1, 3) ? "\"p" + k + "\":" + E[g.below(7)] + "," : "", e = g.chance(1, 3) ? ",\"q" + k + "\":" + E[g.below(7)] : ""; s = "{" + b + "\"" + k + "\":" + s + e + "}"; } else s = "[" + std::string(g.chance(1, 3) ? std::string(E[g.below(7)]) + "," : "") + s + (g.chance(1, 3) ? "," + std::string(E[g.below(7)]) : "") + "]"; } doc(s, g); V::nontrivial(V::hash_str(s)); }
static void big(V::Rng &g, uint64_t idx) { J j = gen_big(g, idx); small_numbers = true; std::string s = text(j, g); small_numbers = false; uint64_t ok0 = n_ok; if (idx % 6 == 5) { std::string d = V::rand_text(g, 20 + g.below(400), "0123456789"); s = "[" + std::string(g.chance(1, 2) ? "-" : "") + "1" + d + (g.chance(1, 2) ? "." + V::rand_text(g, 1 + g.below(400), "0123456789") : "") + (g.chance(1, 2) ? "e-" + std::to_string(d.size() + g.below(250)) : g.chance(1, 2) ? "e+5" : "") + ",0." + std::string(300 + g.below(40), '0') + "1,12]"; } doc(s, g); if (idx % 6 != 5) VCHECK(n_ok > ok0, "a large well-formed document was not accepted"); doc(s.substr(0, s.size() - 1 - g.below(std::min<size_t>(s.size(), 50))), g); V::nontrivial(V::hash_str(s)); V::count("large documents"); }
static void deep() { struct L { static void *run(void *) { V::Rng g(7); int dp[] = {10, 100, 1000, 100000, 2000000}; for (int d : dp) for (int kind = 0; kind < 3; kind++) { if (d > 100000 && kind) continue; std::string s; for (int i = 0; i < d; i++) s += kind == 0 ? "[" : kind == 1 ? "{\"a\":" : i % 2 ? "[" : "{\"b\":"; s += "1"; for (int i = d; i-- > 0;) s += kind == 0 ? "]" : kind == 1 ? "}" : i % 2 ? "]" : "}"; V::cur("nesting depth " + std::to_string(d) + " kind " + std::to_string(kind)); std::istringstream is(s); json_parser p(is); bool ok = false; try { json j = p.parse(); ok = true; size_t n = 0; json c = j; while (c.type() == json::Array || c.type() == json::Object) { json t = c.type() == json::Array ? c[(size_t)0] : c.begin()->second; c = t; n++; } VEQ((int)n, d, "nesting of a deep document"); } catch (const pfi::lang::parse_error &) { VCHECK(d > 1000, "a document nested " << d << " deep was refused"); } V::count(ok ? "deep documents accepted" : "deep documents refused"); V::eval(); } return 0; } };
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 64u << 20); pthread_t t; pthread_create(&t, &a, L::run, 0); pthread_join(t, 0); }
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("valid documents with random layout and escapes, their truncations, mutations, garbage and every number-like text up to length 4, read through chunked streams by parse() and parse_stream(); outcome, values and event trace are compared with an independent reader; distinct = distinct texts"); deep();
  V::cases("large", 14, 9, big); V::cases("surrogates", 17 + 17 * 17 + 300, 9, surr); V::cases("chains", 3000, 0.4, chains); V::cases("numbers", 7 + 49 + 343 + 2401, 0.5, numbers); V::cases("valid", 30000, 0.7, valid); V::cases("mutated", 60000, 0.88, mutated); V::cases("garbage", 100000, 1, garbage);
  V::count("values accepted", n_ok); V::count("rejected malformed", n_bad); V::count("rejected truncated or empty", n_eof); V::count("rejected UTF-8", n_utf); V::count("rejected out of range", n_range); V::count("event bytes compared", n_events); return V::finish();
}
