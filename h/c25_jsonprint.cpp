#include "json_ref.h"
using namespace JR; using namespace pfi::text::json;
static std::atomic<uint64_t> n_prints, n_nodes, n_floats, n_nul;
// what a value is expected to be after print and parse: floats keep 12 significant digits, integral ones may come back as integers
static J expect(const J &j) { J r = j; n_nodes++; if (j.t == Str && j.s.find('\0') != std::string::npos) n_nul++;
  if (j.t == Flt) { n_floats++; char b[64]; snprintf(b, sizeof b, "%.12g", j.d); if (strpbrk(b, ".e")) r.d = strtod(b, 0); else { r.t = Int; r.i = strtoll(b, 0, 10); } } for (auto &x : r.a) x = expect(x); for (auto &x : r.o) x.second = expect(x.second); return r; }
static bool same_num(const J &a, const J &b);  // like same, a float and an integer of equal value being equal
static bool same_num(const J &a, const J &b) { if ((a.t == Int && b.t == Flt) || (a.t == Flt && b.t == Int)) return (a.t == Int ? (double)a.i : a.d) == (b.t == Int ? (double)b.i : b.d); if (a.t != b.t) return false; if (a.t == Flt) return fabs(a.d - b.d) <= 1e-11 * fabs(a.d); if (a.t == Arr) { if (a.a.size() != b.a.size()) return false; for (size_t k = 0; k < a.a.size(); k++) if (!same_num(a.a[k], b.a[k])) return false; return true; } if (a.t == Obj) { if (a.o.size() != b.o.size()) return false; for (auto p = a.o.begin(), q = b.o.begin(); p != a.o.end(); ++p, ++q) if (p->first != q->first || !same_num(p->second, q->second)) return false; return true; } return same(a, b); }
static std::string print(const json &j, int mode) { std::ostringstream o; o.precision(7); switch (mode) { case 0: o << j; break; case 1: o << pretty(j); break; case 2: o << without_escape(j); break; case 3: o << pretty(without_escape(j)); break; case 4: o << without_escape(pretty(j)); break; case 5: j.print(o, true); break; case 6: j.pretty(o, true); break; case 7: j.print(o, false); break; default: j.pretty(o, false); } VEQ(o.precision(), 7, "printing left the stream's precision changed"); n_prints++; return o.str(); }
static void value(V::Rng &g, uint64_t idx, const J &j, int mode) {
  V::cur(show(j)); json lj = to_lib(j); J want = expect(j); VCHECK(same(from_lib(lj), j), "a value built through the handles reads back differently");
  std::string txt = print(lj, mode); V::cur("mode " + std::to_string(mode) + " text " + V::quote(txt, 8000) + " value " + show(j));
  bool esc = !(mode == 2 || mode == 3 || mode == 4 || mode == 7 || mode == 8); if (esc) for (char c : txt) VCHECK((unsigned char)c < 0x80, "escaped output contains a non-ASCII byte");
  J ref; try { Reader r(txt, 0, false); ref = r.value(); r.ws(); VCHECK(r.end(), "text after the printed value: " << V::quote(txt.substr(r.p))); } catch (...) { VFAIL("printed text is not RFC 4627 JSON: " << V::quote(txt, 4000)); }
  VCHECK(same_num(want, ref), "printed text denotes " << show(ref) << " expected " << show(want));
  J back; try { std::istringstream is(txt); json b; is >> b; back = from_lib(b); json c = json(); VCHECK(b == b.clone(), "a value differs from its clone"); } catch (const std::exception &e) { VFAIL("the library cannot read what it printed (" << e.what() << "): " << V::quote(txt, 4000)); }
  VCHECK(same(back, ref), "the library reads its own output as " << show(back) << ", a reference reader as " << show(ref));
  // several values on one stream
  if (g.chance(1, 3)) { int n = 2 + g.below(4); std::string all; std::vector<J> vs; for (int k = 0; k < n; k++) { int f = 6; J v = gen(g, 3, f); all += print(to_lib(v), g.below(9)); all += g.chance(1, 2) ? "\n" : " "; vs.push_back(v); }
    V::cur("stream " + V::quote(all, 8000)); std::istringstream is(all); json_parser ps(is); bool viaop = g.chance(1, 2); for (int k = 0; k < n; k++) { json b; try { if (viaop) is >> b; else b = ps.parse(); } catch (const std::exception &e) { VFAIL("value " << k << " of " << n << " on one stream: " << e.what()); } VCHECK(same_num(expect(vs[k]), from_lib(b)), "value " << k << " on one stream came back as " << show(from_lib(b)) << " expected " << show(vs[k])); }
    bool eod = false; json b; try { if (viaop) is >> b; else b = ps.parse(); } catch (const pfi::lang::end_of_data &) { eod = true; } catch (const std::exception &e) { VFAIL("after the last value: " << e.what()); } VCHECK(eod, "a value was read after the last one"); V::count("multi-value streams"); }
  V::nontrivial(V::hash_str(txt)); if (idx < 4) V::sample(V::quote(txt, 300));
}
static void one(V::Rng &g, uint64_t idx) { int fuel = 1 + g.below(g.chance(1, 10) ? 400 : 40); J j = gen(g, g.chance(1, 10) ? 40 : 6, fuel); value(g, idx, j, g.below(9)); }
static void big(V::Rng &g, uint64_t idx) { J j = gen_big(g, idx); value(g, 99, j, idx % 9); V::count("large documents"); }
static void nonfinite() { double k[] = {INFINITY, -INFINITY, NAN}; for (double d : k) { bool t = false; try { json j(new json_float(d)); } catch (const std::bad_cast &) { t = true; } VCHECK(t, "a non-finite number has no JSON form and must be refused"); } }
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("random JSON values printed in every mode; the text is read by an independent strict reader and by the library and both are compared with the value; distinct = distinct texts"); nonfinite();
  V::cases("large", 20, 9, big); V::cases("values", 60000, 1, one); V::count("printed documents", n_prints); V::count("nodes", n_nodes); V::count("floats", n_floats); V::count("strings with NUL", n_nul); return V::finish();
}
