#include "common.h"
#include <text/xhtml.h>
#include <network/cgi/xhtml_builder.h>
#include <network/cgi/inserter.h>
#include <network/cgi/tags.h>
#include <network/cgi/xhtml_cgi.h>
using namespace pfi::text::xhtml; using namespace pfi::network::cgi;
static std::atomic<uint64_t> n_elems, n_texts, n_attrs, n_prims, n_docs;
struct N { int k; std::string s; std::map<std::string, std::string> at; std::vector<N> c; N(int kk = 0) : k(kk) {} };  // 0 element 1 text 2 prim
typedef std::vector<N> Ns;
static std::string data(V::Rng &g) { static const std::string al[] = {"<>&\"'", "ab&;#lt3", "</a>\"=", " \n\t\r", std::string("\0\x01\x7f\x80\xff\xe3\x81\x82", 8), "x"}; size_t n = g.chance(1, 10) ? g.below(300) : g.below(9); std::string s = V::rand_text(g, n, al[g.below(6)]); static const char *k[] = {"]]>", "<!--", "-->", "<script>", "&amp;", "&#039;", "&quot;x=\"", "/>", "<?xml?>"}; if (g.chance(1, 4)) s.insert(g.below(s.size() + 1), k[g.below(9)]); return s; }
static N gen(V::Rng &g, int d, int &fuel) { fuel--; int k = d <= 0 ? 1 + g.below(2) : g.below(5); N n(k >= 3 ? 0 : k); if (n.k == 1) { n.s = data(g); n_texts++; return n; } if (n.k == 2) { n_prims++; n.s = "<!--x" + V::rand_text(g, g.below(12), "<>&\"' ab\n") + "-->"; return n; }
  n_elems++; n.s = V::rand_text(g, 1 + g.below(5), "abcxyz:") ; int na = g.below(4); for (int i = 0; i < na; i++) { n.at[V::rand_text(g, 1 + g.below(4), "abcdef-")] = data(g); } n_attrs += n.at.size(); int nc = g.chance(1, 20) ? g.below(40) : g.below(4); for (int i = 0; i < nc && fuel > 0; i++) n.c.push_back(gen(g, d - 1, fuel)); return n; }
typedef pfi::lang::shared_ptr<html_elem> E;
static E direct(const N &n, V::Rng &g) { if (n.k == 1) return E(new text_elem(n.s)); if (n.k == 2) return E(new prim_elem(n.s)); pfi::lang::shared_ptr<tag_elem> t; if (g.chance(1, 2)) t = pfi::lang::shared_ptr<tag_elem>(new tag_elem(n.s, n.at)); else { t = pfi::lang::shared_ptr<tag_elem>(new tag_elem(n.s)); for (auto &a : n.at) (*t)[a.first] = a.second; } for (auto &c : n.c) t->add_child(direct(c, g)); VEQ(t->children().size(), n.c.size(), "children()"); VCHECK(t->attr() == n.at, "attr()"); return t; }
static void build(const N &n, xhtml_builder &builder) { if (n.k == 1) { text__(n.s); return; } if (n.k == 2) { prim__(n.s); return; } tag__(n.s) { for (auto &a : n.at) attr__(a.first) = a.second; for (auto &c : n.c) build(c, builder); } }
struct Page : xhtml_cgi { Ns ns; Page *clone() const { return new Page(*this); } void run() { for (auto &n : ns) build(n, builder); } };
// ---- a small XML reader ----
struct Rd { const std::string &s; size_t p; Rd(const std::string &x) : s(x), p(0) {} int pk() { return p < s.size() ? (unsigned char)s[p] : -1; } void bad(const char *w) { VFAIL("output is not well formed: " << w << " at byte " << p << ": " << V::quote(s, 2000)); } static bool nm(int c) { return isalnum(c) || c == '-' || c == ':' || c == '_'; }
  std::string name() { size_t b = p; while (nm(pk())) p++; if (b == p) bad("name expected"); return s.substr(b, p - b); } bool ws() { size_t b = p; while (pk() == ' ' || pk() == '\n' || pk() == '\t' || pk() == '\r') p++; return p > b; }
  std::string ent() { p++; size_t e = s.find(';', p); if (e == std::string::npos || e - p > 10) bad("stray &"); std::string w = s.substr(p, e - p); p = e + 1; if (w == "amp") return "&"; if (w == "lt") return "<"; if (w == "gt") return ">"; if (w == "quot") return "\""; if (w == "apos") return "'"; if (w[0] == '#') { int v = w[1] == 'x' ? strtol(w.c_str() + 2, 0, 16) : strtol(w.c_str() + 1, 0, 10); return std::string(1, (char)v); } bad("unknown entity"); return ""; }
  void nodes(Ns &o) { for (;;) { int c = pk(); if (c < 0) return; if (c == '<') { if (s.compare(p, 2, "</") == 0) return; if (s.compare(p, 4, "<!--") == 0) { size_t e = s.find("-->", p + 4); if (e == std::string::npos) bad("open comment"); N n(2); n.s = s.substr(p, e + 3 - p); p = e + 3; o.push_back(n); continue; } p++; N n(0); n.s = name();
        for (;;) { bool w = ws(); if (pk() == '>') { p++; break; } if (pk() == '/') { p++; if (pk() != '>') bad("/ in a tag"); p++; o.push_back(n); goto next; } if (!w) bad("white space expected before an attribute"); std::string a = name(), v; if (pk() == '=') { p++; if (pk() != '"') bad("quote expected"); p++; for (;;) { int d = pk(); if (d < 0) bad("open attribute"); if (d == '"') { p++; break; } if (d == '<') bad("< in an attribute"); if (d == '&') v += ent(); else { v += (char)d; p++; } } } if (n.at.count(a)) bad("duplicate attribute"); n.at[a] = v; }
        nodes(n.c); if (s.compare(p, 2, "</") != 0) bad("end tag expected"); p += 2; if (name() != n.s) bad("end tag of another element"); ws(); if (pk() != '>') bad("> expected"); p++; o.push_back(n); next:; continue; }
      std::string t; while ((c = pk()) >= 0 && c != '<') { if (c == '&') t += ent(); else if (c == '>') { bad("raw > in text"); } else { t += (char)c; p++; } } N n(1); n.s = t; o.push_back(n); } } };
static Ns norm(const Ns &in) { Ns o; for (auto &n : in) { if (n.k == 1) { if (n.s.empty()) continue; if (!o.empty() && o.back().k == 1) { o.back().s += n.s; continue; } o.push_back(n); } else { N m = n; m.c = norm(n.c); o.push_back(m); } } return o; }
static bool same(const Ns &a, const Ns &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].k != b[i].k || a[i].s != b[i].s || a[i].at != b[i].at || !same(a[i].c, b[i].c)) return false; return true; }
static void check(const Ns &want, const std::string &out, const char *how) { n_docs++; V::cur(std::string(how) + " output " + V::quote(out, 8000)); Ns got; Rd r(out); r.nodes(got); VCHECK(r.p == out.size(), how << ": an end tag without start at byte " << r.p << " of " << V::quote(out, 2000)); VCHECK(same(norm(want), norm(got)), how << ": the output parses to another tree: " << V::quote(out, 3000)); }
static void one(V::Rng &g, uint64_t idx) {
  int fuel = 1 + g.below(30), roots = 1 + g.below(3); Ns ns; for (int i = 0; i < roots; i++) ns.push_back(gen(g, g.below(6), fuel));
  { std::string o, q; for (auto &n : ns) { E e = direct(n, g); std::ostringstream a, b; e->render(a); e->pretty(b); o += a.str(); q += b.str(); } check(ns, o, "render"); check(ns, q, "pretty"); if (idx < 4) V::sample(V::quote(o, 300)); V::nontrivial(V::hash_str(o)); }
  { xhtml_builder b; for (auto &n : ns) build(n, b); std::ostringstream a; VEQ(b.get().size(), ns.size(), "top-level elements of the builder"); for (auto &e : b.get()) e->render(a); check(ns, a.str(), "builder"); }
  { Page p; p.ns = ns; for (int rep = 0; rep < 2; rep++) { std::ostringstream a; p.xhtml_cgi::run(a); std::string o = a.str(); size_t at = o.find("?>\n"); VCHECK(o.compare(0, 5, "<?xml") == 0 && at != std::string::npos, "page does not start with the XML declaration"); o = o.substr(at + 3); VCHECK(o.compare(0, 9, "<!DOCTYPE") == 0 && o.find(">\n") != std::string::npos, "doctype missing"); o = o.substr(o.find(">\n") + 2); VCHECK(!o.empty() && o[o.size() - 1] == '\n', "page does not end with a newline"); o.erase(o.size() - 1); check(ns, o, "page"); } }
  std::string d = data(g), e = html_encode(d), back; { V::cur("html_encode " + V::quote(d)); Rd r(e); Ns o; r.nodes(o); Ns w; N t(1); t.s = d; w.push_back(t); VCHECK(r.p == e.size() && same(norm(w), norm(o)), "html_encode(" << V::quote(d) << ") = " << V::quote(e)); VCHECK(e.find_first_of("<>\"'") == std::string::npos, "html_encode left a markup character: " << V::quote(e)); }
  { std::string raw = data(g); std::ostringstream a, b; prim_elem pe(raw); pe.render(a); ((html_elem &)pe).pretty(b); VCHECK(a.str() == raw && b.str() == raw, "a primitive is not verbatim: " << V::quote(a.str())); }
}
static void large(V::Rng &g, uint64_t idx) {
  static const size_t K[] = {257, 1025, 4097, 16385, 65537, 100003}; size_t n = K[idx / 5 % 6]; N r(0); r.s = "root"; auto text = [&](size_t m) { std::string s; while (s.size() < m) s += data(g) + "ab<&"; return s; };
  switch (idx % 5) { case 0: { N t(1); t.s = text(n); r.c.push_back(t); break; } case 1: r.at["a"] = text(n); r.at["b"] = "x"; break; case 2: for (size_t i = 0; i < std::min<size_t>(n, 20000); i++) { N c(i % 3 ? 1 : 0); c.s = i % 3 ? "t<" + std::to_string(i) : "e"; r.c.push_back(c); } break; case 3: for (size_t i = 0; i < std::min<size_t>(n, 5000); i++) r.at["a" + std::to_string(i)] = "<" + std::to_string(i) + "\""; break; default: for (size_t i = 0; i < std::min<size_t>(n / 16, 1000); i++) { N p(0); p.s = "d"; N t(1); t.s = "x&" + std::to_string(i); p.c.push_back(t); p.c.push_back(r); p.c.push_back(t); r = p; } }
  Ns ns(1, r); { E e = direct(r, g); std::ostringstream a, b; e->render(a); e->pretty(b); V::tick(); check(ns, a.str(), "render"); check(ns, b.str(), "pretty"); V::nontrivial(V::hash_str(a.str())); } { xhtml_builder b; build(r, b); std::ostringstream a; for (auto &e : b.get()) e->render(a); check(ns, a.str(), "builder"); } V::count("large documents"); }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("random element trees with hostile text and attribute bytes rendered by render, pretty, the builder DSL and xhtml_cgi, read back by an independent XML reader and compared; distinct = distinct outputs"); V::cases("large", 20, 9, large); V::cases("trees", 40000, 1, one); V::count("elements", n_elems); V::count("texts", n_texts); V::count("attributes", n_attrs); V::count("primitives", n_prims); V::count("documents parsed", n_docs); return V::finish(); }
