#include "common.h"
#include <text/csv.h>
#include <list>
using namespace pfi::text;
typedef std::vector<std::string> Row; typedef std::vector<Row> Table;
static std::atomic<uint64_t> n_fields, n_quoted, n_rows, n_mal, n_derefs; static size_t max_row;
// An input iterator that reports any access at or beyond the end of the range.
struct Chk { typedef std::forward_iterator_tag iterator_category; typedef char value_type; typedef ptrdiff_t difference_type; typedef const char *pointer; typedef const char &reference;
  const std::string *s; size_t i; Chk() : s(0), i(0) {} Chk(const std::string &x, size_t k) : s(&x), i(k) {}
  const char &operator*() const { n_derefs++; VCHECK(i < s->size(), "the parser reads at the end of its input"); return (*s)[i]; }
  Chk &operator++() { VCHECK(i < s->size(), "the parser moves past the end of its input"); ++i; return *this; } Chk operator++(int) { Chk t = *this; ++*this; return t; }
  bool operator==(const Chk &o) const { return i == o.i; } bool operator!=(const Chk &o) const { return i != o.i; } };
static Row conv(const csv_parser::row_type &r) { return Row(r.begin(), r.end()); }
static Table by_next(csv_parser c, size_t limit) { Table t; while (c.next()) { VCHECK(!c.end(), "end() after a row"); t.push_back(conv(c.get())); VCHECK(t.size() <= limit, "more rows than the input can hold"); } VCHECK(c.end(), "end() is false after the last row"); VCHECK(!c.next(), "next() after the end"); return t; }
static Table by_iter(csv_parser c, V::Rng &g, size_t limit) {
  Table t; int mode = g.below(4); std::vector<csv_iterator> kept; csv_iterator p(c), q;
  while (p != q) {
    VCHECK(!(p == q), "== and != of iterators disagree"); VCHECK(t.size() <= limit, "more rows than the input can hold");
    if (mode == 0) { t.push_back(conv(*p)); ++p; }
    else if (mode == 1) { csv_iterator o = p++; t.push_back(Row(o->begin(), o->end())); if (kept.size() < 5) kept.push_back(o); }
    else if (mode == 3) { csv_iterator o(p); t.push_back(conv(*o)); VCHECK(conv(*o) == t.back(), "an iterator shows two rows"); ++o; if (o != q) conv(*o); p = o; }
    else { csv_iterator o(p), o2; o2 = o; if (kept.size() < 5) kept.push_back(o2); t.push_back(conv(*p)); ++p; VCHECK(conv(*o2) == t.back(), "a copied iterator changed when the original advanced"); }
  }
  for (size_t i = 0; i < kept.size(); i++) VCHECK(conv(*kept[i]) == t[i], "a kept copy of iterator " << i << " shows another row");
  return t;
}
static std::string show(const Table &t) { std::string o; for (auto &r : t) { o += "["; for (auto &f : r) o += V::quote(f, 60) + ","; o += "]"; } return o.substr(0, 1500); }
// every way of supplying and of reading must give the same table
static Table parse_all(const std::string &s, V::Rng &g) {
  size_t lim = s.size() + 1; Table a = by_next(csv_parser(s), lim); std::unique_ptr<char[]> heap(new char[s.size()]); memcpy(heap.get(), s.data(), s.size());
  Table b = by_next(csv_parser((const char *)heap.get(), (const char *)heap.get() + s.size()), lim); VCHECK(a == b, "string and pointer range differ: " << show(a) << " / " << show(b));
  Table c = by_next(csv_parser(Chk(s, 0), Chk(s, s.size())), lim); VCHECK(a == c, "string and iterator pair differ: " << show(a) << " / " << show(c));
  { std::istringstream is(s); Table d = by_next(csv_parser(is), lim); VCHECK(a == d, "string and stream differ: " << show(a) << " / " << show(d)); }
  { Table e = by_iter(csv_parser(s), g, lim); VCHECK(a == e, "next() and csv_iterator differ: " << show(a) << " / " << show(e)); }
  { std::istringstream is(s); Table e = by_iter(csv_parser(is), g, lim); VCHECK(a == e, "next() and csv_iterator over a stream differ: " << show(a) << " / " << show(e)); }
  { Table e; parse_csv(s, e); VCHECK(a == e, "next() and parse_csv differ: " << show(a) << " / " << show(e)); }
  return a;
}
static std::string field(V::Rng &g, bool big) {
  static const std::string al[] = {"ab", "\",\r\n a", "\"", ",\"x", "\n\r\"", std::string("\x01\xff\x80\x7f\xe3\x81\x82;\t ", 10)};
  size_t n = big ? (g.chance(1, 2) ? (size_t)1024 * (1 << g.below(3)) - 4 + g.below(8) : g.below(3000)) : g.below(g.chance(1, 4) ? 40 : 6);
  return V::rand_text(g, n, al[g.below(6)]);
}
static void wellformed_t(V::Rng &g, uint64_t idx, Table t) {
  int rows = 1 + g.below(g.chance(1, 5) ? 30 : 5), cols = 1 + g.below(6); bool ragged = g.chance(1, 3), big = g.chance(1, 4);
  if (t.empty()) for (int r = 0; r < rows; r++) { Row w; int n = ragged ? 1 + g.below(7) : cols; for (int c = 0; c < n; c++) w.push_back(field(g, big && g.chance(1, 3)));
    if (big && g.chance(1, 2)) { size_t sum = 0; for (auto &f : w) sum += f.size() + 1; size_t target = 1024; while (target < sum + 2) target *= 2; std::string pad(target - sum - g.below(3), 'p'); w.insert(w.begin() + g.below(w.size() + 1), pad); }  // row text around a power-of-two buffer size
    t.push_back(w); }
  std::string out; const char *eol = g.chance(1, 2) ? "\r\n" : "\n"; int qmode = g.below(3);
  for (size_t r = 0; r < t.size(); r++) { size_t rowlen = 0;
    for (size_t c = 0; c < t[r].size(); c++) { const std::string &f = t[r][c]; n_fields++; rowlen += f.size() + 1; if (c) out += ",";
      bool need = f.find_first_of(",\r\n\"") != std::string::npos || (r + 1 == t.size() && t[r].size() == 1 && f.empty());
      if (need || qmode == 1 || (qmode == 2 && g.chance(1, 2))) { n_quoted++; out += '"'; for (char ch : f) { if (ch == '"') out += '"'; out += ch; } out += '"'; } else out += f; }
    n_rows++; max_row = std::max(max_row, rowlen);
    if (r + 1 < t.size() || g.chance(1, 2)) out += g.chance(1, 8) ? "\n" : eol; }
  V::cur("csv text " + V::quote(out, 6000)); Table got = parse_all(out, g); VCHECK(got == t, "parsed " << show(got) << " expected " << show(t));
  V::nontrivial(V::hash_str(out)); if (idx < 4) V::sample(V::quote(out, 200));
}
static void wellformed(V::Rng &g, uint64_t idx) { wellformed_t(g, idx, Table()); }
// long fields, wide rows, many rows
static void large(V::Rng &g, uint64_t idx) { static const size_t K[] = {8191, 16384, 32769, 65535, 65537, 140001}; size_t n = K[idx / 4 % 6]; Table t; V::count("large tables");
  switch (idx % 4) { case 0: t.push_back({"a", V::rand_text(g, n, "ab\",\n x"), "b"}); t.push_back({"c", V::rand_text(g, 2 * n, "xyz"), ""}); break; case 1: { Row r; for (size_t i = 0; i < n / 4; i++) r.push_back(i % 7 ? std::to_string(i) : i % 2 ? "" : "q\"" + std::to_string(i)); t.push_back(r); t.push_back({"next"}); t.push_back(r); break; } case 2: for (size_t i = 0; i < n / 8; i++) t.push_back({std::to_string(i), i % 5 ? "v" : "v\n,", ""}); break; default: t.push_back({V::rand_text(g, n, "\"")}); t.push_back({V::rand_text(g, n, "\n")}); }
  wellformed_t(g, 99, t); }
static void malformed(V::Rng &g, uint64_t idx) {
  static const std::string al[] = {"\",\n", "\",\r\na", "a\r", "\"\"\"a,", "ab,\n"}; std::string s;
  if (idx < 6 + 36 + 216 + 1296) { uint64_t k = idx; int len = 1; uint64_t p = 6; while (k >= p) { k -= p; p *= 6; len++; } for (int i = 0; i < len; i++) { s += "\",\r\nab"[k % 6]; k /= 6; } }  // all short strings
  else { s = V::rand_text(g, g.below(g.chance(1, 5) ? 3000 : 30), al[g.below(5)]); if (g.chance(1, 5)) s += "\"" + std::string(1020 + g.below(1030), 'x'); }
  V::cur("csv garbage " + V::quote(s, 6000)); n_mal++; parse_all(s, g); V::nontrivial(V::hash_str(s) ^ 5);
}
int main(int argc, char **argv) {
  V::init(argc, argv, 20); V::rule("random tables written as CSV (LF/CRLF, optional quoting, rows sized around powers of two) parsed through all constructors and both interfaces and compared; all strings up to length 4 over \",CR LF a b and random garbage read through a range-checking iterator; distinct = distinct texts");
  V::cases("large", 24, 9, large); V::cases("malformed", 12000, 0.7, malformed); V::cases("wellformed", 20000, 1, wellformed);
  V::count("rows", n_rows); V::count("fields", n_fields); V::count("quoted fields", n_quoted); V::count("garbage inputs", n_mal); V::count("range-checked reads", n_derefs); V::count("longest row bytes", max_row);
  return V::finish();
}
