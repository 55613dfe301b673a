#include "common.h"
#include <system/sysstat.h>
#include <data/sparse_matrix/sparse_matrix.h>
using namespace pfi::data::sparse_matrix;
typedef std::vector<std::map<int, unsigned char> > Dense;
static uint64_t g_free; static std::atomic<uint64_t> n_rows, n_cells, n_trans, n_split, n_reopen;
// the transposition splits its work by the free memory reported here
static int g_stat_ret = 0;
extern "C" int __wrap__ZN3pfi6system7sysstat11get_sysstatERNS1_11sysstat_retE(pfi::system::sysstat::sysstat_ret &s) { s.loadavg = 0; s.total_memory = 1ULL << 34; s.free_memory = g_free; return g_stat_ret; }
static std::string dir() { const char *e = getenv("VH_SCRATCH"); return e ? e : "."; }
static void read_check(const std::string &fn, const Dense &d, V::Rng &g, const std::string &ctx, sparse_matrix_reader &r) {
  VEQ(r.open(fn), 0, "open " << ctx); VEQ(r.row_num(), (int)d.size(), "rows of " << ctx);
  std::vector<int> order; for (size_t i = 0; i < d.size(); i++) order.push_back(i); if (g.chance(1, 2)) g.shuffle(order); std::vector<std::pair<int, unsigned char> > v;
  for (int i : order) {
    VEQ(r.get_row_size(i), (int)d[i].size(), "non-zero count of row " << i << " of " << ctx); VEQ(r.get_row_nonzero_value_num(i), (int)d[i].size(), "non-zero count of row " << i << " of " << ctx);
    r.get_row(i, v); std::vector<std::pair<int, unsigned char> > w(d[i].begin(), d[i].end()); VCHECK(v == w, "row " << i << " of " << ctx << " differs from the dense matrix");
    if (g.chance(1, 3)) { std::map<int, unsigned char> m; r.get_row(i, m); VCHECK(m == d[i], "row " << i << " (map) of " << ctx); pfi::data::unordered_map<int, unsigned char> u; r.get_row(i, u); VCHECK((std::map<int, unsigned char>(u.begin(), u.end()) == d[i]), "row " << i << " (hash map) of " << ctx); }
    n_rows++; n_cells += w.size();
  }
}
static void write(const std::string &fn, const Dense &d, V::Rng &g, sparse_matrix_writer &w) { VEQ(w.open(fn), 0, "open for writing"); int n = 0; for (auto &row : d) { if (g.chance(1, 2)) w.append_row(row); else w.append_row(std::vector<std::pair<int, unsigned char> >(row.begin(), row.end())); VEQ(w.row_num(), ++n, "rows written"); } w.close(); }
static Dense transpose(const Dense &d) { Dense t; for (size_t i = 0; i < d.size(); i++) for (auto &c : d[i]) { if ((int)t.size() <= c.first) t.resize(c.first + 1); t[c.first][i] = c.second; } return t; }
static void one(V::Rng &g, uint64_t idx) {
  static const size_t BIG[] = {127, 128, 129, 300, 16383, 16384, 16385, 40000, 70000}; size_t big = idx < 9 ? BIG[idx] : 0; if (big) V::count("large rows"); int rows = big ? (idx % 3 == 0 ? 3000 : 3) : g.chance(1, 10) ? 0 : 1 + g.below(30), wide = g.chance(1, 5) ? 300000000 : g.chance(1, 2) ? 20 : 400, dens = g.below(12); Dense d(rows); bool huge = wide > 1000;
  size_t ri = 0; for (auto &r : d) { ri++; if (big && ri == 2) { for (size_t i = 0; i < big; i++) r[huge ? (int)g.below(wide) : (int)i * (idx % 2 + 1)] = 1 + g.below(255); } int n = g.below(dens + 1); for (int i = 0; i < n; i++) { int c = g.chance(1, 4) ? (1 << g.below(huge ? 30 : 8)) + (int)g.range(-1, 1) : (int)g.below(wide); if (c >= 0) r[c] = 1 + g.below(255); } }
  std::ostringstream o; o << rows << " rows, columns < " << wide << ", density " << dens << " case " << idx; std::string ctx = o.str(), fn = dir() + "/m"; V::cur(ctx);
  static sparse_matrix_writer kept_w; static sparse_matrix_reader kept_r; sparse_matrix_writer w2; sparse_matrix_reader r2; bool keep = g.chance(1, 2); if (keep) n_reopen++; sparse_matrix_writer &w = keep ? kept_w : w2; sparse_matrix_reader &r = keep ? kept_r : r2;
  write(fn, d, g, w); read_check(fn, d, g, ctx, r); if (g.chance(1, 3)) { r.close(); VEQ(r.row_num(), 0, "closed reader"); read_check(fn, d, g, ctx + " (reopened)", r); }
  // out-of-range rows are reported and leave the output alone
  { std::vector<std::pair<int, unsigned char> > v(1, std::make_pair(7, (unsigned char)7)); r.get_row(rows, v); VCHECK(v.size() == 1 && v[0].first == 7, "row past the end"); VEQ(r.get_row_size(rows + (int)g.below(5)), -1, "row past the end"); }
  if (!huge) {
    uint64_t total = 0; for (auto &x : d) total += x.size(); g_free = g.chance(1, 2) ? 1ULL << 33 : 20 * (1 + g.below(total + 2)); if (g_free < 1ULL << 33) n_split++;
    VEQ(matrix_transpose(fn, fn + "T"), 0, "transpose " << ctx); Dense t = transpose(d); read_check(fn + "T", t, g, ctx + " transposed", r); g_free = g.chance(1, 2) ? 1ULL << 33 : 20 * (1 + g.below(total + 2)); VEQ(matrix_transpose(fn + "T", fn + "TT"), 0, "transpose back"); Dense tt = d; while (tt.size() && tt.back().empty()) tt.pop_back(); read_check(fn + "TT", tt, g, ctx + " transposed twice", r); n_trans += 2;
  }
  r.close(); V::nontrivial(V::hash_str(ctx)); if (idx < 3) V::sample(ctx);
}
static Dense small(V::Rng &g) { Dense d(1 + g.below(9)); for (auto &r : d) for (int k = g.below(5); k > 0; k--) r[g.below(50)] = 1 + g.below(255); return d; }
// one writer for several files without an explicit close in between; failures are reported and harm nothing
static void several(V::Rng &g, uint64_t idx) {
  V::cur("several files by one writer"); sparse_matrix_writer w; sparse_matrix_reader r; int n = 2 + g.below(3); std::vector<Dense> ds; g_free = 1ULL << 33;
  for (int i = 0; i < n; i++) { Dense d = small(g); VEQ(w.open(dir() + "/s" + std::to_string(i)), 0, "open"); for (auto &row : d) w.append_row(row); VEQ(w.row_num(), (int)d.size(), "rows of the file being written"); ds.push_back(d); if (g.chance(1, 3)) { w.close(); w.append_row(d[0]); } }
  w.close(); for (int i = 0; i < n; i++) read_check(dir() + "/s" + std::to_string(i), ds[i], g, "file " + std::to_string(i) + " of one writer", r);
  VCHECK(w.open(dir() + "/no/such/dir/x") < 0, "opening a file in a missing directory succeeded"); VCHECK(r.open(dir() + "/missing") < 0, "opening a missing matrix succeeded"); VEQ(r.row_num(), 0, "rows of a matrix that could not be opened"); { std::vector<std::pair<int, unsigned char> > v; r.get_row(0, v); VCHECK(v.empty(), "row of a matrix that could not be opened"); }
  VCHECK(matrix_transpose(dir() + "/missing", dir() + "/mT") < 0, "transposing a missing matrix succeeded"); VCHECK(matrix_transpose(dir() + "/s0", dir() + "/no/such/dir/x") < 0, "transposing to a missing directory succeeded"); g_stat_ret = -1; VCHECK(matrix_transpose(dir() + "/s0", dir() + "/sT") < 0, "transposing without a memory figure succeeded"); g_stat_ret = 0;
  VEQ(w.open(dir() + "/s0b"), 0, "open after a failed open"); for (auto &row : ds[0]) w.append_row(row); w.close(); read_check(dir() + "/s0b", ds[0], g, "file written after a failed open", r); VEQ(matrix_transpose(dir() + "/s0b", dir() + "/sT"), 0, "transpose"); read_check(dir() + "/sT", transpose(ds[0]), g, "transposed after failures", r); r.close(); n_trans++; V::nontrivial(g.u64());
}
int main(int argc, char **argv) {
  V::init(argc, argv); FILE *sav = freopen("/dev/null", "w", stdout); (void)sav;
  V::rule("random matrices written, read back row by row in random order through all three row forms, transposed once and twice with the memory-driven column split forced to random sizes, all against a dense model; distinct = distinct matrices");
  // the library narrates on stderr: keep it out of the report but keep sanitizer output
  V::cases("several files", 40, 9, several); V::cases("matrices", 3000, 1, one);
  V::count("rows compared", n_rows); V::count("cells compared", n_cells); V::count("transpositions", n_trans); V::count("transpositions with forced splits", n_split); V::count("reused reader/writer objects", n_reopen);
  return V::finish();
}
