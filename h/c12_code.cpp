#include "common.h"
#include <new>
#include <data/code/code.h>
using namespace pfi::data::code;
struct Op { int kind; unsigned v, k; };  // 0 byte 1 word 2 gamma 3 delta 4 rice 5 prefix
static const char *const N[] = {"byte", "word", "gamma", "delta", "rice", "prefix"};
static unsigned rnd_v(V::Rng &g) {
  switch (g.below(5)) { case 0: return g.below(4); case 1: return (1u << g.below(32)) + (int)g.range(-1, 1); case 2: return g.u32() >> g.below(32); case 3: return ~0u - g.below(3); default: return g.below(300); }
}
static std::string show(const std::vector<Op> &ops) { std::ostringstream o; for (auto &p : ops) { o << N[p.kind] << "(" << p.v; if (p.kind == 1 || p.kind == 4) o << "," << p.k; o << ") "; } return o.str(); }
// reference bit stream: LSB-first bits; byte-aligned codes start on a fresh byte
struct Ref {
  std::vector<bool> b;
  void bits(uint64_t v, unsigned n) { for (unsigned i = 0; i < n; i++) b.push_back(v >> i & 1); }
  void align() { while (b.size() & 7) b.push_back(0); }
  static unsigned msb(uint64_t v) { unsigned r = 0; while (v >>= 1) r++; return r; }
  void gamma(uint64_t v) { unsigned m = msb(v); bits(0, m); bits(1, 1); bits(v, m); }
  void delta(uint64_t v) { unsigned m = msb(v); gamma(m + 1); bits(v, m); }
  void op(const Op &p) {
    switch (p.kind) {
    case 0: align(); bits(p.v, 8); break;
    case 1: bits(p.v, p.k); break;
    case 2: gamma(p.v); break;
    case 3: delta(p.v); break;
    case 4: delta((uint64_t)(p.v >> p.k) + 1); bits(p.v, p.k); break;
    case 5: { align(); unsigned v = p.v; while (v >= 128) { bits(v & 127, 8); v >>= 7; } bits(v + 128, 8); break; }
    }
  }
  std::string bytes() { align(); std::string s(b.size() / 8, 0); for (size_t i = 0; i < b.size(); i++) if (b[i]) s[i / 8] |= 1 << (i & 7); return s; }
};
static std::string scratch() { const char *e = getenv("VH_SCRATCH"); return e ? e : "."; }
static std::atomic<uint64_t> n_ops, n_file, n_stream, n_buf, n_seek, n_reuse, n_big;
static void encode(encoder &e, const Op &p) { switch (p.kind) { case 0: e.byte(p.v); break; case 1: e.word_with_length(p.v, p.k); break; case 2: e.gamma(p.v); break; case 3: e.delta(p.v); break; case 4: e.rice(p.v, p.k); break; case 5: e.prefix_code(p.v); break; } }
static unsigned decode(decoder &d, const Op &p) { switch (p.kind) { case 0: return d.byte(); case 1: return d.word_with_length(p.k); case 2: return d.gamma(); case 3: return d.delta(); case 4: return d.rice(p.k); default: return d.prefix_code(); } }
static decoder old;  // used again for other data, also in the middle of a byte
static void stream(V::Rng &g, uint64_t idx) {
  unsigned mask = g.chance(1, 4) ? 1u << g.below(6) : 1 + g.below(63); int n = V::rand_len(g, 200);
  std::vector<Op> ops; for (int i = 0; i < n; i++) {
    Op p; do p.kind = g.below(6); while (!(mask >> p.kind & 1)); p.v = rnd_v(g); p.k = 0;
    if (p.kind == 0) p.v &= 255; if (p.kind == 1) { p.k = g.chance(1, 4) ? 32 - g.below(3) : g.below(33); if (g.chance(3, 4) && p.k < 32) p.v &= (1u << p.k) - 1; }
    if ((p.kind == 2 || p.kind == 3) && p.v == 0) p.v = 1; if (p.kind == 4) { p.k = g.below(32); if ((p.v >> p.k) == ~0u) p.v--; }
    ops.push_back(p);
  }
  V::cur(show(ops)); encoder e; Ref ref; std::vector<size_t> at;
  int rounds = 1 + g.chance(1, 5);  // an encoder is reusable after flush
  for (int rd = 0; rd < rounds; rd++) {
    ref = Ref(); at.clear(); for (auto &p : ops) { if (p.kind == 0 || p.kind == 5) ref.align(); at.push_back(ref.b.size()); encode(e, p); ref.op(p); }
    std::string want = ref.bytes(); std::vector<unsigned char> &got = e.get_bytes();
    VCHECK(std::string(got.begin(), got.end()) == want, "encoded bytes " << V::quote(std::string(got.begin(), got.end())) << " are not the code's bits " << V::quote(want) << " for " << show(ops));
    decoder fresh; if (g.chance(1, 8)) { old.~decoder(); new (&old) decoder; } decoder &d = g.chance(1, 2) ? old : fresh; if (g.chance(1, 2)) d.detach(); VCHECK(!fresh.is_open(), "fresh decoder"); int how = g.below(3); std::vector<unsigned char> buf;
    if (how == 0) { std::string fn = scratch() + "/code.bin"; VEQ(e.flush(fn), (int)want.size(), "flush"); VCHECK(d.attach(fn) == 0, "attach file"); n_file++; }
    else if (how == 1) { std::ostringstream os; VEQ(e.flush(os), (int)want.size(), "flush"); VCHECK(os.str() == want, "flushed bytes"); std::istringstream is(os.str()); VCHECK(d.attach(is, want.size()) == 0, "attach"); n_stream++; }
    else { buf.assign(want.begin(), want.end()); buf.resize(buf.size() + 8); std::ostringstream os; e.flush(os); VCHECK(d.attach(&buf[0]) == 0, "attach"); n_buf++; }
    VCHECK(e.get_bytes().empty(), "flush empties the encoder"); VCHECK(d.is_open(), "attached");
    for (size_t i = 0; i < ops.size(); i++) {
      unsigned w = ops[i].v; if (ops[i].kind == 1 && ops[i].k < 32) w &= (1u << ops[i].k) - 1;
      unsigned r = decode(d, ops[i]); n_ops++;
      VCHECK(r == w, "value " << i << ": decoded " << r << " instead of " << w << " from " << show(ops));
    }
    // random access: any position a code starts at
    for (int k = 0; k < 5 && n; k++) { size_t i = g.below(n); d.seek(at[i] / 8, at[i] % 8); unsigned w = ops[i].v; if (ops[i].kind == 1 && ops[i].k < 32) w &= (1u << ops[i].k) - 1; unsigned r = decode(d, ops[i]); VCHECK(r == w, "after seek to code " << i << ": decoded " << r << " instead of " << w << " from " << show(ops)); n_seek++; }
    if (how == 2 || g.chance(1, 2)) { d.detach(); VCHECK(!d.is_open(), "detached"); } if (&d == &old) n_reuse++;
  }
  V::nontrivial(V::hash_str(show(ops))); if (idx < 3) V::sample(show(ops));
}
// every value of one code around every power of two, at each of the 8 bit alignments
static void sweep(V::Rng &, uint64_t i) {
  int kind = 1 + i % 4; unsigned sh = (i / 4) % 8, bit = (i / 32) % 32;
  for (int d = -2; d <= 2; d++) for (unsigned k = 0; k < 32; k += (kind == 1 || kind == 4) ? 1 : 32) {
    unsigned v = (1u << bit) + d; Op p = {kind, v, k}; if (kind == 1) { p.k = k + 1; if (p.k < 32) p.v &= (1u << p.k) - 1; } if ((kind == 2 || kind == 3) && !v) continue; if (kind == 4 && (v >> k) == ~0u) continue;
    std::vector<Op> ops; Op pad = {1, 0x55u & ((1u << sh) - 1), sh}; ops.push_back(pad); ops.push_back(p); ops.push_back(p); Op tail = {0, 0xa5, 0}; ops.push_back(tail); V::cur(show(ops));
    encoder e; Ref ref; for (auto &q : ops) { encode(e, q); ref.op(q); } std::vector<unsigned char> b = e.get_bytes(); VCHECK(std::string(b.begin(), b.end()) == ref.bytes(), "bytes of " << show(ops)); b.resize(b.size() + 8);
    decoder dc; dc.attach(&b[0]); for (auto &q : ops) { unsigned r = decode(dc, q); VCHECK(r == q.v, "decoded " << r << " from " << show(ops)); n_ops++; }
  }
  V::nontrivial(V::mix64(i * 77));
}
// more than 64 KiB of codes through a file and a stream
static void large(V::Rng &g, uint64_t i) {
  std::vector<Op> ops; encoder e; Ref ref; std::vector<size_t> at; size_t n = 60000 + g.below(90000); int only = i % 7; V::cur("long stream of kind " + std::to_string(only));
  for (size_t k = 0; k < n; k++) { Op p; p.kind = only < 6 ? only : g.below(6); p.v = rnd_v(g); p.k = p.kind == 1 ? g.below(33) : p.kind == 4 ? g.below(32) : 0; if (p.kind == 0) p.v &= 255; if (p.kind == 1 && p.k < 32) p.v &= (1u << p.k) - 1; if ((p.kind == 2 || p.kind == 3) && !p.v) p.v = 1; if (p.kind == 4 && (p.v >> p.k) == ~0u) p.v--; if (p.kind == 0 || p.kind == 5) ref.align(); at.push_back(ref.b.size()); encode(e, p); ref.op(p); ops.push_back(p); if (k % 4096 == 0) V::tick(); }
  std::string want = ref.bytes(); decoder d; if (i & 1) { std::string fn = scratch() + "/code.big"; VEQ(e.flush(fn), (int)want.size(), "flush"); { std::ifstream f(fn.c_str(), std::ios::binary); std::string got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); VCHECK(got == want, "file of " << want.size() << " bytes"); } VCHECK(d.attach(fn) == 0, "attach"); } else { std::ostringstream os; VEQ(e.flush(os), (int)want.size(), "flush"); VCHECK(os.str() == want, "encoded bytes of a long stream"); std::istringstream is(want); VCHECK(d.attach(is, want.size()) == 0, "attach"); }
  for (size_t k = 0; k < n; k++) { unsigned r = decode(d, ops[k]); VCHECK(r == ops[k].v, "code " << k << " of " << n << ": decoded " << r << " instead of " << ops[k].v << " as " << N[ops[k].kind]); } for (int k = 0; k < 200; k++) { size_t j = g.below(n); d.seek(at[j] / 8, at[j] % 8); unsigned r = decode(d, ops[j]); VCHECK(r == ops[j].v, "after seek to code " << j); } n_ops += n; n_big++; V::cmax("longest stream (bytes)", want.size()); V::nontrivial(V::hash_str(want));
}
int main(int argc, char **argv) {
  V::init(argc, argv);
  V::rule("random mixed code sequences encoded by the library, bytes compared with a reference bit writer and decoded back through file, stream and buffer attachment and after seeks; sweep of every power-of-two neighbourhood at every alignment; distinct = distinct sequences");
  V::cases("sweep", 4 * 8 * 32, 0.5, sweep); V::cases("long", 9, 0.8, large); V::cases("streams", 60000, 1, stream);
  V::count("codes decoded", n_ops); V::count("file round trips", n_file); V::count("stream round trips", n_stream); V::count("buffer round trips", n_buf); V::count("seeks", n_seek); V::count("decoders used again", n_reuse); V::count("long streams", n_big);
  return V::finish();
}
