#include "archive_types.h"
using namespace A;
static std::atomic<uint64_t> n_vals, n_bytes, n_seq, n_reuse, n_str, n_big, n_nan, n_tmp;
template <class T> struct Cell { T v; };
struct Item { virtual ~Item() {} virtual void write(binary_oarchive &oa) = 0; virtual void expect(std::string &o) = 0; virtual void read(binary_iarchive &ia, V::Rng &g, const std::string &ctx) = 0; };
template <class B> struct ItemT : Item { B b; std::string name; int form; ItemT(Gen &G, const char *n) : name(n), form(G.g.below(2)) { rnd(G, b.v); }
  void write(binary_oarchive &oa) { if (form) oa << b.v; else oa & b.v; }
  void expect(std::string &o) { enc(o, b.v); }
  void read(binary_iarchive &ia, V::Rng &g, const std::string &ctx) { B r; if (g.chance(1, 2)) { Gen G(g, 20); rnd(G, r.v); n_reuse++; }  // an earlier value must not shine through
    if (form) ia >> r.v; else ia & r.v; VCHECK((bool)ia, "archive failed while reading " << name << " in " << ctx); VCHECK(r == b, name << " read back differs from what was stored in " << ctx); std::string x, y; enc(x, b.v); enc(y, r.v); VCHECK(x.size() == y.size(), "size"); n_vals++; } };
static void seq(V::Rng &g, uint64_t idx) {
  Gen G(g, g.chance(1, 10) ? 200 : 12); std::vector<std::unique_ptr<Item> > items; std::string ctx; int n = 1 + g.below(5);
  for (int i = 0; i < n; i++) { int pick = g.below(32), k = 0; all_types([&](auto *p, const char *nm) { if (k++ == pick) { typedef typename std::remove_pointer<decltype(p)>::type B; items.emplace_back(new ItemT<B>(G, nm)); ctx += std::string(nm) + " "; } }); }
  std::ostringstream os; std::string want; { binary_oarchive oa(os); for (auto &i : items) { i->write(oa); VCHECK((bool)oa, "oarchive"); i->expect(want); } oa.flush(); }
  std::string got = os.str(); V::cur(ctx + V::quote(got, 3000));
  VCHECK(got == want, "archive bytes of " << ctx << "are " << V::quote(got) << ", the format says " << V::quote(want)); n_bytes += got.size();
  got += "tail";
  if (g.chance(1, 2)) { std::istringstream is(got); binary_iarchive ia(is); for (auto &i : items) i->read(ia, g, ctx); VEQ((size_t)is.tellg(), want.size(), "bytes consumed by " << ctx); char t[5] = {}; ia.read(t, 4); VCHECK(!strcmp(t, "tail"), "following data"); }
  else { Dribble db(got, g.u64()); std::istream is(&db); binary_iarchive ia(is); for (auto &i : items) i->read(ia, g, ctx); char t[5] = {}; is.read(t, 4); VCHECK(!strcmp(t, "tail"), "following data"); }
  n_seq++; V::nontrivial(V::hash_str(want) ^ V::hash_str(ctx)); if (idx < 4) V::sample(ctx + V::quote(want, 200));
}
// embedded streams: any bytes, end marker not visible
static void streams(V::Rng &g, uint64_t) {
  std::string d = V::rand_bytes(g, V::rand_len(g, 2000)); if (g.chance(1, 3)) for (auto &c : d) if (g.chance(1, 2)) c = '\xff'; if (g.chance(1, 4)) d += '\xff'; V::cur("stream " + V::quote(d, 2000));
  std::stringstream src(d), os, dst; std::string want; for (char c : d) { want += c; if (c == '\xff') want += '\xff'; } want += std::string("\xff\0", 2); int after = g.u32();
  { binary_oarchive oa(os); stream<> s(src); oa << s; oa << after; } enc(want, after); VCHECK(os.str() == want, "bytes of a stream member"); { binary_iarchive ia(os); stream<> s(dst); ia >> s; int x = 0; ia >> x; VCHECK((bool)ia && x == after, "value after a stream member"); } VCHECK(dst.str() == d, "stream member read back as " << V::quote(dst.str()) << " instead of " << V::quote(d)); n_str++; V::nontrivial(V::hash_str(d));
}
static void longd(V::Rng &g, uint64_t) { long double v = ((long double)g.u64() - 9e18L) * powl(2, (int)g.range(-1000, 1000)), w = 0; std::stringstream ss; binary_oarchive oa(ss); oa << v; VEQ(ss.str().size(), sizeof v, "long double"); binary_iarchive ia(ss); ia >> w; VCHECK(v == w, "long double"); }
// counts that do not fit 8, 15 or 16 bits, and a million characters
template <class B, class F> static void bigone(V::Rng &g, const char *name, size_t n, F fill) { B b; fill(b.v, n); std::ostringstream os; std::string want; { binary_oarchive oa(os); oa << b.v; } enc(want, b.v); V::cur(std::string("big ") + name + " " + std::to_string(n)); VCHECK(os.str() == want, "archive bytes of a " << name << " of " << n << " elements (" << os.str().size() << " bytes, the format has " << want.size() << ")"); B r; if (g.chance(1, 2)) fill(r.v, n / 2); std::istringstream is(want); binary_iarchive ia(is); ia >> r.v; VCHECK((bool)ia && r == b, name << " of " << n << " elements read back differs"); VEQ((size_t)is.tellg(), want.size(), name << " of " << n); n_big++; V::nontrivial(n * 31 + V::hash_str(name)); }
static void bigs(V::Rng &g, uint64_t i) {
  static const size_t N[] = {127, 128, 255, 256, 257, 4095, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073}; size_t n = N[i % 15];
  auto seqf = [&](auto &c, size_t k) { c.clear(); for (size_t j = 0; j < k; j++) c.push_back((typename std::decay<decltype(c)>::type::value_type)(j * 2654435761u >> 7)); };
  auto setf = [&](auto &c, size_t k) { c.clear(); for (size_t j = 0; j < k; j++) c.insert((int)(j * 2654435761u)); };
  auto mapf = [&](auto &c, size_t k) { c.clear(); for (size_t j = 0; j < k; j++) c.insert(std::make_pair((int)(j * 2654435761u), (short)j)); };
  bigone<Box<std::string> >(g, "string", n, seqf); bigone<Box<std::vector<int> > >(g, "vector<int>", n, seqf); bigone<Box<std::vector<char> > >(g, "vector<char>", n, seqf); bigone<Box<std::deque<short> > >(g, "deque<short>", n, seqf); bigone<Box<std::list<double> > >(g, "list<double>", n, seqf); bigone<Box<std::set<int> > >(g, "set<int>", n, setf); bigone<Box<std::map<int, short> > >(g, "map<int,short>", n, mapf); bigone<Box<unordered_map<int, short> > >(g, "unordered_map<int,short>", n, mapf); bigone<Box<unordered_set<int> > >(g, "unordered_set<int>", n, setf);
  if (i % 15 == 0) { bigone<Box<std::string> >(g, "string", (17 << 20) + 3, seqf); bigone<Box<std::vector<char> > >(g, "vector<char>", (5 << 20) + 1, seqf); bigone<Box<std::string> >(g, "string", (1 << 20) + 17, seqf); bigone<Box<std::vector<char> > >(g, "vector<char>", (1 << 20) + 17, seqf); }
}
// not-a-number values keep their bits (they compare unequal to themselves)
static void nans(V::Rng &g, uint64_t) { uint64_t x = 0x7ff8000000000000ULL | (g.u64() & 0x8007ffffffffffffULL); uint32_t y = 0x7fc00000u | (g.u32() & 0x803fffffu); double d, d2 = 1; float f, f2 = 1; memcpy(&d, &x, 8); memcpy(&f, &y, 4); std::stringstream ss; { binary_oarchive oa(ss); oa << d << f; } std::string s = ss.str(); VCHECK(s.size() == 12 && !memcmp(s.data(), &x, 8) && !memcmp(s.data() + 8, &y, 4), "bytes of a NaN"); binary_iarchive ia(ss); ia >> d2 >> f2; VCHECK(!memcmp(&d, &d2, 8) && !memcmp(&f, &f2, 4), "a NaN changed"); n_nan++; }
// a stream member that owns its temporary file: written, archived, restored and read from the start
struct Scratch { const char *operator()() const { static std::string d = getenv("VH_SCRATCH") ? getenv("VH_SCRATCH") : "."; return d.c_str(); } };
static void tmpstreams(V::Rng &g, uint64_t) {
  std::string d = V::rand_bytes(g, V::rand_len(g, 3000)); if (g.chance(1, 3)) for (auto &c : d) if (g.chance(1, 2)) c = '\xff'; V::cur("temporary stream " + V::quote(d, 2000)); std::stringstream os; std::string n1, n2; int after = g.u32();
  { stream<Scratch> s; n1 = s.name(); s.get().write(d.data(), d.size()); s.get().seekg(0); binary_oarchive oa(os); oa << s << after; VCHECK(::access(n1.c_str(), F_OK) == 0, "temporary file " << n1); }
  { stream<Scratch> s((Scratch())); n2 = s.name(); VCHECK(n1 != n2 || ::access(n1.c_str(), F_OK), "name"); int x = 0; binary_iarchive ia(os); ia >> s >> x; VCHECK((bool)ia && x == after, "value after a stream member"); VEQ((long)s.get().tellg(), 0L, "a restored stream is read from its start"); std::string got((std::istreambuf_iterator<char>(s.get())), std::istreambuf_iterator<char>()); VCHECK(got == d, "stream member in a temporary file read back as " << V::quote(got) << " instead of " << V::quote(d)); }
  VCHECK(::access(n1.c_str(), F_OK) != 0 && ::access(n2.c_str(), F_OK) != 0, "temporary file of a stream member left behind: " << n1 << " " << n2); n_tmp++; V::nontrivial(V::hash_str(d));
}
int main(int argc, char **argv) {
  V::init(argc, argv); V::rule("random sequences of values of 32 serializable types in one archive: bytes compared with an encoder written from the documented format, read back (also over old contents and through a stream delivering 1-8 bytes at a time), position after reading; distinct = distinct archives");
  V::cases("NaN", 1000, 0.1, nans); V::cases("temporary streams", 500, 0.15, tmpstreams); V::cases("streams", 3000, 0.25, streams); V::cases("long double", 2000, 0.3, longd); V::cases("big", 15, 9, bigs); V::cases("sequences", 60000, 1, seq);
  V::count("values read back equal", n_vals); V::count("archive bytes compared", n_bytes); V::count("archives", n_seq); V::count("reads over earlier contents", n_reuse); V::count("embedded streams", n_str); V::count("containers of up to 2^20 elements", n_big); V::count("NaNs", n_nan); V::count("streams in temporary files", n_tmp);
  return V::finish();
}
