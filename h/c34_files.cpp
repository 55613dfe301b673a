#include "common.h"
#include <system/mmapper.h>
#include <system/endian_util.h>
#include <system/file.h>
#include <system/syscall.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <dirent.h>
#include <stdarg.h>
#include <errno.h>
typedef pfi::system::mmapper::mmapper M; namespace E = pfi::system::endian; namespace F = pfi::system::file;
static std::atomic<uint64_t> n_open, n_failed, n_fault, n_ops, n_vals, n_tmp, n_probe;
// ---- injected faults (armed only round calls into the library) ----
static int f_eintr, f_fstat, f_mmap, f_open;
extern "C" { int __real_open(const char *, int, ...); int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (f_eintr > 0) { f_eintr--; n_fault++; errno = EINTR; return -1; } if (f_open) { f_open = 0; n_fault++; errno = EMFILE; return -1; } return __real_open(p, fl, m); }
int __real_open64(const char *, int, ...); int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (f_eintr > 0) { f_eintr--; n_fault++; errno = EINTR; return -1; } if (f_open) { f_open = 0; n_fault++; errno = EMFILE; return -1; } return __real_open64(p, fl, m); }
int __real_fstat(int, struct stat *); int __wrap_fstat(int fd, struct stat *s) { if (f_fstat) { f_fstat = 0; n_fault++; errno = EIO; return -1; } return __real_fstat(fd, s); }
void *__real_mmap(void *, size_t, int, int, int, off_t); void *__wrap_mmap(void *a, size_t l, int p, int f, int fd, off_t o) { if (f_mmap) { f_mmap = 0; n_fault++; errno = ENOMEM; return MAP_FAILED; } return __real_mmap(a, l, p, f, fd, o); } }
static void disarm() { f_eintr = f_fstat = f_mmap = f_open = 0; }
static std::string dir() { const char *e = getenv("VH_SCRATCH"); return e ? e : "."; }
// what the process holds: descriptors of, and mappings of, our scratch files
static std::map<std::string, int> held(const char *what) { std::map<std::string, int> r; std::string d = dir() + "/f"; if (*what == 'f') { DIR *p = opendir("/proc/self/fd"); while (dirent *e = readdir(p)) { char b[512]; ssize_t n = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b); if (n > 0 && !std::string(b, n).compare(0, d.size(), d)) r[std::string(b, n)]++; } closedir(p); } else { std::ifstream m("/proc/self/maps"); std::string l; while (getline(m, l)) { size_t at = l.find(d); if (at != std::string::npos) r[l.substr(at)]++; } } n_probe++; return r; }
struct Model { int file; Model() : file(-1) {} };
static const int NF = 5; static std::string path(int i) { return dir() + "/f" + std::to_string(i); }
static void put(const std::string &p, const std::string &d) { std::ofstream o(p.c_str(), std::ios::binary | std::ios::trunc); o.write(d.data(), d.size()); }
static std::string get(const std::string &p) { std::ifstream i(p.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void verify(M *m[], Model mo[], int k, std::vector<std::string> &data, const std::string &log, bool probe) {
  std::map<std::string, int> want; for (int i = 0; i < k; i++) { const M &c = *m[i]; if (mo[i].file < 0) { VCHECK(!c.is_open(), "an unmapped object says it is open after " << log); VEQ(c.size(), (size_t)0, "size of an unmapped object after " << log); VCHECK(c.begin() == c.end(), "range of an unmapped object is not empty after " << log); } else { const std::string &d = data[mo[i].file]; VCHECK(c.is_open(), "a mapped object says it is not open after " << log); VEQ(c.size(), d.size(), "size of the map after " << log); VEQ((size_t)(c.end() - c.begin()), d.size(), "range of the map after " << log); VCHECK(c.cbegin() == c.begin() && c.cend() == c.end(), "constant range"); VCHECK(!memcmp(c.begin(), d.data(), d.size()), "the map shows other bytes than the file after " << log); VCHECK((*m[i])[d.size() - 1] == d[d.size() - 1], "last byte"); want[path(mo[i].file)]++; } }
  if (!probe) return; std::map<std::string, int> fd = held("fd"), mp = held("maps"); for (auto &x : mp) VCHECK(want.count(x.first) && x.second <= want[x.first], x.second << " mappings of " << x.first << " are left for " << want[x.first] << " open objects after " << log); for (auto &x : want) VCHECK(mp.count(x.first), x.first << " is no longer mapped after " << log); for (auto &x : fd) VCHECK(want.count(x.first) && x.second <= want[x.first], x.second << " descriptors of " << x.first << " are left for " << want[x.first] << " open objects after " << log); }
static void maps(V::Rng &g, uint64_t idx) {
  std::vector<std::string> data; for (int i = 0; i < NF; i++) { size_t n = g.chance(1, 3) ? 4096 * (1 + g.below(3)) + (int)g.range(-1, 1) : V::rand_len(g, 20000); if (!n) n = 1; data.push_back(V::rand_bytes(g, n)); put(path(i), data[i]); } put(dir() + "/fempty", ""); chmod(path(0).c_str(), 0600);
  M *m[3]; Model mo[3]; for (int i = 0; i < 3; i++) m[i] = new M; int canary = -1; std::string log; int n = 4 + g.below(20);
  for (int s = 0; s < n; s++) { int i = g.below(3), j = g.below(3); std::ostringstream o; switch (g.below(12)) {
      case 0: case 1: case 2: { int f = g.below(NF); o << "m" << i << ".open(f" << f; if (g.chance(1, 4)) { f_eintr = 1 + g.below(3); o << " after EINTR"; } o << ") "; log += o.str(); V::cur(log); int r = m[i]->open(path(f)); disarm(); VEQ(r, 0, "open of an existing file after " << log); mo[i].file = f; n_open++; break; }
      case 3: { static const char *bad[] = {"/nosuch", "/fempty", "/nodir/x", ""}; int b = g.below(8); o << "m" << i << ".open "; int r; if (b < 4) { o << (*bad[b] ? bad[b] : "directory") << " "; log += o.str(); V::cur(log); r = m[i]->open(*bad[b] ? dir() + bad[b] : dir()); } else { if (b == 4) f_fstat = 1; else if (b == 5) f_mmap = 1; else if (b == 6) f_open = 1; else { f_eintr = 1; f_mmap = 1; } o << (b == 4 ? "(fstat fails) " : b == 6 ? "(open fails) " : "(mmap fails) "); log += o.str(); V::cur(log); int f = g.below(NF); r = m[i]->open(path(f)); bool fired = !(f_fstat || f_mmap || f_open); disarm(); if (!fired && r == 0) { mo[i].file = f; break; } } VEQ(r, -1, "failing open after " << log); n_failed++; break; }
      case 4: { o << "m" << i << ".close() "; log += o.str(); V::cur(log); int r = m[i]->close(); VEQ(r, 0, "close"); mo[i].file = -1; if (g.chance(1, 2)) { m[i]->close(); log += "again "; } break; }
      case 5: { o << "m" << i << ".swap(m" << j << ") "; log += o.str(); V::cur(log); if (g.chance(1, 2)) m[i]->swap(*m[j]); else std::swap(*m[i], *m[j]); std::swap(mo[i], mo[j]); break; }
      case 6: { o << "m" << i << "=move(m" << j << ") "; log += o.str(); V::cur(log); *m[i] = std::move(*m[j]); if (i != j) { mo[i] = mo[j]; mo[j] = Model(); } break; }
      case 7: { o << "m" << i << "=new(move(m" << i << ")) "; log += o.str(); V::cur(log); M *x = new M(std::move(*m[i])); VCHECK(!m[i]->is_open() && m[i]->size() == 0, "a moved-from object is not empty after " << log); delete m[i]; m[i] = x; break; }
      case 8: { o << "delete m" << i << " "; log += o.str(); V::cur(log); delete m[i]; m[i] = new M; mo[i].file = -1; break; }
      case 9: { if (canary >= 0) { ::close(canary); canary = -1; } else { canary = dup(0); log += "canary "; } break; }
      default: if (mo[i].file >= 0) { std::string &d = data[mo[i].file]; size_t at = g.below(d.size()); char c = (char)g.u32(); o << "m" << i << "[" << at << "]= "; log += o.str(); V::cur(log); if (g.chance(1, 2)) (*m[i])[at] = c; else *(m[i]->begin() + at) = c; d[at] = c; VCHECK(get(path(mo[i].file)) == d, "a byte written through the map is not in the file after " << log); } }
    n_ops++; verify(m, mo, 3, data, log, g.chance(1, 2)); if (canary >= 0) VCHECK(fcntl(canary, F_GETFD) >= 0, "a descriptor the library does not own was closed by " << log); }
  for (int i = 0; i < 3; i++) delete m[i]; if (canary >= 0) { VCHECK(fcntl(canary, F_GETFD) >= 0, "a descriptor the library does not own was closed by the destructors after " << log); ::close(canary); } VCHECK(held("fd").empty() && held("maps").empty(), "mappings or descriptors are left after every object was destroyed: " << log); V::nontrivial(V::hash_str(log)); if (idx < 3) V::sample(log); }
template <class T> static void endi(V::Rng &g, const char *nm) { T v; unsigned char b[sizeof(T)], c[sizeof(T)]; for (auto &x : b) x = g.chance(1, 4) ? (g.chance(1, 2) ? 0 : 255) : g.u32(); memcpy(&v, b, sizeof v); V::cur(std::string("endian ") + nm + " " + V::quote(std::string((char *)b, sizeof b))); std::reverse_copy(b, b + sizeof b, c); T r = E::reverse(v); VCHECK(!memcmp(&r, c, sizeof r), "reverse<" << nm << "> of " << V::quote(std::string((char *)b, sizeof b)) << " is " << V::quote(std::string((char *)&r, sizeof r))); T rr = E::reverse(r); VCHECK(!memcmp(&rr, b, sizeof rr), "reverse twice"); static const uint16_t one = 1; bool little = *(const char *)&one; T l = E::to_little(v), w = E::to_big(v), fl = E::from_little(v), fb = E::from_big(v); VCHECK(!memcmp(&l, little ? b : c, sizeof l) && !memcmp(&fl, little ? b : c, sizeof l), "to/from_little<" << nm << ">"); VCHECK(!memcmp(&w, little ? c : b, sizeof l) && !memcmp(&fb, little ? c : b, sizeof l), "to/from_big<" << nm << ">"); VCHECK(E::is_little() == little && E::is_big() == !little && E::endian::is_little == little && E::endian::is_big == !little, "host byte order"); n_vals++; }
static void values(V::Rng &g, uint64_t) { endi<char>(g, "char"); endi<signed char>(g, "signed char"); endi<unsigned char>(g, "unsigned char"); endi<short>(g, "short"); endi<unsigned short>(g, "unsigned short"); endi<int>(g, "int"); endi<unsigned>(g, "unsigned"); endi<long>(g, "long"); endi<unsigned long>(g, "unsigned long"); endi<long long>(g, "long long"); endi<unsigned long long>(g, "unsigned long long"); endi<float>(g, "float"); endi<double>(g, "double"); struct T3 { char c[3]; }; endi<T3>(g, "3 bytes"); struct T16 { char c[16]; }; endi<T16>(g, "16 bytes"); std::string s = V::rand_bytes(g, g.below(40)), r(s.rbegin(), s.rend()); std::vector<char> v(s.begin(), s.end()); E::reverse(v.data(), (int)v.size()); VCHECK(std::string(v.begin(), v.end()) == r, "reverse of " << s.size() << " bytes"); }
static void files(V::Rng &g, uint64_t idx) {
  std::string p = path(0), d = V::rand_bytes(g, V::rand_len(g, 70000)); V::cur("file of " + std::to_string(d.size())); put(p, d); VEQ((long long)F::get_file_size(p), (long long)d.size(), "get_file_size"); VEQ((long long)F::get_file_size(dir() + "/nosuch"), -1LL, "size of a missing file"); if (g.chance(1, 20)) { VEQ(truncate(p.c_str(), 5000000000LL), 0, "truncate"); VEQ((long long)F::get_file_size(p), 5000000000LL, "get_file_size of a large file"); } unlink(p.c_str());
  std::string t = dir() + "/tXXXXXX", t0 = t; std::iostream *s = F::tmpstream(t); VCHECK(s && *s, "tmpstream"); VCHECK(t != t0 && t.compare(0, t0.size() - 6, t0, 0, t0.size() - 6) == 0 && t.size() == t0.size(), "tmpstream name " << t); { struct stat st; VEQ(stat(t.c_str(), &st), 0, "the temporary file is not there"); VEQ((int)st.st_size, 0, "the temporary file is not empty"); VEQ((int)(st.st_mode & 077), 0, "others may touch the temporary file"); } std::string t2 = t0; std::iostream *s2 = F::tmpstream(t2); VCHECK(s2 && t2 != t, "two temporary files of one name"); size_t at = 0; while (at < d.size()) { size_t n = std::min<size_t>(d.size() - at, 1 + g.below(9000)); s->write(d.data() + at, n); at += n; } s->flush(); VCHECK(get(t) == d, "what was written to the temporary stream is not in the file"); s->seekg(0); std::string back(d.size(), 0); if (!d.empty()) { s->read(&back[0], back.size()); VCHECK((size_t)s->gcount() == d.size() && back == d, "reading the temporary stream back"); } delete s; VCHECK(get(t) == d, "the temporary file after closing"); VCHECK(get(t2).empty(), "the other temporary file"); delete s2; unlink(t.c_str()); unlink(t2.c_str()); n_tmp++;
  { std::string shrt = "XXXXX"; VCHECK(!F::tmpstream(shrt), "too short a template"); std::string no = dir() + "/nodir/aXXXXXX"; VCHECK(!F::tmpstream(no), "a template in a missing directory"); int e = g.below(140); VEQ(pfi::system::syscall::get_error_msg(e), std::string(strerror(e)), "get_error_msg(" << e << ")"); } { int fds = 0; DIR *q = opendir("/proc/self/fd"); while (readdir(q)) fds++; closedir(q); static int base; if (idx == 0) base = fds; VEQ(fds, base, "descriptors are left open by the file helpers"); } }
static void bigmap(V::Rng &g, uint64_t) { size_t n = 5000000 + g.below(3000000); std::string d = V::rand_bytes(g, n), p = path(0); put(p, d); V::cur("map of " + std::to_string(n)); M m; VEQ(m.open(p), 0, "open of a large file"); VEQ(m.size(), n, "size of a large map"); VCHECK(!memcmp(m.begin(), d.data(), n), "a large map shows other bytes than the file"); for (int i = 0; i < 50; i++) { size_t at = i ? g.below(n) : n - 1; m[at] = d[at] = (char)g.u32(); } M k(std::move(m)); VCHECK(k.size() == n && !memcmp(k.begin(), d.data(), n), "a moved large map"); k.close(); VCHECK(get(p) == d, "bytes written through a large map are not in the file"); VCHECK(held("fd").empty() && held("maps").empty(), "mappings or descriptors are left after a large map was closed"); n_open++;
  VEQ(truncate(p.c_str(), 5000000000LL), 0, "truncate"); M b; VEQ(b.open(p), 0, "open of a sparse file of 5 GB"); VEQ(b.size(), (size_t)5000000000ULL, "size of a 5 GB map"); b[4999999999ULL] = 'x'; { std::ifstream f(p.c_str(), std::ios::binary); f.seekg(4999999999LL); VEQ(f.get(), (int)'x', "last byte of a 5 GB map"); } VCHECK(b[0] == d[0] && b[4999999998ULL] == 0, "bytes of a 5 GB map"); b.close(); VCHECK(held("fd").empty() && held("maps").empty(), "mappings are left after a 5 GB map was closed"); unlink(p.c_str()); }
int main(int argc, char **argv) { V::init(argc, argv); V::rule("open/close/swap/move/write histories over three maps and five files of page-straddling sizes, with EINTR and failing open, fstat and mmap injected, against a model, the files' contents and the process's own /proc descriptor and mapping tables; byte reversal of every type on random bytes; temporary streams and sizes; distinct = distinct map histories"); V::cases("big maps", 2, 9, bigmap); V::cases("endian", 30000, .2, values); V::cases("files", 1500, .45, files); V::cases("maps", 4000, 1, maps); V::count("opens", n_open); V::count("failed opens", n_failed); V::count("injected faults", n_fault); V::count("map operations", n_ops); V::count("values converted", n_vals); V::count("temporary streams", n_tmp); V::count("/proc probes", n_probe); return V::finish(); }
