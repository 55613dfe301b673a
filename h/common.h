// Shared runtime of the monitors: seeded random source, oracle assertions,
// coverage accounting, crash-safe "current case" record and a progress watchdog.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <mutex>
#include <thread>
#include <atomic>
#include <chrono>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <memory>
#include <time.h>

namespace V {

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  uint32_t u32() { return (uint32_t)(u64() >> 32); }
  // uniform in [0,n)
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  // uniform in [a,b]
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
  }
};

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

inline std::string quote(const std::string &s, size_t lim = 400) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    if (i >= lim) { char b[64]; snprintf(b, sizeof b, "...(%zu bytes)", s.size()); return r + "\"" + b; }
    unsigned char c = s[i];
    if (c == '\\' || c == '"') { r += '\\'; r += (char)c; }
    else if (c >= 32 && c < 127) r += (char)c;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return r + "\"";
}

struct State {
  uint64_t seed; bool thorough; double budget_s;
  std::atomic<uint64_t> evals, progress;
  std::mutex m;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counts;
  std::vector<std::string> samples;
  std::vector<std::string> known;
  std::string out, rule;
  std::chrono::steady_clock::time_point t0;
  char *cur; size_t curcap;
  std::atomic<bool> done;
  int stall_s;
  State() : seed(1), thorough(false), budget_s(15), evals(0), progress(0), cur(0), curcap(0), done(false), stall_s(60) {}
};
inline State &S() { static State *s = new State; return *s; }

inline double elapsed() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - S().t0).count();
}
inline bool timeup(double frac = 1.0) { return elapsed() > S().budget_s * frac; }
inline void tick() { S().progress++; }

// The record of what is being executed right now; survives a crash.
inline void cur(const std::string &s) {
  State &st = S();
  st.progress++;
  if (!st.cur) return;
  size_t n = std::min(s.size(), st.curcap - 1);
  memcpy(st.cur, s.data(), n);
  st.cur[n] = 0;
}
inline void eval(uint64_t n = 1) { S().evals += n; S().progress++; }
inline void count(const std::string &k, uint64_t n = 1) {
  std::lock_guard<std::mutex> l(S().m); S().counts[k] += n;
}
inline void cmax(const std::string &k, uint64_t n) {
  std::lock_guard<std::mutex> l(S().m); uint64_t &c = S().counts[k]; if (n > c) c = n;
}
inline void nontrivial(uint64_t h) {
  std::lock_guard<std::mutex> l(S().m); S().distinct.insert(h);
}
inline void sample(const std::string &s) {
  std::lock_guard<std::mutex> l(S().m); if (S().samples.size() < 6) S().samples.push_back(s.substr(0, 600));
}
inline void rule(const std::string &s) { S().rule = s; }

inline std::string jq(const std::string &s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

inline void write_out(const std::string &violation) {
  State &st = S();
  if (st.out.empty()) return;
  std::ofstream f(st.out.c_str());
  f << "{\"evaluations\":" << st.evals.load() << ",\"distinct_nontrivial\":" << st.distinct.size()
    << ",\"rule\":" << jq(st.rule) << ",\"samples\":[";
  for (size_t i = 0; i < st.samples.size(); i++) f << (i ? "," : "") << jq(st.samples[i]);
  f << "],\"counts\":{";
  bool first = true;
  for (auto &kv : st.counts) { f << (first ? "" : ",") << jq(kv.first) << ":" << kv.second; first = false; }
  f << "},\"known\":[";
  for (size_t i = 0; i < st.known.size(); i++) f << (i ? "," : "") << jq(st.known[i]);
  f << "],\"violation\":" << (violation.empty() ? "null" : jq(violation)) << ",\"elapsed\":" << elapsed() << "}\n";
  f.close();
}

// An oracle saw a violation: record it and stop at once.
inline void fail(const std::string &msg) {
  static std::atomic<int> once(0);
  if (once++) { for (;;) pause(); }
  std::string c = S().cur ? std::string(S().cur) : std::string();
  fprintf(stderr, "ORACLE-VIOLATION: %s\n  case: %s\n", msg.c_str(), c.c_str());
  write_out(msg);
  fflush(0);
  _exit(77);
}
// A known finding observed again (id must be in known_findings.json or it is a violation; the runner decides).
inline void known(const std::string &id) {
  std::lock_guard<std::mutex> l(S().m);
  if (std::find(S().known.begin(), S().known.end(), id) == S().known.end()) S().known.push_back(id);
}

struct Msg {
  std::ostringstream o;
  template <class T> Msg &operator<<(const T &v) { o << v; return *this; }
};

#define VFAIL(x) do { V::Msg m__; m__ << x; V::fail(m__.o.str() + " [" + __FILE__ + ":" + std::to_string(__LINE__) + "]"); } while (0)
#define VCHECK(c, x) do { if (!(c)) { VFAIL("(" #c ") is false: " << x); } } while (0)
#define VEQ(a, b, x) do { auto veq_l = (a); auto veq_r = (b); if (!(veq_l == veq_r)) { VFAIL(#a " == " #b ": got " << veq_l << " expected " << veq_r << ": " << x); } } while (0)

inline uint64_t now_us() {
  timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return (uint64_t)ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}

// the wall clock, which deadlines of the library are on
inline uint64_t real_us() {
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  return (uint64_t)ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}

inline void init(int argc, char **argv, int stall_s = 60) {
  State &st = S();
  st.t0 = std::chrono::steady_clock::now();
  const char *e;
  if ((e = getenv("VH_SEED"))) st.seed = strtoull(e, 0, 10);
  if ((e = getenv("VH_TIER"))) st.thorough = !strcmp(e, "thorough");
  if ((e = getenv("VH_BUDGET"))) st.budget_s = atof(e);
  if ((e = getenv("VH_OUT"))) st.out = e;
  if ((e = getenv("VH_CUR"))) {
    st.curcap = 1 << 16;
    int fd = open(e, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && ftruncate(fd, st.curcap) == 0) {
      void *p = mmap(0, st.curcap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) st.cur = (char *)p;
    }
    if (fd >= 0) close(fd);
  }
  st.stall_s = stall_s;
  std::thread([]() {
    uint64_t last = ~0ULL; int idle = 0;
    for (;;) {
      struct timespec ts = {1, 0}; nanosleep(&ts, 0);
      State &s = S();
      if (s.done) return;
      uint64_t p = s.progress.load();
      if (p == last) { if (++idle >= s.stall_s) fail("no progress for " + std::to_string(idle) + " s: an operation that has to complete never did (hang, deadlock or lost wake-up)"); }
      else { idle = 0; last = p; }
    }
  }).detach();
}
inline int finish() {
  S().done = true;
  write_out("");
  fflush(0);
  _exit(0);
}

// n cases, stops early at the wall budget (a share of it when frac<1).
inline void cases(const char *name, uint64_t n, double until_frac, const std::function<void(Rng &, uint64_t)> &f) {
  // a loaded machine may use up the time, but every kind of case gets a share
  uint64_t i = 0, share = n / 15, least = std::max(std::min<uint64_t>(share, 20), std::min<uint64_t>(n, 2)); double t0 = elapsed(), slot = S().budget_s * .1;
  if (S().thorough) n *= 8;
  for (; i < n; i++) {
    if (timeup(until_frac) && (i >= least || timeup(3)) && (i >= share || elapsed() - t0 > slot)) break;
    Rng r(S().seed * 1000003ULL + hash_str(name) + i * 7919ULL);
    f(r, i);
    eval();
  }
  count(std::string("cases:") + name, i);
}

inline std::string rand_bytes(Rng &r, size_t n) {
  std::string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = (char)r.u32();
  return s;
}
// A length distribution that favours boundaries.
inline size_t rand_len(Rng &r, size_t maxlen) {
  switch (r.below(6)) {
  case 0: return r.below(3);
  case 1: return r.below(std::min<size_t>(maxlen, 9) + 1);
  case 2: { size_t p = (size_t)1 << r.below(16); int64_t v = (int64_t)p + r.range(-2, 2); return v < 0 ? 0 : std::min<size_t>((size_t)v, maxlen); }
  case 3: return r.below(std::min<size_t>(maxlen, 100) + 1);
  default: return r.below(maxlen + 1);
  }
}
inline std::string rand_text(Rng &r, size_t n, const std::string &alpha) {
  std::string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = alpha[r.below(alpha.size())];
  return s;
}
} // namespace V
#endif
