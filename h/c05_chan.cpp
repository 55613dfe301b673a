#include "conc.h"
#include <concurrent/chan.h>
#include <deque>
using namespace pfi::concurrent;
using pfi::lang::shared_ptr;
static std::atomic<uint64_t> n_w, n_r, n_dup, n_kill, n_unget;
static void nap(long us) { struct timespec ts = {0, us * 1000}; nanosleep(&ts, 0); }
struct Item { std::string s; Item() {} Item(int64_t v) : s("channel-item-payload-on-heap-" + std::to_string(v)) {} int64_t v() const { return s.size() > 29 ? atoll(s.c_str() + 29) : -1; } };
typedef chan<Item> C;

// sequential model: a group of deques
static void model(V::Rng &g, uint64_t idx) {
  std::ostringstream log; std::unique_ptr<C> base(new C()); std::deque<int64_t> mbase; bool alive = true;
  std::vector<std::pair<shared_ptr<C>, std::deque<int64_t> > > ds; int n = 20 + g.below(60); int64_t nv = 1;
  for (int i = 0; i < n; i++) {
    size_t tot = ds.size() + (alive ? 1 : 0); if (!tot) break;
    size_t k = g.below(tot); C *c = k < ds.size() ? ds[k].first.get() : base.get(); std::deque<int64_t> *m = k < ds.size() ? &ds[k].second : &mbase;
    switch (g.below(9)) {
    case 0: case 1: case 2: log << "w" << k << " "; V::cur(log.str()); c->write(Item(nv)); for (auto &d : ds) d.second.push_back(nv); if (alive) mbase.push_back(nv); nv++; n_w++; break;
    case 3: case 4: if (!m->empty()) { log << "r" << k << " "; V::cur(log.str()); int64_t v = c->read().v(); VEQ(v, m->front(), "read of channel " << k << " after " << log.str()); m->pop_front(); n_r++; } break;
    case 5: log << "u" << k << " "; V::cur(log.str()); c->unget(Item(-nv - 1000)); m->push_front(-nv - 1000); nv++; n_unget++; break;
    case 6: if (ds.size() < 5) { log << "d" << k << " "; V::cur(log.str()); ds.push_back(std::make_pair(c->dup(), std::deque<int64_t>())); n_dup++; } break;
    case 7: if (g.chance(1, 2)) { log << "x" << k << " "; V::cur(log.str()); n_kill++; if (k < ds.size()) ds.erase(ds.begin() + k); else { base.reset(); alive = false; } } break;
    default: break;
    }
    for (auto &d : ds) { VEQ((size_t)d.first->size(), d.second.size(), "size after " << log.str()); VEQ(d.first->empty(), d.second.empty(), "empty after " << log.str()); }
    if (alive) { VEQ((size_t)base->size(), mbase.size(), "size after " << log.str()); VEQ(base->empty(), mbase.empty(), "empty"); }
  }
  for (auto &d : ds) while (!d.second.empty()) { VEQ(d.first->read().v(), d.second.front(), "drain after " << log.str()); d.second.pop_front(); }
  if (alive) while (!mbase.empty()) { VEQ(base->read().v(), mbase.front(), "drain after " << log.str()); mbase.pop_front(); }
  if (idx < 2) V::sample("model history: " + log.str());
  V::nontrivial(V::hash_str(log.str()));
}

struct W { int64_t v; uint64_t inv, ret; };
// concurrent writers on any channel of the group, readers, dup/destroy churn
static void group(V::Rng &g, uint64_t idx) {
  int nch = 1 + g.below(3), nw = 1 + g.below(3), per = 15 + g.below(25), nrd = 1 + g.below(2), nchurn = g.below(3);
  V::PT().level = g.below(3); V::PT().spurious = g.chance(1, 2);
  std::ostringstream o; o << "group ch=" << nch << " writers=" << nw << " readers/ch=" << nrd << " churn=" << nchurn; V::cur(o.str());
  C base; std::vector<shared_ptr<C> > ds; std::vector<C *> ch(1, &base); for (int i = 1; i < nch; i++) { ds.push_back(ch[g.below(ch.size())]->dup()); ch.push_back(ds.back().get()); }
  std::vector<std::vector<W> > ws(nw); std::vector<std::vector<std::vector<int64_t> > > rd(nch, std::vector<std::vector<int64_t> >(nrd)); int total = nw * per; std::atomic<int> wdone(0);
  std::vector<std::thread> ts; std::vector<std::atomic<int> > left(nch); for (auto &l : left) l = total;
  struct Dup { uint64_t inv, ret, end; std::vector<int64_t> seq; bool drained; }; std::vector<std::vector<Dup> > dups(nchurn); std::mutex dm;
  for (int t = 0; t < nw; t++) { uint64_t sd = g.u64(); ts.emplace_back([&, t, sd]() { V::Rng r(sd); V::perturb_me(sd); for (int i = 0; i < per; i++) { W w; w.v = t * 1000 + i; Item it(w.v); w.inv = V::stamp(); ch[r.below(nch)]->write(it); w.ret = V::stamp(); ws[t].push_back(w); n_w++; V::tick(); } wdone++; }); }
  for (int c = 0; c < nch; c++) for (int k = 0; k < nrd; k++) { uint64_t sd = g.u64(); ts.emplace_back([&, c, k, sd]() { V::Rng r(sd); V::perturb_me(sd); while (left[c].fetch_sub(1) > 0) { Item it = ch[c]->read(); if (nrd == 1 && r.chance(1, 8)) { ch[c]->unget(it); n_unget++; it = ch[c]->read(); } rd[c][k].push_back(it.v()); n_r++; V::tick(); } }); }
  for (int t = 0; t < nchurn; t++) { uint64_t sd = g.u64(); ts.emplace_back([&, t, sd]() { V::Rng r(sd); V::perturb_me(sd); while (true) { bool last = wdone == nw; Dup d; d.drained = false; { d.inv = V::stamp(); shared_ptr<C> c = ch[r.below(nch)]->dup(); d.ret = V::stamp(); n_dup++; int want = r.below(8); for (int i = 0; i < want; i++) { if (c->empty()) { nap(30); if (c->empty()) continue; } d.seq.push_back(c->read().v()); } if (r.chance(1, 2)) { c->size(); } if (wdone == nw) { while (!c->empty()) d.seq.push_back(c->read().v()); d.drained = true; } d.end = V::stamp(); } n_kill++; dups[t].push_back(d); V::tick(); if (last || dups[t].size() > 200) break; } }); }
  for (auto &t : ts) t.join();
  std::map<int64_t, W> wm; for (auto &v : ws) for (auto &w : v) wm[w.v] = w;
  // exactly once per channel
  std::vector<int64_t> order;
  for (int c = 0; c < nch; c++) { std::set<int64_t> seen; for (auto &s : rd[c]) { std::map<int64_t, int64_t> lastw; for (int64_t v : s) { VCHECK(wm.count(v), o.str() << ": channel delivered a value nobody wrote: " << v); VCHECK(seen.insert(v).second, o.str() << ": value " << v << " delivered twice on one channel"); int64_t w = v / 1000; VCHECK(!lastw.count(w) || lastw[w] < v, o.str() << ": writer " << w << " reordered"); lastw[w] = v; } } VEQ((int)seen.size(), total, o.str() << " delivered values on channel " << c); VCHECK(ch[c]->empty() && ch[c]->size() == 0, "left over values"); }
  if (nrd == 1) {
    order = rd[0][0]; for (int c = 1; c < nch; c++) VCHECK(rd[c][0] == order, o.str() << ": two channels of one group saw different orders");
    uint64_t maxinv = 0; for (int64_t v : order) { VCHECK(wm[v].ret >= maxinv, o.str() << ": write " << v << " finished before an earlier-delivered write began"); maxinv = std::max(maxinv, wm[v].inv); }
    std::map<int64_t, size_t> pos; for (size_t i = 0; i < order.size(); i++) pos[order[i]] = i;
    for (auto &dv : dups) for (auto &d : dv) {
      for (size_t i = 0; i < d.seq.size(); i++) { VCHECK(pos.count(d.seq[i]), "duplicate delivered unknown value " << d.seq[i]); if (i) VCHECK(pos[d.seq[i]] == pos[d.seq[i - 1]] + 1, o.str() << ": duplicate channel skipped or reordered: " << d.seq[i - 1] << " then " << d.seq[i]); VCHECK(wm[d.seq[i]].ret >= d.inv, o.str() << ": duplicate received a value written before it existed"); }
      if (!d.seq.empty()) for (size_t i = 0; i < pos[d.seq[0]]; i++) VCHECK(wm[order[i]].inv <= d.ret, o.str() << ": duplicate missed write " << order[i] << " made after it existed");
      if (d.drained) { size_t p = d.seq.empty() ? order.size() : pos[d.seq.back()] + 1; VCHECK(d.seq.empty() || p == order.size(), o.str() << ": drained duplicate misses the last writes"); if (d.seq.empty()) for (int64_t v : order) VCHECK(wm[v].inv <= d.ret, o.str() << ": duplicate missed write " << v); }
    }
    uint64_t h = 1; for (int64_t v : order) h = V::mix64(h ^ v); V::nontrivial(h);
  } else V::nontrivial(V::mix64(idx + 0x1010));
  if (idx < 2) V::sample(o.str());
}
// k blocked readers, k writes (any channel) or ungets: all released
static void blocked(V::Rng &g, uint64_t i) {
  C c; shared_ptr<C> d = c.dup(); int n = 1 + g.below(4), how = g.below(3); V::cur("blocked " + std::to_string(n) + " how " + std::to_string(how)); V::PT().spurious = g.chance(1, 2);
  std::atomic<int> done(0); std::vector<int64_t> got(n); std::vector<std::thread> ts; for (int k = 0; k < n; k++) ts.emplace_back([&, k]() { V::perturb_me(i * 9 + k); got[k] = c.read().v(); done++; });
  nap(200 + g.below(1500)); VCHECK(done == 0, "read of an empty channel returned");
  V::perturb_me(i); for (int k = 0; k < n; k++) { if (how == 0) c.write(Item(k)); else if (how == 1) d->write(Item(k)); else c.unget(Item(k)); } V::unperturb_me();
  for (auto &t : ts) t.join();
  std::sort(got.begin(), got.end()); for (int k = 0; k < n; k++) VEQ(got[k], (int64_t)k, "released readers");
  VEQ(d->size(), how == 2 ? 0 : n, "other channel"); VEQ(c.size(), 0, "own channel");
  V::nontrivial(V::mix64(n * 4 + how) + 5);
}
// long backlogs on a group of channels
static void backlog(V::Rng &g, uint64_t i) {
  static const int K[] = {40, 300, 1025, 5000, 33000, 70000, 100003}; int n = K[i % 7]; std::ostringstream o; o << "backlog of " << n; V::cur(o.str()); V::PT().spurious = false; chan<int64_t> a; shared_ptr<chan<int64_t> > b = a.dup();
  for (int k = 0; k < n; k++) { if (k % 2) a.write(k); else b->write(k); if (k % 1000 == 0) { VEQ((int)a.size(), k + 1, o.str()); V::tick(); } }
  shared_ptr<chan<int64_t> > c = b->dup(); VCHECK(c->empty(), o.str() << ": a new duplicate is not empty"); a.write(n);
  VEQ((int)a.size(), n + 1, o.str()); VEQ((int)b->size(), n + 1, o.str()); VEQ((int)c->size(), 1, o.str());
  for (int k = 0; k <= n; k++) { int64_t v = a.read(); VCHECK(v == k, o.str() << ": value " << k << " read as " << v); if (k == n / 2) { a.unget(-7); VEQ(a.read(), (int64_t)-7, o.str()); } if (k % 1000 == 0) { VEQ((int)a.size(), n - k, o.str()); V::tick(); } }
  VCHECK(a.empty(), o.str()); std::atomic<bool> bad(false); std::thread t([&]() { for (int k = 0; k <= n; k++) if (b->read() != k) { bad = true; break; } }); t.join(); VCHECK(!bad, o.str() << ": second channel out of order"); VEQ(c->read(), (int64_t)n, o.str()); V::nontrivial(V::hash_str(o.str())); V::cmax("longest backlog", n);
}
int main(int argc, char **argv) {
  V::init(argc, argv, 40); V::PT().on = true;
  V::rule("model: random sequential histories over a group of channels against deques; group: concurrent writers/readers/dup/destroy, checked for exactly-once, one common order, real-time order and dup suffixes; distinct = distinct histories and delivery orders");
  V::cases("backlog", 7, 9, backlog); V::cases("model", 1500, 0.25, model); V::cases("blocked", 150, 0.45, blocked); V::cases("group", 500, 1, group);
  V::count("writes", n_w); V::count("reads", n_r); V::count("dups", n_dup); V::count("channels destroyed", n_kill); V::count("ungets", n_unget);
  return V::finish();
}
