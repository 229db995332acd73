// C14: the LRU cache against a sequential model, in the single-lock and the sharded variant.
#include "linear.h"
#include "CLruCache.h"
using namespace lce;
namespace {
enum { SET, GET, DEL, CLEAR, SIZE };
const char *NAME[] = {"set", "get", "del", "clear", "size"};
struct Op : lin::Op { int key; uint32_t life; int64_t s_lo, s_hi; };
// lin::check works on lin::Op; the index into this table travels in 'who'
std::deque<Op> *ops;
long g_cap, g_evict; uint64_t g_progress; uint32_t g_next;
struct Ent { int key; long val; uint32_t life; int64_t c_lo, c_hi; };
struct St {
  std::vector<Ent> l; // least recently used first
  uint64_t hash() const { uint64_t h = 17; for (auto &e : l) h = (h * 1000003 + e.key) * 31 + e.val; return h; }
  int find(int k) const { for (size_t i = 0; i < l.size(); i++) if (l[i].key == k) return i; return -1; }
};
bool apply(const lin::Op &lo, St &s) {
  const Op &o = (*ops)[lo.who];
  switch (o.type) {
  case SET: {
    if ((long)s.l.size() > g_cap) s.l.erase(s.l.begin(), s.l.begin() + std::min<size_t>(s.l.size(), g_evict));
    int i = s.find(o.key); if (i >= 0) s.l.erase(s.l.begin() + i);
    s.l.push_back(Ent{o.key, o.arg, o.life, o.s_lo, o.s_hi}); return true; }
  case GET: {
    int i = s.find(o.key); if (i < 0) return o.ret < 0;
    Ent e = s.l[i]; bool may_live = true, may_die = false;
    if (e.life) { may_die = o.s_hi - e.c_lo > (int64_t)e.life; may_live = o.s_lo - e.c_hi <= (int64_t)e.life; }
    s.l.erase(s.l.begin() + i);
    if (o.ret < 0) return may_die;
    s.l.push_back(e); return may_live && e.val == o.ret; }
  case DEL: { int i = s.find(o.key); if (i >= 0) s.l.erase(s.l.begin() + i); return true; }
  case CLEAR: s.l.clear(); return true;
  case SIZE: return o.ret == (long)s.l.size();
  }
  return false;
}
template <class K> K mk(int k);
template <> std::string mk<std::string>(int k) { char b[40]; snprintf(b, sizeof b, "key-%d-%s", k, k % 3 ? "" : "a-rather-long-key-name"); return b; }
template <> int mk<int>(int k) { return k * 32; }
struct Val { long id; std::string s; Val(long i = 0) : id(i) { if (i) { char b[60]; snprintf(b, sizeof b, "value-of-%ld-and-some-more-text", i); s = b; } } };
template <class C, class K> void run_op(C *c, int type, int key, uint32_t life, bool strict_size) {
  ops->push_back(Op()); size_t i = ops->size() - 1; Op &o = ops->back();
  o.type = type; o.key = key; o.life = life; o.arg = o.ret = -1; o.who = i; o.not_before = 0; o.start_ns = sim::now(); o.end_ns = sim::FOREVER; o.end = lin::OPEN; if (type == SET) o.arg = ++g_next;
  o.s_lo = sim::wall_us() / 1000000; o.start = sim::step(); long ret = -1; bool ok = true, whole = true;
  { sim::User u; K k = mk<K>(key);
    switch (type) {
    case SET: { Val v(o.arg); ok = c->set(k, v, life); break; }
    case GET: { Val v(0); if (c->get(k, v)) { sim::Kern kk; ret = v.id; whole = Val(v.id).s == v.s; } break; }
    case DEL: ok = c->del(k); break;
    case CLEAR: c->clear(); break;
    case SIZE: ret = c->getSize(); break;
    } }
  o.ret = ret; o.end = sim::step(); o.end_ns = sim::now(); o.s_hi = sim::wall_us() / 1000000; if (o.s_hi < o.s_lo) std::swap(o.s_hi, o.s_lo); g_progress++; sim::op_done();
  if (!whole) sim::violate("value-altered", "a lookup returned a value that was never stored");
  if (!ok) sim::violate("op-failed", "%s returned false", NAME[type]);
  if (type == GET && ret > (long)g_next) sim::violate("value-altered", "a lookup returned a value that was never stored");
  (void)strict_size;
}
std::string dump(size_t from) { std::string s; for (size_t i = from; i < ops->size(); i++) { Op &o = (*ops)[i]; char b[120]; snprintf(b, sizeof b, " [%llu-%llu %s k%d %ld life %u at %lld ->%ld]", (unsigned long long)o.start, (unsigned long long)o.end, NAME[o.type], o.key, o.arg, o.life, (long long)o.s_lo, o.ret); s += b; if (s.size() > 3000) { s += " ..."; break; } } return s; }
void reset() { ops = new std::deque<Op>; g_progress = 0; g_next = 0; g_evict = 0; }
template <class C, class K> void threads(C *c, int nt, int per, int keys, bool clears, bool lives, bool sizes, bool jumps, int hot) {
  int *running = new int(nt);
  for (int t = 0; t < nt; t++) sim::spawn("user", [=] {
    for (int i = 0; i < per; i++) {
      int k = sim::pick(W, {5, 5, 1, 1, 1}); if (k == CLEAR && (!clears || sim::chance(W, 2, 3))) k = SET; if (k == SIZE && !sizes) k = GET;
      int key = hot && sim::chance(W, 1, 2) ? sim::draw(W, hot) : sim::draw(W, keys); uint32_t life = lives && sim::chance(W, 1, 2) ? 1 + sim::draw(W, 5) : 0;
      run_op<C, K>(c, k, key, life, true);
      if (sim::chance(W, 1, 4)) sim::sleep_for(lives ? sim::draw(W, 3000) * MS : sim::draw(W, 50) * US);
      if (jumps && sim::chance(W, 1, 6)) { int64_t d = (int64_t)sim::draw(W, 8000) * 1000000; if (sim::chance(W, 1, 2)) { d = -d; sim::fault_count(sim::FT_clock_back); } else sim::fault_count(sim::FT_clock_forward); bool quiet = true; for (auto &o : *ops) if (o.end == lin::OPEN) quiet = false; if (quiet) sim::clock_jump(d); }
    }
    --*running; g_progress++;
  });
  if (!sim::block([running] { return *running == 0; }, in(600 * SEC))) sim::violate("no-progress", "an operation on the cache did not return");
}
template <class K> void run_single() {
  reset(); sim::default_schedule(); if (sim::chance(S, 1, 2)) sim::set_preempt(4 + sim::draw(S, 60)); if (sim::chance(W, 1, 8)) sim::fault_rate(sim::FT_thread_stall, 1, 300);
  sim::set_wall(sim::some_midnight() + 80000); sim::clock_jump((int64_t)sim::draw(W, 1000) * 1000000);
  typedef CLruCache<K, Val> C; C *c; bool big = sim::chance(W, 1, 8);
  g_cap = big ? 51 + sim::draw(W, 40) : sim::draw(W, 8);
  long cap = g_cap, sz, ms; K warm = mk<K>(999); { sim::User u; (void)warm; }
  uint64_t m0 = sim::heap_mark();
  // how many entries one eviction removes is the library's choice: learn it
  { long s1, s2; int extra = (int)cap + 1; { sim::User u; C p(cap); Val v(1); for (int i = 0; i < extra; i++) p.set(mk<K>(i), v, 0); s1 = p.getSize(); p.set(mk<K>(1000), v, 0); s2 = p.getSize(); }
    if (s1 != cap + 1) sim::violate("evicted-early", "after %ld insertions into a cache of capacity %ld it holds %ld entries", cap + 1, cap, s1);
    g_evict = s1 + 1 - s2; if (g_evict < 1 || s2 < 1) sim::violate("over-capacity", "an insertion into a cache of capacity %ld holding %ld entries leaves %ld", cap, s1, s2); }
  UR(c = new C(cap); ms = c->getMaxSize()); if (ms != cap) sim::violate("capacity", "getMaxSize() is %ld, configured %ld", ms, cap);
  int nt = sim::range(W, 1, 4), keys = big ? (int)cap + 8 : 1 + sim::draw(W, 14); bool lives = sim::chance(W, 1, 2);
  if (big) for (int i = 0; i < cap + 1; i++) run_op<C, K>(c, SET, i, 0, true);
  size_t pre = ops->size();
  threads<C, K>(c, nt, sim::range(W, 1, nt > 2 ? 7 : 12), keys, sim::chance(W, 1, 3), lives, sim::chance(W, 1, 2), sim::chance(W, 1, 6), big ? 5 : 0);
  run_op<C, K>(c, SIZE, 0, 0, true); for (int i = 0; i < keys; i++) run_op<C, K>(c, GET, i, 0, true); run_op<C, K>(c, SIZE, 0, 0, true);
  UR(sz = c->getSize()); if (sz > cap + 1) sim::violate("over-capacity", "%ld entries, capacity %ld", sz, cap);
  // the sequential part before the threads starts is applied directly
  St st; for (size_t i = 0; i < pre; i++) { lin::Op o = (*ops)[i]; if (!apply(o, st)) sim::violate("not-a-cache", "operation %zu while filling the cache is wrong", i); }
  std::vector<lin::Op> h; for (size_t i = pre; i < ops->size(); i++) h.push_back((*ops)[i]);
  int r = lin::check(h, st, apply, 100000);
  if (r == 0) sim::violate("not-a-cache", "no order of the operations explains the results (capacity %ld, evicting %ld):%s", cap, g_evict, dump(pre).c_str());
  if (r < 0) sim::inconclusive("history too wide");
  uint64_t hs = cap; for (auto &o : *ops) hs = hs * 31 + o.type * 4 + (o.ret < 0) * 2 + (o.life > 0); sim::state_mark(hs);
  if (sim::chance(W, 1, 3)) UR(c->clear());
  UR(delete c);
  if (sim::heap_live_since(m0)) sim::violate("memory-leak", "the cache is gone and holds memory: %s", sim::heap_describe_live(m0, 5).c_str());
}
// sharded: keys are independent registers whose entries may be evicted only when there are too many of them
struct RSt { long val; bool has; uint32_t life; int64_t c_lo, c_hi; uint64_t hash() const { return val * 2 + has; } };
bool g_may_evict;
bool rapply(const lin::Op &lo, RSt &s) {
  const Op &o = (*ops)[lo.who];
  switch (o.type) {
  case SET: s.has = true; s.val = o.arg; s.life = o.life; s.c_lo = o.s_lo; s.c_hi = o.s_hi; return true;
  case DEL: case CLEAR: s.has = false; s.val = 0; return true;
  case GET:
    if (!s.has) return o.ret < 0;
    if (o.ret < 0) { bool die = s.life && o.s_hi - s.c_lo > (int64_t)s.life; s.has = false; s.val = 0; return die || g_may_evict; }
    return s.val == o.ret && !(s.life && o.s_lo - s.c_hi > (int64_t)s.life);
  }
  return true;
}
template <class K> void run_sharded() {
  reset(); sim::default_schedule(); if (sim::chance(S, 1, 2)) sim::set_preempt(4 + sim::draw(S, 60));
  sim::set_wall(sim::some_midnight() + 80000); typedef CLruCacheV2<K, Val> C; C *c; K warm = mk<K>(999); (void)warm;
  uint64_t m0 = sim::heap_mark(); g_cap = sim::pick(W, {1, 1}) ? 32 * (6 + sim::draw(W, 20)) + sim::draw(W, 32) : sim::draw(W, 200); long cap = g_cap, ms, sz;
  UR(c = new C(cap); ms = c->getMaxSize()); if (ms != cap) sim::violate("capacity", "getMaxSize() is %ld, configured %ld", ms, cap);
  int nt = sim::range(W, 1, 4), keys = sim::chance(W, 1, 4) ? 1 + sim::draw(W, 60) : 1 + sim::draw(W, 6); g_may_evict = keys > cap / 32 + 1; bool lives = sim::chance(W, 1, 2);
  threads<C, K>(c, nt, sim::range(W, 1, 12), keys, sim::chance(W, 1, 3), lives, false, sim::chance(W, 1, 6), 0);
  long hits = 0; for (int i = 0; i < keys; i++) { run_op<C, K>(c, GET, i, 0, true); hits += ops->back().ret >= 0; }
  UR(sz = c->getSize()); if (sz > cap + 32) sim::violate("over-capacity", "%ld entries in 32 shards, capacity %ld", sz, cap); if (sz != hits) sim::violate("size-wrong", "getSize() is %ld, %ld keys can be looked up", sz, hits);
  if (cap < 200 && sim::chance(W, 1, 24)) { // overfilled: the capacity holds for all shards together, and what was just set is there
    int n = 32 * (int)(cap / 32 + cap % 32 + 8) + sim::draw(W, 1000); long top = 0; bool miss = false; { sim::User u; Val v(1), g; for (int i = 0; i < n; i++) { K k = mk<K>(5000 + i); c->set(k, v, 0); if (i % 16 == 0) { if (!c->get(k, g)) miss = true; long z = c->getSize(); if (z > top) top = z; } } }
    sim::probe("overfilled"); if (top > cap + 32) sim::violate("over-capacity", "%ld entries in 32 shards, capacity %ld", top, cap); if (miss) sim::violate("evicted-early", "an entry set a moment ago is missing in a cache of capacity %ld", cap); }
  for (int k = 0; k < keys; k++) {
    std::vector<lin::Op> h; for (auto &o : *ops) if (o.key == k || o.type == CLEAR) h.push_back(o);
    // a clear visits the shards one after another: for each key it takes effect somewhere within it
    int r = lin::check(h, RSt{0, false, 0, 0, 0}, rapply, 100000);
    if (r == 0) sim::violate("not-a-cache", "no order of the operations on key %d explains the results:%s", k, dump(0).c_str());
    if (r < 0) sim::inconclusive("history too wide");
  }
  uint64_t hs = cap; for (auto &o : *ops) hs = hs * 31 + o.type * 4 + (o.ret < 0) * 2 + (o.life > 0); sim::state_mark(hs);
  UR(delete c);
  if (sim::heap_live_since(m0)) sim::violate("memory-leak", "the cache is gone and holds memory: %s", sim::heap_describe_live(m0, 5).c_str());
}
}
SCENARIO("C14", single_string, 2) { run_single<std::string>(); }
SCENARIO("C14", single_int, 1) { run_single<int>(); }
SCENARIO("C14", sharded, 1) { run_sharded<std::string>(); }
