// C17: shared-memory bitmaps and arrays used by several processes that attach, store, read, clear, detach and die.
// Each simulated process owns its object (its attachment); stores are made one at a time, reads may overlap them.
#include <set>
#include "common.h"
#include "CBitMap.h"
#include "CShmArray.h"
using namespace lce;
namespace {
struct Wide { int a; short b; char c; };
const long UNKNOWN = -1;
struct Obj { virtual ~Obj() {} virtual bool init(int key, size_t n, bool cr, bool ro) = 0; virtual long get(size_t i) = 0; virtual bool set(size_t i, long v) = 0; virtual void clear() = 0; virtual size_t size() = 0; };
template <size_t B> struct BitObj : Obj { CBitmap<B> m;
  bool init(int k, size_t n, bool cr, bool ro) { return m.init(k, n, cr, ro); } long get(size_t i) { return m.get(i); } bool set(size_t i, long v) { return m.set(i, v); } void clear() { m.clear(); } size_t size() { return m.size(); } };
template <class T> T mkv(long v); template <class T> long unv(const T &t);
template <> char mkv<char>(long v) { return (char)v; } template <> long unv<char>(const char &t) { return (unsigned char)t; }
template <> int mkv<int>(long v) { return (int)v; } template <> long unv<int>(const int &t) { return t; }
template <> Wide mkv<Wide>(long v) { Wide w; memset(&w, 0, sizeof w); w.a = v; w.b = v * 7; w.c = v ^ (v ? 0x5a : 0); return w; }
template <> long unv<Wide>(const Wide &w) { return w.b == (short)(w.a * 7) && w.c == (char)(w.a ^ (w.a ? 0x5a : 0)) ? w.a : -2; }
template <class T> struct ArrObj : Obj { CShmArray<T> m;
  bool init(int k, size_t n, bool cr, bool ro) { return m.init(k, n, cr, ro); } long get(size_t i) { const CShmArray<T> &c = m; return unv<T>(c[i]); }
  bool set(size_t i, long v) { m[i] = mkv<T>(v); return true; } void clear() {} size_t size() { return m.size(); } };
enum { NK = 10 };
struct Kind { const char *name; int width; long maxv; bool arr; Obj *(*mk)(); };
template <class X> Obj *mk() { return new X; }
const Kind KIND[NK] = {
  {"bitmap<1>", 1, 1, false, mk<BitObj<1>>}, {"bitmap<2>", 2, 3, false, mk<BitObj<2>>}, {"bitmap<3>", 3, 7, false, mk<BitObj<3>>}, {"bitmap<4>", 4, 15, false, mk<BitObj<4>>},
  {"bitmap<5>", 5, 31, false, mk<BitObj<5>>}, {"bitmap<6>", 6, 63, false, mk<BitObj<6>>}, {"bitmap<8>", 8, 255, false, mk<BitObj<8>>},
  {"array<char>", 8, 255, true, mk<ArrObj<char>>}, {"array<int>", 32, 1 << 30, true, mk<ArrObj<int>>}, {"array<struct>", 96, 1 << 20, true, mk<ArrObj<Wide>>}};
// what the memory behind a key holds
struct Seg { int key; const Kind *k; bool exists = false, half = false /*its creation was cut short*/, was_half = false; size_t n = 0, cap = 0; std::vector<long> v; };
size_t cap_of(const Kind *k, size_t n) { return k->width >= 8 ? n : (n + 7) / 8 * 8; }
struct Proc { Obj *o = nullptr; Seg *s = nullptr; bool open = false, ro = false, tried = false; size_t n = 0; };
struct World {
  std::vector<Seg> segs; std::vector<Proc> procs;
  long busy_slot = -1; Seg *busy = nullptr; // slot being stored right now (-2: all of them)
};
World *w;
const char *nm(Seg *s) { return s->k->name; }
size_t pick_n(Seg *s) {
  if (sim::chance(W, 1, 12)) return 65530 + sim::draw(W, 1 << (4 + sim::draw(W, s->k->width >= 64 ? 15 : 18)));
  switch (sim::pick(W, {3, 3, 1, 1})) {
  case 0: return 1 + sim::draw(W, 24); case 1: return 1 + sim::draw(W, 200); case 2: return s->k->width == 96 ? 1 + sim::draw(W, 300) : (4096 - 8) * 8 / s->k->width - sim::draw(W, 3); default: return 8 * (1 + sim::draw(W, 20)); }
}
void check_get(Proc &p, size_t i, const char *when) {
  Seg *s = p.s; long r; { sim::User u; r = p.o->get(i); }
  sim::op_done(); if (i >= p.n) { if (r != 0) sim::violate("out-of-range-read", "%s: reading slot %zu of %zu returned %ld", nm(s), i, p.n, r); return; }
  if (s->v[i] == UNKNOWN) { if (w->busy != s) { if (s->k->width == 96 && r == -2) return; s->v[i] = r; } return; }
  if (w->busy == s && (w->busy_slot == -2 || w->busy_slot == (long)i)) return;
  if (r != s->v[i]) sim::violate("slot-value", "%s of %zu slots, slot %zu: stored %ld, read %ld %s", nm(s), s->n, i, s->v[i], r, when);
}
size_t near_slot(Proc &p, size_t i) { long j = (long)i + (long)sim::draw(W, 9) - 4; return j < 0 ? 0 : (size_t)j >= p.n ? p.n - 1 : j; }
size_t any_slot(Proc &p) { switch (sim::pick(W, {3, 2, 1})) { case 0: return sim::draw(W, p.n); case 1: return p.n - 1 - sim::draw(W, std::min<size_t>(p.n, 8)); default: return sim::draw(W, std::min<size_t>(p.n, 4)); } }
// runs one operation as the process's own thread; true unless the process died within it
bool as_process(Proc &p, bool may_die, const std::function<void()> &f, Seg *rd) {
  bool *done = new bool(false); sim::Fid id = sim::spawn("user", [=] { f(); *done = true; });
  sim::Fid other = -1;
  if (rd && sim::chance(W, 1, 3)) { std::vector<int> c; for (size_t i = 0; i < w->procs.size(); i++) if (w->procs[i].open && w->procs[i].s == rd && &w->procs[i] != &p) c.push_back(i);
    if (!c.empty()) { Proc *q = &w->procs[c[sim::draw(W, c.size())]]; int k = 1 + sim::draw(W, 3); std::vector<size_t> sl; for (int i = 0; i < k; i++) sl.push_back(w->busy_slot >= 0 ? near_slot(*q, w->busy_slot) : any_slot(*q)); other = sim::spawn("reader", [=] { for (size_t s : sl) check_get(*q, s, "while another process was storing"); sim::probe("read during a store"); }); } }
  if (may_die && sim::chance(W, 1, 8)) { int y = sim::draw(W, 12); while (y-- && !*done) sim::yield(); if (!*done) { sim::kill_fiber(id); if (other >= 0) sim::wait_all({other}); sim::probe("process died inside a call"); return false; } }
  sim::wait_all({id}); if (other >= 0) sim::wait_all({other});
  return true;
}
void lose(Proc &p) { p.o = nullptr; p.open = p.tried = false; p.s = nullptr; } // died: nothing of it runs any more, the memory stays
void do_open(Proc &p, bool final_scan, Seg *fs) {
  Seg *s = final_scan ? fs : &w->segs[sim::draw(W, w->segs.size())];
  if (p.o && p.s && p.s->k != s->k) { sim::User u; delete p.o; p.o = nullptr; }
  if (!p.o) { sim::User u; p.o = s->k->mk(); }
  bool had = s->exists; size_t n = s->exists && (final_scan || sim::chance(W, 3, 4)) ? s->n : pick_n(s); bool cr = !final_scan && sim::chance(W, 3, 4), ro = sim::chance(W, 1, 5);
  p.s = s; p.open = false; p.ro = ro; p.n = n; p.tried = true;
  bool *ok = new bool(false); uint64_t f0 = sim::faults_fired(sim::FT_shm_fail); Obj *o = p.o;
  int key = s->key; bool lived = as_process(p, true, [=] { bool r; { sim::User u; r = o->init(key, n, cr, ro); } *ok = r; }, nullptr);
  bool now = sim::shm_peek(s->key).size() > 0, failed = sim::faults_fired(sim::FT_shm_fail) != f0;
  if (!had && now) { s->exists = true; s->n = n; s->cap = cap_of(s->k, n); s->v.assign(s->cap, 0); s->half = s->was_half = !lived || failed; if (!cr) sim::violate("created-unasked", "%s: attaching without the create flag created the segment", nm(s)); if (s->half) sim::probe("creation cut short"); }
  if (!lived) { if (had && s->half && !ro && n < s->n) s->n = n; /* it may have completed the interrupted creation with its own, smaller size */ lose(p); return; }
  sim::ev("open %s n=%zu create=%d ro=%d -> %d", nm(s), n, cr, ro, *ok);
  sim::state_mark((((s->k - KIND) * 4 + cr * 2 + ro) * 4 + (had ? n == s->n ? 1 : n < s->n ? 2 : 3 : 0)) * 4 + *ok * 2 + s->half);
  if (*ok) {
    if (!now) sim::violate("attached-to-nothing", "%s: init succeeded but there is no such segment", nm(s));
    if (n > s->cap) sim::violate("size-mismatch-served", "%s: memory created for %zu slots was attached as %zu slots", nm(s), s->n, n);
    size_t sz; { sim::User u; sz = o->size(); }
    if (sz != n && !(s->k->arr && (sz == s->n || s->was_half) && sz <= s->cap)) sim::violate("wrong-size", "%s: size() is %zu after init with %zu (memory of %zu)", nm(s), sz, n, s->n);
    if (s->was_half && n < s->n) s->n = n;
    if (s->half && !ro && had) { s->half = false; sim::probe("interrupted creation completed"); }
    p.open = true;
  } else {
    if (!failed && !s->half && (had ? n == s->n : cr)) sim::violate("init-refused", "%s: init with %zu slots (existing: %zu, create flag %d) failed without a reason", nm(s), n, had ? s->n : 0, cr);
    if (failed) sim::probe("init failed by a system call");
  }
}
void do_close(Proc &p) { sim::User u; delete p.o; p.o = nullptr; p.open = p.tried = false; p.s = nullptr; }
void do_set(Proc &p) {
  Seg *s = p.s; Obj *o = p.o;
  size_t i = any_slot(p); bool out = !s->k->arr && sim::chance(W, 1, 8); if (out) i = sim::chance(W, 1, 2) ? p.n + sim::draw(W, 3) : p.n + sim::draw(W, 1 << sim::draw(W, 30));
  bool over = !s->k->arr && s->k->width != 1 && s->k->width != 8 && sim::chance(W, 1, 10); long val = over ? s->k->maxv + 1 + sim::draw(W, 255 - s->k->maxv) : sim::chance(W, 1, 3) ? s->k->maxv : sim::draw(W, std::min<long>(s->k->maxv, 1 << 20) + 1);
  bool *r = new bool(false); w->busy = s; w->busy_slot = i < p.n ? (long)i : -1;
  bool lived = as_process(p, true, [=] { bool x; { sim::User u; x = o->set(i, val); } *r = x; }, s);
  w->busy = nullptr; w->busy_slot = -1;
  sim::ev("set %s [%zu]=%ld -> %d", nm(s), i, val, *r);
  if (i < p.n && (!lived || (over && *r))) s->v[i] = UNKNOWN;
  if (!lived) { lose(p); return; }
  if (i >= p.n) { if (*r) sim::violate("out-of-range-write", "%s: storing to slot %zu of %zu was accepted", nm(s), i, p.n); sim::probe("store out of range refused"); }
  else if (!over) { if (!*r) sim::violate("store-refused", "%s: storing %ld to slot %zu of %zu was refused", nm(s), val, i, p.n); s->v[i] = val; }
  else sim::probe("value wider than the slot");
  for (int k = 0; k < 2 && p.open; k++) check_get(p, i < p.n ? near_slot(p, i) : p.n - 1, "after a store nearby");
}
void do_clear(Proc &p) {
  Seg *s = p.s; Obj *o = p.o; w->busy = s; w->busy_slot = -2; bool lived = as_process(p, true, [=] { sim::User u; o->clear(); }, nullptr);
  w->busy = nullptr; w->busy_slot = -1; sim::ev("clear %s", nm(s));
  for (size_t i = 0; i < s->cap; i++) s->v[i] = !lived || i >= p.n || (s->was_half && i >= s->n) ? UNKNOWN : 0;
  if (!lived) lose(p);
}
void run(bool crashes_only_after, int np) {
  (void)crashes_only_after; w = new World; sim::default_schedule(); sim::set_preempt(1 + sim::draw(S, 12)); if (sim::chance(W, 1, 2)) sim::fault_rate(sim::FT_shm_fail, 1, 4 + sim::draw(W, 12));
  int nseg = 1 + sim::draw(W, 2); w->segs.resize(nseg); for (int i = 0; i < nseg; i++) { w->segs[i].key = 0x1000 + i * 77; w->segs[i].k = &KIND[i && sim::chance(W, 1, 2) ? w->segs[0].k - KIND : sim::draw(W, NK)]; }
  w->procs.resize(np);
  if (np > 1 && sim::chance(W, 1, 3)) { // two processes create it at the same moment, with the same size
    Seg *s = &w->segs[0]; size_t n = pick_n(s); uint64_t f0 = sim::faults_fired(sim::FT_shm_fail); std::vector<sim::Fid> f; bool *ok = new bool[2]();
    for (int i = 0; i < 2; i++) { Proc &p = w->procs[i]; { sim::User u; p.o = s->k->mk(); } p.s = s; p.n = n; p.tried = true; p.ro = false; Obj *o = p.o; int key = s->key; f.push_back(sim::spawn("user", [=] { bool r; { sim::User u; r = o->init(key, n, true, false); } ok[i] = r; })); }
    sim::wait_all(f); bool failed = sim::faults_fired(sim::FT_shm_fail) != f0;
    if (sim::shm_peek(s->key).size()) { s->exists = true; s->n = n; s->cap = cap_of(s->k, n); s->v.assign(s->cap, 0); s->half = s->was_half = failed; }
    for (int i = 0; i < 2; i++) { w->procs[i].open = ok[i]; if (!ok[i] && !failed) sim::violate("init-refused", "%s: init with %zu slots failed because another process created it at the same moment", nm(s), n); }
    sim::probe("created by two at once");
  }
  int ops = 10 + sim::draw(W, 60);
  for (int k = 0; k < ops; k++) {
    Proc &p = w->procs[sim::draw(W, np)];
    if (!p.open) { if (p.tried && p.o && p.s && !p.s->k->arr && sim::chance(W, 1, 2)) { // an object whose init failed holds nothing
        size_t i = sim::draw(W, 3 + p.n); bool x; long g; { sim::User u; g = p.o->get(i); x = p.o->set(i, 1); } if (x || g) sim::violate("out-of-range-write", "%s: slot %zu of an object whose init failed: get %ld, set %d", nm(p.s), i, g, x); sim::probe("object whose init failed refused"); }
      do_open(p, false, nullptr); continue; }
    switch (sim::pick(W, {10, 10, 1, 2, 2})) {
    case 0: if (!p.ro) { do_set(p); break; } // fall through
    case 1: for (int j = 0; j < 4; j++) check_get(p, p.s->k->arr || sim::chance(W, 7, 8) ? any_slot(p) : p.n + sim::draw(W, 3), "later"); break;
    case 2: if (!p.ro && !p.s->k->arr) do_clear(p); break;
    case 3: do_open(p, false, nullptr); sim::probe("re-initialised an object in use"); break;
    case 4: if (sim::chance(W, 1, 3)) { sim::fault_count(sim::FT_proc_crash); lose(p); } else do_close(p); break;
    }
  }
  sim::faults_off();
  for (auto &s : w->segs) if (s.exists) { Proc q; size_t tries = 0; do { q = Proc(); do_open(q, true, &s); } while (!q.open && ++tries < 20); if (!q.open) { if (s.half) continue; sim::violate("init-refused", "%s: a later process cannot attach", nm(&s)); }
    if (q.n <= 40000) for (size_t i = 0; i < q.n; i++) check_get(q, i, "by a process that attached last");
    else { std::set<size_t> look; for (size_t i = 0; i < q.n; i++) if (s.v[i] && s.v[i] != UNKNOWN) { look.insert(i); for (size_t b = 1; b < q.n; b *= 2) { if ((i ^ b) < q.n) look.insert(i ^ b); if (i >= b) look.insert(i - b); } } for (int k = 0; k < 300; k++) look.insert(any_slot(q)); for (size_t i : look) check_get(q, i, "by a process that attached last"); sim::probe("large memory scanned"); }
    do_close(q); sim::probe("final scan"); }
}
}
SCENARIO("C17", shm_one_process, 1) { run(false, 1); }
SCENARIO("C17", shm_processes, 3) { run(false, 2 + sim::draw(W, 3)); }
