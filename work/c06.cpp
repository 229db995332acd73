// C06: timers of the event loop, the single-loop server and the network workers.
#include "common.h"
#include "CEvent.h"
#include "CCommMgr.h"
#include "CNetWorkerMgr.h"
using namespace lce;
namespace {
struct Tok { int id; int64_t lo, hi; uint32_t delay; bool live, fired, jumped; ns_t reg; int64_t high; }; // due within [lo,hi] ms of the wall clock
struct Back { virtual ~Back() {} virtual int add(int id, uint32_t ms, void *p) = 0; virtual int del(int id) = 0; virtual int msg(void *p) = 0; virtual void run() = 0; virtual int stop() = 0; };
struct World { Back *b; std::deque<Tok> toks; std::map<int, size_t> cur; std::deque<std::pair<int, bool>> msgs; int loop_tid, jumps, budget, ids, depth; int64_t high; ns_t handler_end; bool jumping, stalls, ended, stop_in; ns_t stop_at; size_t pend_msgs; bool stopped;
  World() : b(nullptr), loop_tid(-1), jumps(0), budget(0), ids(6), depth(0), high(0), handler_end(0), jumping(false), stalls(false), ended(false), stop_in(false), stop_at(0), pend_msgs(0), stopped(false) {} } *w;
int64_t wall_ms() { return sim::wall_us() / 1000; }
uint32_t some_delay() {
  switch (sim::pick(W, {4, 4, 3, 2, 2})) { case 0: return sim::draw(W, 5); case 1: return sim::draw(W, 60); case 2: return 10 * sim::draw(W, 8); case 3: return sim::draw(W, 3000); default: return 2900 + sim::draw(W, 4000); }
}
void add(int id, uint32_t d) {
  if (w->budget-- <= 0) return;
  Tok t; t.id = id; t.delay = d; t.live = t.fired = false; t.jumped = false; t.reg = sim::now(); t.high = 0; t.lo = t.hi = 0;
  w->toks.push_back(t); size_t i = w->toks.size() - 1;
  auto it = w->cur.find(id); size_t old = it == w->cur.end() ? ~0ull : it->second; w->cur.erase(id);
  int j = w->jumps; int64_t w0 = sim::wall_us(); ns_t m0 = sim::now();
  if (old != ~0ull) { w->toks[old].live = false; sim::probe("replaced"); }
  sim::ev("add %d %u", id, d);
  int r; { sim::User u; r = w->b->add(id, d, (void *)(i + 1)); }
  int64_t w1 = sim::wall_us(); (void)m0;
  if (r != 0) sim::violate("timer-refused", "addTimer(%d, %u) failed", id, d);
  Tok &q = w->toks[i]; q.lo = std::min(w0, w1) / 1000 + d; q.hi = std::max(w0, w1) / 1000 + d; q.jumped = j != w->jumps;
  if (!q.fired) { q.live = true; w->cur[id] = i; }
  sim::op_done();
}
void del(int id) {
  auto it = w->cur.find(id); if (it != w->cur.end()) { w->toks[it->second].live = false; w->cur.erase(it); sim::probe("removed_pending"); }
  int r; { sim::User u; r = w->b->del(id); }
  if (r != 0) sim::violate("timer-refused", "delTimer(%d) failed", id);
  sim::op_done();
}
void actions() {
  if (w->ended) return;
  int k = sim::pick(W, {3, 3, 2, 1});
  while (k-- > 0) { int id = sim::draw(W, w->ids); if (sim::chance(W, 1, 3)) del(id); else add(id, some_delay()); }
  if (sim::chance(W, 1, 25)) { sim::ev("handler sleeps"); UR(::usleep(1000 * (1 + sim::draw(W, 40)))); sim::ev("slept"); }
  if (w->stop_in && !w->stopped && sim::chance(W, 1, 30)) { w->stopped = true; w->stop_at = sim::now(); UR(w->b->stop()); }
}
void fire(int id, void *p) {
  sim::Kern k; size_t i = (size_t)p - 1; int64_t now = wall_ms();
  if (w->loop_tid < 0) w->loop_tid = sim::self();
  if (sim::self() != w->loop_tid) sim::violate("timer-wrong-thread", "timer %d fired outside the loop's thread", id);
  if (i >= w->toks.size()) sim::violate("timer-corrupt", "timer handler called with data nobody registered");
  Tok &t = w->toks[i];
  if (t.id != id) sim::violate("timer-corrupt", "timer registered as %d fired as %d", t.id, id);
  if (t.fired) sim::violate("timer-twice", "timer %d (delay %u) fired twice", id, t.delay);
  if (!t.live) sim::violate("timer-dead", "timer %d (delay %u) fired after it was removed or replaced", id, t.delay);
  if (t.lo > std::max(now, t.high)) sim::violate("timer-early", "timer %d fired %lld ms before its delay of %u ms had elapsed", id, (long long)(t.lo - now), t.delay);
  for (auto &o : w->toks) if (o.live && &o != &t && o.hi < t.lo) sim::violate("timer-order", "timer %d, due %lld ms later than timer %d, fired first", id, (long long)(t.lo - o.hi), o.id);
  if (!w->jumping && !w->stalls) {
    ns_t due = t.reg + (ns_t)t.delay * MS; ns_t from = std::max(due, w->handler_end);
    if (sim::now() > from + 6 * MS) sim::violate("timer-late", "timer %d (delay %u ms) fired %.1f ms after it was due, with the loop idle for %.1f ms", id, t.delay, (sim::now() - due) / 1e6, (sim::now() - from) / 1e6);
  }
  t.fired = true; t.live = false; w->cur.erase(id);
  sim::op_done();
  actions();
  w->handler_end = sim::now();
}
void on_msg(void *p) {
  sim::Kern k; size_t i = (size_t)p - 1; if (i >= w->msgs.size() || w->msgs[i].second) sim::violate("message-corrupt", "message delivered twice or never posted");
  if (w->loop_tid < 0) w->loop_tid = sim::self();
  w->msgs[i].second = true; w->pend_msgs--; actions(); w->handler_end = sim::now();
}
struct EvBack : Back { CEvent *e; EvBack() { e = new CEvent; if (e->init(64) != 0) { sim::Kern k; sim::violate("setup-failed", "initialising failed although no fault was injected"); } }
  int add(int id, uint32_t ms, void *p) { return e->addTimer(id, ms, [](int i, void *q) { fire(i, q); }, p); }
  int del(int id) { return e->delTimer(id); } int msg(void *p) { return e->addMessage(1, [](int, void *q) { on_msg(q); }, p); } void run() { e->run(); } int stop() { return e->stop(); } };
struct CommBack : Back, CProcessor { CCommMgr *m; CommBack() { m = &CCommMgr::getInstance(); if (m->init(64) != 0) { sim::Kern k; sim::violate("setup-failed", "initialising failed although no fault was injected"); } }
  int add(int id, uint32_t ms, void *p) { return m->addTimer(id, ms, this, p); }
  int del(int id) { return m->delTimer(id); } int msg(void *p) { return m->sendMessage(1, this, p); } void run() { m->start(); } int stop() { return m->stop(); }
  void onRead(StSession &, const char *, const int) {} void onClose(StSession &) {} void onConnect(StSession &, bool, void *) {} void onError(StSession &, const char *, int) {}
  void onTimer(int id, void *p) { fire(id, p); } void onMessage(int, void *p) { on_msg(p); } };
struct Wk : CNetWorker { void onTimer(int id, void *p) { fire(id, p); } void onMessage(int, void *p) { on_msg(p); } };
struct WkBack : Back { Wk *m; WkBack() { m = new Wk; if (m->CNetWorker::init(64u) != 0) { sim::Kern k; sim::violate("setup-failed", "initialising failed although no fault was injected"); } }
  int add(int id, uint32_t ms, void *p) { return m->addTimer(id, ms, p); }
  int del(int id) { return m->delTimer(id); } int msg(void *p) { return m->sendMessage(1, p); } void run() { m->start(); } int stop() { return 0; } };
void jump(int64_t d) { int64_t now = wall_ms(); for (auto &t : w->toks) if (!t.fired && now > t.high) t.high = now; w->jumps++; sim::clock_jump(d); if (d < 0) sim::fault_count(sim::FT_clock_back); else sim::fault_count(sim::FT_clock_forward); }
void post() { w->msgs.push_back({0, false}); size_t i = w->msgs.size(); w->pend_msgs++; int r; { sim::User u; r = w->b->msg((void *)i); } if (r) sim::violate("message-refused", "posting failed"); }
void go(int kind) {
  w = new World; sim::default_schedule();
  sim::fault_swarm({sim::FT_epoll_eintr, sim::FT_epoll_reorder, sim::FT_pipe_small, sim::FT_epoll_partial}, 5);
  w->stalls = sim::chance(W, 1, 5); if (w->stalls) sim::fault_rate(sim::FT_thread_stall, 1, 200);
  w->jumping = sim::chance(W, 1, 3); w->budget = sim::range(W, 2, 60); w->ids = sim::range(W, 1, 8); w->stop_in = kind != 2 && sim::chance(W, 1, 4);
  sim::set_wall(sim::some_midnight() + sim::draw(W, 100000)); sim::clock_jump(sim::draw(W, 1000) * 1000000ll + sim::draw(W, 1000) * 1000);
  { sim::User u; w->b = kind == 0 ? (Back *)new EvBack : kind == 1 ? (Back *)new CommBack : (Back *)new WkBack; }
  int early = sim::draw(W, 6); for (int i = 0; i < early; i++) { int id = sim::draw(W, w->ids); if (sim::chance(W, 1, 4)) del(id); else add(id, some_delay()); }
  bool longs = sim::chance(W, 1, 4); uint32_t ld = 0;
  if (longs) { static const uint32_t big[] = {0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffff0u, 4000000u, 0x80000001u}; ld = big[sim::draw(W, 6)]; if (w->budget <= 0) w->budget = 1; add(1000, ld); if (sim::chance(W, 1, 2)) { w->budget++; add(1001, 0xffffffffu - sim::draw(W, 3)); } }
  sim::Fid loop = -1;
  if (kind == 2) { sim::User u; w->b->run(); } else loop = sim::spawn("loop", [] { w->loop_tid = sim::self(); sim::User u; w->b->run(); });
  w->handler_end = sim::now();
  if (w->jumping) sim::spawn("clock", [] { int n = sim::range(W, 1, 5); for (int i = 0; i < n && !w->ended; i++) { sim::sleep_for(sim::draw(W, 2000) * MS); if (w->ended) break; static const int64_t d[] = {1, 40, 700, 5000, 3600000}; int64_t x = d[sim::draw(W, 5)] * 1000000 + sim::draw(W, 1000000); jump(sim::chance(W, 1, 2) ? x : -x); } });
  std::vector<sim::Fid> v; int np = sim::draw(W, 3);
  for (int p = 0; p < np; p++) v.push_back(sim::spawn("poster", [] { int n = sim::range(W, 1, 10); for (int i = 0; i < n; i++) { sim::sleep_for(sim::draw(W, 700) * MS); post(); } }));
  if (np == 0 && early == 0) post();
  sim::sleep_for(sim::draw(W, 8000) * MS + sim::draw(W, 1000) * US);
  sim::wait_all(v);
  if (w->stopped) { // a handler asked the loop to stop
    if (!sim::block([loop] { return sim::fiber_done(loop); }, in(30 * SEC))) sim::violate("stop-ignored", "run() did not return within 30 s of stop() from a handler");
    size_t n = 0; for (auto &t : w->toks) n += t.fired; w->ended = true; sim::sleep_for(5 * SEC); size_t m = 0; for (auto &t : w->toks) m += t.fired;
    if (n != m) sim::violate("fired-after-stop", "timers fired after run() had returned"); return;
  }
  w->ended = true; sim::sleep_for(10 * MS); sim::faults_off();
  // everything still pending must fire when its time comes
  while (!w->stopped) {
    int64_t now = wall_ms(); size_t pick = ~0ull; int64_t far = 0;
    for (size_t i = 0; i < w->toks.size(); i++) if (w->toks[i].live) { int64_t left = w->toks[i].hi - now; if (left > far || pick == ~0ull) { if (left <= 60000 || w->toks[i].delay >= 4000000u) {} far = std::max(left, far); pick = i; } }
    if (pick == ~0ull) break;
    if (far > 60000) { // too far to wait for: watch it not firing, then move the clock close to the next due time
      sim::sleep_for(7 * SEC); int64_t next = INT64_MAX; for (auto &t : w->toks) if (t.live) next = std::min(next, t.lo);
      if (next == INT64_MAX) break;
      now = wall_ms(); w->jumping = true; if (next - now > 8000) { sim::probe("long_timer_jump"); jump((next - now - 1500 - (int64_t)sim::draw(W, 3000)) * 1000000); continue; }
    }
    size_t left = 0; for (auto &t : w->toks) left += t.live;
    int64_t next = INT64_MAX; size_t ni = 0; for (size_t i = 0; i < w->toks.size(); i++) if (w->toks[i].live && w->toks[i].hi < next) { next = w->toks[i].hi; ni = i; }
    ns_t wait = (next > now ? (ns_t)(next - now) * MS : 0) + (w->stalls ? 20 : 4) * SEC;
    World *ww = w; sim::block([ww, ni] { return !ww->toks[ni].live; }, in(wait));
    if (w->toks[ni].live) sim::violate("timer-lost", "timer %d (delay %u ms) was due %lld ms ago and has not fired", w->toks[ni].id, w->toks[ni].delay, (long long)(wall_ms() - next));
  }
  World *wm = w; if (!w->stopped) sim::block([wm] { return wm->pend_msgs == 0 || wm->stopped; }, in(w->stalls ? 20 * SEC : 2 * SEC));
  if (w->pend_msgs && !w->stopped) sim::violate("message-lost", "a message was never delivered");
  sim::state_mark(w->toks.size() * 64 + w->msgs.size() + kind);
  if (kind != 2) {
    ns_t t0 = sim::now(); { sim::User u; w->b->stop(); }
    if (!sim::block([loop] { return sim::fiber_done(loop); }, in(20 * SEC))) sim::violate("stop-ignored", "run() did not return within 20 s of stop()");
    (void)t0; if (!w->stalls) { /* poll period 3 s */ if (sim::now() > t0 + 4 * SEC) sim::violate("stop-late", "run() returned %.1f s after stop()", (sim::now() - t0) / 1e9); }
  }
}
}
SCENARIO("C06", timers_event, 4) { go(0); }
SCENARIO("C06", timers_comm, 1) { go(1); }
SCENARIO("C06", timers_worker, 1) { go(2); }
