// C08: the task pool (CTask): exactly-once execution, order, refusal, completion, stop.
#include "common.h"
#include "CTask.h"
#include <unistd.h>
using namespace lce;

namespace {
struct Task { int type; uint64_t start, end, t_started; int ret /*-2 in flight*/, epoch; bool started, finished; int idx; };
struct Pool;
struct World {
  Pool *pool; std::deque<Task> tasks; int nthreads, max; std::vector<int> busy; std::map<int, int> idx_of_fiber;
  int accepted_started, inflight, accepted, started, lost_ok; bool running, stopping, stop_from_task, self_stopped; int stop_at; int nested_left; bool throwing; uint64_t progress;
  int stops_active; bool stopped_fully; bool deleted, ever_run; int alive;
  int meet, met; // tasks that wait for each other: how many, how many are there
} *w;
} void dispatch(int who); namespace {
void stop_pool(bool inside);
struct Pool : CTask {
  char *mine; // memory of the pool's subclass, used by every task
  Pool() { mine = new char[64]; }
  ~Pool() { delete[] mine; }
  void onWork(int type, void *data, int index) {
    mine[index & 63]++;
    size_t i = (size_t)data - 1; Task *t;
    {
      sim::Kern k;
      if (w->deleted) sim::violate("ran-after-delete", "a task ran after the pool was destroyed");
      if (w->stopped_fully) sim::violate("ran-after-stop", "a task was started after stop() had returned");
      if (i >= w->tasks.size()) sim::violate("task-invented", "onWork called with data nobody dispatched");
      t = &w->tasks[i];
      if (t->type != type) sim::violate("task-altered", "task %zu dispatched with type %d, executed with type %d", i, t->type, type);
      if (t->ret == -1) sim::violate("refused-executed", "task %zu was refused and yet executed", i);
      if (t->started) sim::violate("task-twice", "task %zu executed twice", i);
      if (index < 0 || index >= w->nthreads) sim::violate("index-range", "thread index %d outside 0..%d", index, w->nthreads - 1);
      if (w->busy[index]) sim::violate("index-shared", "thread index %d is in use by two tasks at the same time", index);
      int fewer = 0, in_work = 0;
      for (int b : w->busy) in_work += b;
      for (size_t j = 0; j < w->tasks.size(); j++) { Task &o = w->tasks[j]; if (!o.started && o.ret == 0 && o.end < t->start) fewer++; }
      // another thread may have taken an earlier task and not have entered onWork yet
      if (fewer > w->nthreads - 1 - in_work) sim::violate("task-order", "task %zu started while %d tasks accepted before it were not, although only %d other threads are free", i, fewer, w->nthreads - 1 - in_work);
      t->started = true; t->t_started = sim::step(); t->idx = index; w->busy[index] = 1; w->started++; w->progress++;
      sim::state_mark(((uint64_t)in_work << 20) ^ ((uint64_t)(w->accepted - w->started + 8) << 8) ^ w->nthreads ^ (w->running << 30));
    }
    { sim::Kern k; if (w->meet) { sim::probe("meeting"); w->met++; World *ww = w; if (!sim::block([ww] { return ww->met >= ww->meet; }, in(20 * SEC))) sim::violate("task-waits", "%d tasks were accepted by an idle pool of %d threads and only %d of them were started while these wait", w->meet, w->alive, w->met); } }
    int act;
    { sim::Kern k; act = sim::draw(W, 8); }
    if (act == 0) { int us; { sim::Kern k; us = 1 + sim::draw(W, 20000); } ::usleep(us); }
    else if (act == 1) { bool d; { sim::Kern k; d = w->nested_left > 0; if (d) w->nested_left--; if (d) ::dispatch(100); } }
    mine[index & 63]++;
    bool st;
    { sim::Kern k; st = w->stop_from_task && !w->self_stopped && --w->stop_at <= 0; if (st) { w->self_stopped = true; stop_pool(true); } }
    if (act == 2) ::usleep(1000);
    mine[index & 63]++;
    sim::Kern k; t->finished = true; w->busy[index] = 0; w->progress++; sim::op_done();
    if (w->deleted || w->stopped_fully) sim::violate("ran-after-stop", "a task was still running after stop() had returned");
  }
};
}
void dispatch(int) {
  Task t; t.type = (int)sim::draw(W, 100000) - 7; t.start = sim::step(); t.end = ~0ull; t.ret = -2; t.started = t.finished = false; t.idx = -1;
  w->tasks.push_back(t); size_t i = w->tasks.size() - 1; int type = t.type;
  w->inflight++;
  int r; { sim::User u; r = w->pool->dispatch(type, (void *)(i + 1)); }
  w->inflight--; Task &q = w->tasks[i]; q.end = sim::step(); q.ret = r == 0 ? 0 : -1;
  if (r == 0) w->accepted++;
  else {
    sim::probe("refused");
    if (q.started) sim::violate("refused-executed", "task %zu was refused and yet executed", i);
    // everything not started before the call began may have been in the queue at some moment of it
    int u = 0; for (auto &o : w->tasks) if (&o != &q && o.ret != -1 && (!o.started || o.t_started >= q.start)) u++;
    if (u < w->max) sim::violate("refused-early", "a dispatch was refused with at most %d tasks queued, the limit is %d", u, w->max);
  }
  // what is certainly queued: accepted, not started, and not in the hands of a thread between taking and starting it
  int idle = w->nthreads; for (int b : w->busy) idle -= b;
  int lower = w->accepted - w->started - (w->stopped_fully || !w->ever_run ? 0 : idle);
  if (lower > w->max + 1) sim::violate("queue-overrun", "%d tasks are queued, the limit is %d", lower, w->max);
}
namespace {
void stop_pool(bool inside) {
  w->stops_active++; w->running = false;
  int r; { sim::User u; r = w->pool->stop(); }
  w->stops_active--;
  if (!inside) { w->stopped_fully = true; for (auto &t : w->tasks) if (t.started && !t.finished) sim::violate("stop-early", "stop() returned while a task was still running"); }
  (void)r;
}
void start_pool() {
  int before = sim::threads_created();
  w->stopped_fully = false; w->running = w->ever_run = true;
  int r; { sim::User u; r = w->pool->run(); }
  (void)r; // run() does not tell which threads could be started
  w->alive = sim::faults_fired(sim::FT_thread_create_fail) ? sim::threads_created() - before : w->nthreads;
}
void settle(const char *what) {
  if (w->alive == 0) { sim::probe("no_thread_started"); return; }
  World *ww = w;
  while (true) {
    uint64_t before = w->progress;
    if (sim::block([ww] { for (auto &t : ww->tasks) if ((t.ret == 0 && !t.finished) || t.ret == -2) return false; return true; }, in(20 * SEC))) break;
    if (w->progress == before) { size_t n = 0; for (auto &t : w->tasks) if (t.ret == 0 && !t.finished) n++; sim::violate("task-lost", "%zu accepted tasks were not executed although the pool runs (%s)", n, what); }
  }
}
void common() {
  sim::default_schedule();
  sim::fault_swarm({sim::FT_cond_spurious}, 4);
  if (sim::chance(W, 1, 4)) sim::fault_rate(sim::FT_thread_stall, 1, 100);
  if (sim::chance(W, 1, 6)) sim::fault_rate(sim::FT_thread_create_fail, 1, 4);
  w->nthreads = sim::range(W, 1, 4); w->max = sim::chance(W, 1, 3) ? sim::range(W, 1, 5) : 1000; w->busy.assign(w->nthreads, 0);
  w->nested_left = sim::chance(W, 1, 2) ? sim::range(W, 1, 10) : 0;
  int r; { sim::User u; w->pool = new Pool(); r = w->pool->init(w->nthreads, w->max); }
  if (r != 0) sim::violate("init-failed", "init failed");
}
std::vector<sim::Fid> dispatchers(int n, int per) {
  std::vector<sim::Fid> v;
  for (int p = 0; p < n; p++) v.push_back(sim::spawn("dispatcher", [p, per] {
    for (int i = 0; i < per; i++) { if (sim::chance(W, 1, 4)) sim::sleep_for(sim::draw(W, 3000) * US); dispatch(p); }
  }));
  return v;
}
void destroy() {
  // let stragglers (threads stalled on their way out) go on: nothing may use the pool now
  { sim::User u; delete w->pool; }
  w->deleted = true; sim::sleep_for(30 * SEC);
  uint64_t b = 0; if (sim::heap_live_since(0, &b)) sim::violate("leak", "%llu bytes still allocated after the pool was destroyed: %s", (unsigned long long)b, sim::heap_describe_live(0, 4).c_str());
}
void wait_dispatchers(const std::vector<sim::Fid> &v) {
  if (!sim::block([&v] { for (auto f : v) if (!sim::fiber_done(f)) return false; return true; }, in(60 * SEC))) sim::violate("dispatcher-blocked", "a dispatcher is blocked for ever after the pool was stopped");
}
}

// Everything accepted is executed; the pool is stopped when it is idle and then destroyed (or destroyed right away).
SCENARIO("C08", pool_run, 3) {
  w = new World(); common();
  bool early = sim::chance(W, 1, 3);
  if (early) { int c = sim::range(W, 1, 6); for (int i = 0; i < c; i++) dispatch(50); }
  start_pool();
  auto d = dispatchers(sim::range(W, 1, 4), sim::range(W, 1, 10));
  sim::wait_all(d); sim::faults_off();
  settle("running");
  if (sim::chance(W, 1, 3)) { // one more, to a pool that has gone idle
    sim::sleep_for(SEC); dispatch(51); settle("idle");
  }
  int room = std::min(w->alive, w->max);
  if (room >= 2 && sim::chance(W, 1, 3)) { // an idle pool runs as many tasks at a time as it has threads
    if (sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 1000) * US);
    w->nested_left = 0; w->met = 0; w->meet = sim::range(W, 2, room); int k = w->meet;
    if (sim::chance(W, 1, 2)) for (int i = 0; i < k; i++) { dispatch(52); if (sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 300) * US); }
    else { int a = sim::range(W, 1, k - 1); auto d1 = dispatchers(1, a), d2 = dispatchers(1, k - a); sim::wait_all(d1); sim::wait_all(d2); }
    settle("meeting"); w->meet = 0;
  }
  if (sim::chance(W, 3, 4)) stop_pool(false);
  else { sim::sleep_for(SEC); sim::probe("deleted_without_stop"); }
  destroy();
}
// stop() at an arbitrary moment, from outside, from a task, twice, concurrently; then possibly run again.
SCENARIO("C08", pool_stop, 4) {
  w = new World(); common();
  w->stop_from_task = sim::chance(W, 1, 3); w->stop_at = sim::range(W, 1, 10);
  if (sim::chance(W, 1, 10)) { sim::probe("stop_before_run"); stop_pool(false); }
  bool run = !sim::chance(W, 1, 12);
  if (run) start_pool(); else { sim::probe("never_run"); w->max = w->max; }
  auto d = dispatchers(sim::range(W, 1, 3), sim::range(W, 1, 8));
  if (sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 5000) * US);
  else { int n = sim::draw(W, 60); while (n-- > 0) sim::yield(); }
  if (run && w->stop_from_task && sim::chance(W, 1, 2) && sim::block([] { return w->self_stopped && !w->stops_active; }, in(1 * SEC))) {
    // a task has stopped the pool, and it is run again before its threads need have seen that
    sim::probe("restarted_after_task"); start_pool();
  }
  std::vector<sim::Fid> st;
  int ns = sim::chance(W, 1, 4) ? 2 : 1;
  for (int i = 0; i < ns; i++) st.push_back(sim::spawn("stopper", [] { stop_pool(false); }));
  if (!sim::block([&st] { for (auto f : st) if (!sim::fiber_done(f)) return false; return true; }, in(120 * SEC))) sim::violate("stop-blocked", "stop() has not returned after 120 s");
  wait_dispatchers(d);
  if (sim::chance(W, 1, 2)) sim::sleep_for(SEC);
  if (sim::chance(W, 1, 4)) { sim::probe("stop_twice"); stop_pool(false); }
  if (sim::chance(W, 1, 3)) { // the pool can be run again and then takes up what is queued
    sim::probe("restarted"); w->stop_from_task = false;
    start_pool(); auto d2 = dispatchers(1, sim::range(W, 0, 4)); sim::wait_all(d2); sim::faults_off(); settle("restarted"); stop_pool(false);
  }
  destroy();
}
