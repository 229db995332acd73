// C30: thread objects: what start, stop, join and destruction do to the thread.
#include "common.h"
#include <signal.h>
#include <semaphore.h>
#include <sys/socket.h>
#include <unistd.h>
#include "CThread.h"
using namespace lce;
namespace {
// what one start of one object has done so far (harness memory)
struct Rec { int mode, ms, entered, left, running; uint64_t beat; bool go, asked; sim::Fid creator; };
enum { AT_ONCE, COMPUTE, SLEEP, LOOP, FOREVER_WAIT, BROKEN_PIPE, SELF_STOP, NESTED, MODES };
struct In { Rec *r; In(Rec *x) : r(x) { sim::Kern k; r->entered++; r->running++; if (r->running > 1 || r->entered > 1) sim::violate("run-twice", "run() was entered %d times after one start()", r->entered); if (sim::self() == r->creator) sim::violate("not-a-thread", "run() is executed by the thread that called start()"); } ~In() { sim::Kern k; r->running--; r->left++; } };
struct T : CThread {
  Rec *r; int *own; sem_t never; volatile long sum;
  T() : r(nullptr), own(new int(7)), sum(0) { sem_init(&never, 0, 0); }
  ~T() { sem_destroy(&never); delete own; }
  bool asked() { sim::Kern k; return r->go; }
  void beat() { sim::Kern k; r->beat++; }
  int run() {
    In in(r); int mode, ms; { sim::Kern k; mode = r->mode; ms = r->ms; }
    switch (mode) {
    case AT_ONCE: break;
    case COMPUTE: for (int i = 0; i < 50 * ms; i++) { sum = sum + *own; if (i % 50 == 0) beat(); } break;
    case SLEEP: usleep(ms * 1000); beat(); break;
    case LOOP: while (!asked()) { beat(); usleep(1000); } break;
    case FOREVER_WAIT: while (true) { sem_wait(&never); beat(); } break;
    case BROKEN_PIPE: { int p[2]; if (pipe(p) == 0) { ::close(p[0]); if (::write(p[1], "x", 1) >= 0 || errno != EPIPE) { sim::Kern k; sim::violate("pipe-wrong", "writing to a pipe nobody reads succeeded"); } ::close(p[1]); } break; }
    case SELF_STOP: stop(); beat(); while (true) { usleep(1000); beat(); } break;
    case NESTED: { T in; Rec *r2; { sim::Kern k; r2 = new Rec{ms % 2 ? AT_ONCE : SLEEP, 1 + ms % 7, 0, 0, 0, 0, false, false, sim::self()}; in.r = r2; } int rc = in.start(); if (rc == 0) { in.join(); sim::Kern k; if (r2->left != 1) sim::violate("join-early", "join() returned while run() is executed (nested)"); } break; }
    }
    return 0;
  }
};
bool finite(int m) { return m == AT_ONCE || m == COMPUTE || m == SLEEP || m == BROKEN_PIPE || m == NESTED; }
void life(int n) { // one object through n steps
  T *t; UR(t = new T); Rec *r = nullptr; bool live = false, stopped = false; // live: started and not joined
  auto settle = [&](bool joinit) {
    if (r->mode == LOOP && !stopped) r->go = true;
    if (joinit) { int rc; ns_t t0 = sim::now(); UR(rc = t->join()); if (rc) sim::violate("join-failed", "join() of a started thread returned %d", rc);
      if (r->running) sim::violate("join-early", "join() returned while run() is executed"); if (!stopped && r->left != 1) sim::violate("join-early", "join() returned and run() was %s", r->entered ? "not finished" : "never entered"); if (sim::now() - t0 > 30 * SEC) sim::violate("join-late", "join() took %.1f s", (sim::now() - t0) / 1e9); sim::probe("joined"); uint64_t b = r->beat; if (sim::chance(W, 1, 4)) { sim::sleep_for(20 * MS); if (b != r->beat || r->running) sim::violate("join-early", "the thread goes on after join()"); } live = false; }
    else { if (!sim::block([r] { return r->left == 1 && !r->running; }, in(30 * SEC))) { if (!stopped) sim::violate("not-run", "run() was %s within 30 s after start()", r->entered ? "not finished" : "not entered"); } if (sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 3000) * US); sim::probe("ended_unjoined"); }
  };
  while (n-- > 0) {
    if (!live) switch (sim::pick(W, {8, 1, 1, 2})) {
      case 0: { r = new Rec{(int)sim::draw(W, MODES), 1 + (int)sim::draw(W, 20), 0, 0, 0, 0, false, false, sim::self()}; stopped = false; uint64_t f0 = sim::faults_fired(sim::FT_thread_create_fail); int rc; bool is; UR(t->r = r; rc = t->start()); uint64_t f = sim::faults_fired(sim::FT_thread_create_fail) - f0;
        if (rc == 0) { live = true; sim::op_done(); if (sim::chance(W, 1, 3) && r->mode != SELF_STOP) { UR(is = t->isStoped()); if (is) sim::violate("stop-state", "a thread just started is said to be stopped"); } pthread_t id; UR(id = t->getId()); if (!id) sim::violate("no-id", "a started thread has no id"); }
        else { sim::probe("start_failed"); if (!f) sim::violate("start-failed", "start() failed although nothing went wrong"); sim::sleep_for(5 * MS); if (r->entered) sim::violate("run-unasked", "start() reported failure and run() is executed"); }
        break; }
      case 1: { int rc; UR(rc = t->join()); if (rc) sim::violate("join-failed", "join() without a thread returned %d", rc); break; }
      case 2: { int rc; UR(rc = t->stop()); if (rc) sim::violate("stop-failed", "stop() without a thread returned %d", rc); break; }
      default: UR(delete t; t = new T); r = nullptr; }
    else switch (sim::pick(W, {4, 3, 2, 1})) {
      case 0: if (!finite(r->mode) && r->mode != LOOP && !stopped && r->mode != SELF_STOP) { int rc; UR(rc = t->stop()); stopped = true; if (rc) sim::violate("stop-failed", "stop() of a running thread returned %d", rc); } if (r->mode == SELF_STOP) stopped = true; settle(true); break;
      case 1: { if (sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 5000) * US); int rc; bool is, ended = r->left; if (r->mode == SELF_STOP) { stopped = true; break; } if (r->mode == NESTED) break; UR(rc = t->stop()); if (rc && !ended && !r->left) sim::violate("stop-failed", "stop() of a running thread returned %d", rc); stopped = true; UR(is = t->isStoped()); if (!is) sim::violate("stop-state", "a thread that was stopped is not said to be"); sim::probe("stopped"); if (sim::chance(W, 1, 2)) { UR(t->stop()); } if (sim::chance(W, 2, 3)) settle(true); break; }
      case 2: if (finite(r->mode) && !stopped) { settle(false); UR(delete t; t = new T); live = false; r = nullptr; } break; // destroyed after its thread has ended, never joined
      default: sim::sleep_for(sim::draw(W, 4000) * US); }
    sim::state_mark(live | (r ? r->mode : 15) << 1 | stopped << 5 | (r ? r->left << 6 | (r->entered > 0) << 7 : 0));
  }
  if (live) { if (!finite(r->mode) && !stopped && r->mode != SELF_STOP && r->mode != LOOP) { UR(t->stop()); stopped = true; } if (r->mode == SELF_STOP) stopped = true; settle(true); }
  UR(delete t);
}
void run() {
  sim::default_schedule(); if (sim::chance(S, 1, 2)) sim::set_preempt(2 + sim::draw(S, 60)); if (sim::chance(W, 1, 6)) sim::fault_rate(sim::FT_thread_stall, 1, 200); if (sim::chance(W, 1, 3)) sim::fault_rate(sim::FT_thread_create_fail, 1, 4);
  { T *t; UR(t = new T; delete t); } uint64_t mark = sim::heap_mark(); int fds = sim::fds_open(); int nt = 1 + sim::draw(W, 3), *left = new int(nt);
  for (int i = 0; i < nt; i++) sim::spawn("owner", [=] { life(1 + sim::draw(W, 10)); --*left; });
  if (!sim::block([left] { return *left == 0; }, in(900 * SEC))) sim::violate("no-progress", "a thread object's owner waits without end: join() of a stopped or finished thread does not return");
  if (!sim::block([] { return sim::user_fibers_alive() == 0; }, in(30 * SEC))) sim::violate("thread-left", "%d threads are left after their objects were joined and destroyed", sim::user_fibers_alive());
  if (int k = sim::threads_unreleased()) sim::violate("thread-leak", "%d threads have ended and were neither joined nor detached although their objects are gone", k);
  if (uint64_t lv = sim::heap_live_since(mark)) sim::violate("memory-leak", "%llu blocks are left: %s", (unsigned long long)lv, sim::heap_describe_live(mark, 4).c_str());
  (void)fds;
}
}
SCENARIO("C30", lives, 1) { run(); }
