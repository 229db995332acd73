// C07: messages posted to an event loop from any thread.
#include "common.h"
#include "CEvent.h"
using namespace lce;

namespace {
struct Msg { int producer; int n; int type; uint64_t posted_start, posted_end; bool accepted, delivered; ns_t t_posted, t_delivered; };
struct World {
  CEvent *ev; std::deque<Msg> msgs; std::vector<size_t> order; int loop_tid; bool nested; int nested_left; bool stall; bool failed_post;
  World() : ev(nullptr), loop_tid(-1), nested(false), nested_left(0), stall(false), failed_post(false) {}
};
World *w;
void post(int producer, int n);
void on_msg(int type, void *p) {
  sim::Kern k;
  size_t i = (size_t)p - 1;
  if (i >= w->msgs.size()) sim::violate("message-corrupt", "handler called with data pointer that was never posted");
  Msg &m = w->msgs[i];
  if (m.type != type) sim::violate("message-corrupt", "message %zu posted with type %d, delivered with type %d", i, m.type, type);
  if (m.delivered) sim::violate("message-duplicated", "message %zu of producer %d delivered twice", i, m.producer);
  if (sim::self() != w->loop_tid) sim::violate("message-wrong-thread", "message delivered outside the loop thread");
  m.delivered = true; m.t_delivered = sim::now();
  // real-time order: nothing still undelivered was accepted before this one began to be posted
  for (size_t j = 0; j < w->msgs.size(); j++) {
    Msg &o = w->msgs[j];
    if (!o.delivered && o.accepted && o.posted_end < m.posted_start)
      sim::violate("message-order", "message %zu (producer %d) delivered before message %zu (producer %d), which was accepted earlier", i, m.producer, j, o.producer);
  }
  w->order.push_back(i);
  sim::op_done();
  if (sim::chance(W, 1, 20)) { UR(::usleep(1000 * (1 + sim::draw(W, 20)))); }
  if (w->nested && w->nested_left > 0) { int c = 1 + sim::draw(W, 2); while (c-- > 0 && w->nested_left > 0) { w->nested_left--; post(99, w->nested_left); } }
}
void post(int producer, int n) {
  Msg m; m.producer = producer; m.n = n; m.type = (int)sim::draw(W, 1000) - 3; m.posted_start = sim::step(); m.posted_end = ~0ull; m.accepted = m.delivered = false; m.t_posted = m.t_delivered = 0;
  w->msgs.push_back(m); size_t i = w->msgs.size() - 1; int type = m.type;
  int r; { sim::User u; r = w->ev->addMessage(type, on_msg, (void *)(i + 1)); }
  Msg &q = w->msgs[i];
  q.accepted = r == 0; q.posted_end = sim::step(); q.t_posted = sim::now();
  if (r != 0) sim::violate("message-refused", "addMessage failed (%d) although the loop exists and nothing was exhausted", r);
}
void finish_checks(ns_t grace) {
  World *ww = w;
  while (true) { // progress: something pending must be delivered within the grace period
    size_t before = w->order.size();
    if (sim::block([ww] { for (auto &m : ww->msgs) if (m.accepted && !m.delivered) return false; return true; }, in(grace))) break;
    if (w->order.size() == before) break;
  }
  for (size_t i = 0; i < w->msgs.size(); i++) if (w->msgs[i].accepted && !w->msgs[i].delivered)
    sim::violate("message-lost", "message %zu of producer %d was accepted %.3f s ago and never delivered to the idle loop (%zu of %zu delivered)", i, w->msgs[i].producer, (sim::now() - w->msgs[i].t_posted) / 1e9, w->order.size(), w->msgs.size());
}
}

static void run_messages(bool burst) {
  w = new World;
  sim::default_schedule();
  sim::fault_swarm({sim::FT_epoll_eintr, sim::FT_pipe_small, sim::FT_epoll_reorder, sim::FT_epoll_partial}, 4);
  w->stall = sim::chance(W, 1, 4); if (w->stall) sim::fault_rate(sim::FT_thread_stall, 1, 200);
  { sim::User u; w->ev = new CEvent(); if (w->ev->init(64) != 0) { sim::Kern k; sim::violate("setup-failed", "initialising failed although no fault was injected"); } }
  int np = sim::range(W, 1, 4), per = sim::range(W, 1, 12);
  w->nested = sim::chance(W, 1, 2); w->nested_left = w->nested ? sim::range(W, 1, 30) : 0;
  bool early = sim::chance(W, 1, 3), timers = sim::chance(W, 1, 3);
  if (burst) { sim::fault_rate(sim::FT_pipe_small, 1, 1); }
  if (early) { int c = sim::range(W, 1, 5); for (int i = 0; i < c; i++) post(50, i); }
  if (timers) { for (int i = 0; i < 3; i++) { uint32_t d = sim::draw(W, 400); sim::User u; w->ev->addTimer(i, d, [](int, void *) {}, nullptr); } }
  sim::Fid loop = sim::spawn("loop", [] { w->loop_tid = sim::self(); sim::User u; w->ev->run(); });
  World *ww = w; sim::block([ww] { return ww->loop_tid >= 0; }, sim::FOREVER);
  std::vector<sim::Fid> prod;
  for (int p = 0; p < np; p++) prod.push_back(sim::spawn("producer", [p, per] {
    for (int i = 0; i < per; i++) { if (sim::chance(W, 1, 4)) sim::sleep_for(sim::draw(W, 5000) * US); post(p, i); }
  }));
  if (burst) {
    // one message whose handler takes a while, then more messages than the wake-up channel can hold
    int total = sim::range(W, 4000, 5200); bool in_handler = sim::chance(W, 1, 2);
    if (in_handler) { sim::User u; w->ev->addTimer(900, 1, [total](int, void *) { sim::Kern k; for (int i = 0; i < total; i++) post(200, i); }, nullptr); }
    else prod.push_back(sim::spawn("burst", [total] { for (int i = 0; i < total; i++) post(201, i); }));
  }
  sim::wait_all(prod);
  sim::sleep_for(10 * MS);
  sim::faults_off();
  // an idle loop must deliver without waiting for its own poll period
  finish_checks(w->stall ? 20 * SEC : 2 * SEC);
  sim::state_mark(w->order.size() * 131 + np * 7 + per);
  { sim::User u; w->ev->stop(); }
  ns_t t = sim::now();
  if (!sim::block([loop] { return sim::fiber_done(loop); }, in(10 * SEC))) sim::violate("stop-ignored", "run() did not return within 10 s of stop()");
  (void)t;
  { sim::User u; delete w->ev; }
  if (sim::fds_open()) sim::violate("fd-leak", "descriptors still open after the loop was destroyed: %s", sim::fds_describe().c_str());
}
SCENARIO("C07", msg_mixed, 20) { run_messages(false); }
SCENARIO("C07", msg_burst, 1) { run_messages(true); }
