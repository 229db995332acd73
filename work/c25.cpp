// C25: what has nothing to do sleeps: event loops, network engines, task pools, queues and the log's thread.
#include "net.h"
#include "CTask.h"
#include "CBlockQueue.h"
#include "CAsyncLog.h"
#include <unistd.h>
#include <fcntl.h>
using namespace nw;
namespace {
// nothing happens for a while: how many calls are made meanwhile
void idle(ns_t len, const char *when, int loops) {
  ns_t a = sim::now(); uint64_t c = sim::calls(), p = w ? w->progress : 0; uint64_t cap = 300 + 300ull * loops * (1 + len / SEC);
  sim::block([=] { return (w && w->progress != p) || sim::calls() - c > 4 * cap; }, in(len)); sim::op_done();
  if (w && (w->progress != p || w->pend_ops)) { sim::probe("something_happened"); return; }
  uint64_t n = sim::calls() - c; sim::ev("idle %s: %llu calls in %.3f s", when, (unsigned long long)n, (sim::now() - a) / 1e9); sim::probe("idle"); if (getenv("C25_STAT")) { static uint64_t mx; (void)mx; char b[60]; snprintf(b, sizeof b, "stat_%s_%d", when, (int)(n * 10 / cap)); sim::probe(strdup(b)); }
  if (n > cap) sim::violate("busy", "%s: %llu calls were made within %.3f s in which nothing happened", when, (unsigned long long)n, (sim::now() - a) / 1e9);
  sim::state_mark(std::min<uint64_t>(n, 2000) * 16 + loops);
}
void engine(bool worker) {
  w = new World; sim::default_schedule(); net_params(); net_faults(); if (sim::chance(W, 1, 4)) sim::fault_rate(sim::FT_accept_abort, 1, 10);
  Cfg g; g.worker = worker; g.workers = worker ? sim::range(W, 1, 3) : 1; g.nsrv = sim::range(W, 1, 2); g.nin = sim::range(W, 1, 6); g.npk_max = 6; g.misbehave = sim::chance(W, 1, 3); g.ngroups = sim::draw(W, 2); w->limits = sim::faults_fired(sim::FT_accept_abort) || true;
  Script &s = w->sc; s.none = 2; s.echo = 3; s.multi = 3; s.wclose = sim::draw(W, 2); s.close = sim::draw(W, 2); s.defer = 3; s.other = sim::draw(W, 3); s.connect = g.ngroups ? 3 : 0; w->out_left = g.ngroups ? 5 : 0; s.connect_actions = sim::chance(W, 1, 2); s.end_actions = sim::chance(W, 1, 3); s.big = sim::draw(W, 4);
  int loops = worker ? 1 + g.workers : 1;
  start(g); if (sim::chance(W, 1, 4)) { ns_t now = sim::now(); (void)now; idle(1 * SEC, "after start", loops); }
  add_clients(g, g.nin, sim::chance(W, 1, 2) ? 20 * MS : 2 * SEC);
  w->hold = sim::chance(W, 1, 2); ns_t lim = in(20 * SEC); while (sim::now() < lim && w->outstanding_senders > 0) sim::block([] { return w->outstanding_senders == 0; }, lim);
  sim::sleep_for(500 * MS); sim::faults_off(); w->phase = 1; for (int i = 0; i < 12; i++) idle(400 * MS, "between events", loops);
  settle(); bool held = false, open = false; for (auto &c : w->conns) { sim::TcpInfo ti = sim::tcp_info(c.key); if (ti.exists && ti.fd >= 0) { open = true; if (c.acc_bytes > c.got.size()) held = true; } }
  if (held) sim::probe("idle_with_unsent_data"); if (open) sim::probe("idle_with_open_connections");
  idle((1 + sim::draw(W, 8)) * SEC, "with the connections quiet", loops);
  if (w->hold) { w->hold = false; sim::sleep_for(1 * SEC); if (!quiet(60 * SEC)) sim::violate("no-progress", "activity did not settle within 60 s after the peers read again"); idle((1 + sim::draw(W, 8)) * SEC, "with everything sent", loops); }
  verify_all(); peers_leave(); idle((1 + sim::draw(W, 4)) * SEC, "after the connections ended", loops);
}
// the bare loop: timers far away, messages just handled, descriptors quiet or closed
struct Ev { CEvent *e; uint64_t fired, msgs, reads; int in[2]; } *g;
void on_timer(int, void *) { sim::Kern k; g->fired++; }
void on_msg(int, void *p) { { sim::Kern k; g->msgs++; } if (p) g->e->addMessage(1, on_msg, NULL); }
void on_read(int fd, void *) { char b[4]; ssize_t n = ::read(fd, b, sizeof b); sim::Kern k; g->reads++; (void)n; }
void on_write(int fd, void *) { g->e->delFdEvent(fd, CEvent::EV_WRITE); }
void loop() {
  w = nullptr; g = new Ev(); sim::default_schedule(); if (sim::chance(W, 1, 2)) sim::fault_rate(sim::FT_epoll_eintr, 1, 4); if (sim::chance(W, 1, 3)) sim::fault_rate(sim::FT_epoll_partial, 1, 4); if (sim::chance(W, 1, 3)) { sim::fault_rate(sim::FT_pipe_small, 1, 1); }
  CEvent *e; UR(e = new CEvent; e->init(100)); g->e = e; { sim::User u; if (::pipe(g->in) || ::fcntl(g->in[0], F_SETFL, O_NONBLOCK)) sim::violate("setup-failed", "pipe"); }
  int far = sim::draw(W, 4), rounds = 1 + sim::draw(W, 5); bool rd = sim::chance(W, 1, 2), wr = sim::chance(W, 1, 2), jump = sim::chance(W, 1, 3), cyc = sim::chance(W, 1, 2);
  UR(for (int i = 0; i < far; i++) e->addTimer(i, 3600000 + 1000 * i, on_timer, NULL); if (rd) e->addFdEvent(g->in[0], CEvent::EV_READ, on_read, NULL); if (wr) e->addFdEvent(g->in[1], CEvent::EV_WRITE, on_write, NULL));
  sim::Fid f = sim::spawn("loop", [e] { sim::User u; e->run(); });
  sim::sleep_for(10 * MS);
  for (int r = 0; r < rounds; r++) {
    int k = sim::draw(W, 6), posters = 1 + sim::draw(W, 3), t = sim::draw(W, 5); int *left = new int(posters);
    uint64_t soon = sim::draw(W, 2500);
    { sim::User u; e->addMessage(0, [e, t, soon](int, void *) { for (int i = 0; i < t; i++) e->addTimer(100 + i, soon + i, on_timer, NULL); }, NULL); }
    for (int p = 0; p < posters; p++) sim::spawn("poster", [=] { for (int i = 0; i < k; i++) { UR(e->addMessage(0, on_msg, cyc ? (void *)1 : NULL)); if (rd) { char c = 'x'; UR(if (::write(g->in[1], &c, 1) < 0) {}); } } --*left; });
    sim::block([left] { return *left == 0; }, in(10 * SEC)); if (jump && sim::chance(W, 1, 2)) { sim::clock_jump((sim::chance(W, 1, 2) ? 1 : -1) * (int64_t)(1 + sim::draw(W, 1000)) * MS); }
    sim::sleep_for(100 * MS); // and then nothing but at most five timers
    idle((1 + sim::draw(W, 5)) * SEC, "event loop", 4);
  }
  { sim::User u; e->stop(); } (void)f;
}
// pools and queues whose threads wait
struct Pool : CTask { void onWork(int, void *, int) { sim::Kern k; g->msgs++; } };
void waiters() {
  w = nullptr; g = new Ev(); sim::default_schedule(); if (sim::chance(W, 1, 2)) sim::fault_rate(sim::FT_cond_spurious, 1, 20);
  int n = 1 + sim::draw(W, 4), rounds = 1 + sim::draw(W, 3), kind = sim::draw(W, 3); std::vector<sim::Fid> fs;
  Pool *p = nullptr; CBlockQueue<int> *q = nullptr; CAsyncLog *l = nullptr;
  if (kind == 0) { UR(p = new Pool; p->init(n, 10); p->run()); }
  else if (kind == 1) { UR(q = new CBlockQueue<int>(1 + n)); for (int i = 0; i < n; i++) sim::spawn("consumer", [q, i] { for (;;) { int v; bool r; UR(r = i & 1 ? q->pop(v, 1000 * (1 + i)) : q->pop(v)); if (r) g->msgs++; } }); if (sim::chance(W, 1, 2)) { auto *z = new CBlockQueue<int>; UR(z = new CBlockQueue<int>(1)); UR(z->push(1)); } }
  else { UR(l = new CAsyncLog; l->init("logs/app", 1 + n, 1000000, 3, false, 5000)); }
  for (int r = 0; r <= rounds; r++) {
    int k = r ? sim::draw(W, 8) : 0; for (int i = 0; i < k; i++) { UR(if (p) p->dispatch(i, NULL); else if (q) q->push(i); else l->write(std::string("some line"))); }
    sim::sleep_for(200 * MS); idle((1 + sim::draw(W, 8)) * SEC, kind == 0 ? "task pool" : kind == 1 ? "waiting consumers" : "asynchronous log", n + 1);
  }
  if (p) UR(p->stop()); if (l) UR(delete l);
}
}
SCENARIO("C25", idle_comm, 2) { engine(false); }
SCENARIO("C25", idle_worker, 2) { engine(true); }
SCENARIO("C25", idle_loop, 2) { loop(); }
SCENARIO("C25", idle_threads, 1) { waiters(); }
// two months with hardly anything to do: the loops still sleep, and everything still works afterwards
static void uptime(bool worker) {
  w = new World; sim::run_limits(1ull << 34, 200); w->poll = 3600 * SEC; Cfg g; g.worker = worker; g.workers = worker ? sim::range(W, 1, 3) : 1; g.nsrv = sim::range(W, 1, 2); g.npk_max = 6; g.ngroups = 1;
  Script &s = w->sc; s.none = 2; s.echo = 3; s.multi = 3; s.wclose = sim::draw(W, 2); s.defer = 3; s.other = sim::draw(W, 3); s.connect = 1; w->out_left = 3;
  start(g); add_clients(g, 3, 20 * MS); sim::sleep_for(60 * SEC);
  uint64_t c = sim::calls(); ns_t days = 25 + sim::draw(W, 36); sim::sleep_for(days * 86400 * SEC); c = sim::calls() - c; if (c > days * 86400 * 300) sim::violate("busy", "%llu calls were made during %llu quiet days", (unsigned long long)c, (unsigned long long)days); sim::probe("weeks_idle");
  w->poll = 200 * MS; w->out_left = 3; add_clients(g, 3, 1 * SEC); settle(); verify_all(); peers_leave();
}
SCENARIO("C25", uptime_comm, 0) { uptime(false); }
SCENARIO("C25", uptime_worker, 0) { uptime(true); }
