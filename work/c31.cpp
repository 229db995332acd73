// C31: descriptor events of the bare loop: every readiness reaches the handler registered last, none reaches a removed one.
#include "common.h"
#include "CEvent.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/eventfd.h>
#include <deque>
using namespace lce; using namespace sim;
namespace {
struct Reg { int fd, type, pipe; bool live; uint64_t calls; ns_t since; };
// a pipe, or (both) one descriptor that is read and written
struct Pipe { int fd[2]; bool both; int busy; uint64_t in, out; Reg *reg[2][2]; }; // reg[end][0 read 1 write]
struct World { CEvent *ev; std::deque<Pipe> pipes; int maxfd, budget, opfail; bool drain, stopping; Fid loop_tid; uint64_t posted, seen, runs; bool ctl_fault; } *w;
void act(Pipe *p, int end);
void h_event(int fd, void *data, Reg *want);
const int TYPES[2] = {CEvent::EV_READ, CEvent::EV_WRITE};
Pipe *open_pipe(size_t at) {
  int f[2]; bool both = chance(W, 1, 3); { User u; if (both) { f[0] = f[1] = ::eventfd(0, EFD_NONBLOCK | EFD_SEMAPHORE); if (f[0] < 0) { Kern k; violate("setup-failed", "eventfd"); } } else if (::pipe(f) || ::fcntl(f[0], F_SETFL, O_NONBLOCK) || ::fcntl(f[1], F_SETFL, O_NONBLOCK)) { Kern k; violate("setup-failed", "pipe"); } }
  Pipe &p = w->pipes[at]; p.fd[0] = f[0]; p.fd[1] = f[1]; p.both = both; p.busy = 0; p.in = p.out = 0; memset(p.reg, 0, sizeof p.reg);
  ev("pipe %zu: descriptors %d and %d", at, f[0], f[1]); return &p;
}
// what: bit 0 read, bit 1 write
void add(Pipe *p, int end, int what) {
  if (p->both) end = 0;
  int fd = p->fd[end]; Reg *r = new Reg(); r->fd = fd; r->type = what; r->pipe = p - &w->pipes[0]; r->pipe = 0; for (size_t i = 0; i < w->pipes.size(); i++) if (&w->pipes[i] == p) r->pipe = i;
  r->live = true; r->since = now(); bool fresh = !p->reg[end][0] && !p->reg[end][1]; uint64_t f0 = faults_fired(FT_epoll_ctl_pipe_fail); int ret;
  { User u; ret = w->ev->addFdEvent(fd, what, [r](int f, void *d) { h_event(f, d, r); }, r); }
  bool failed = faults_fired(FT_epoll_ctl_pipe_fail) > f0; ev("add fd %d events %d -> %d", fd, what, ret); op_done();
  if (failed && ret == 0) violate("add-untrue", "addFdEvent of descriptor %d reported success although the system refused the registration", fd);
  if (!failed && ret != 0) violate("add-refused", "addFdEvent of descriptor %d (events %d, %s) failed without cause", fd, what, fresh ? "unregistered before" : "already registered");
  if (ret != 0) { r->live = false; probe("add_failed"); return; }
  for (int t = 0; t < 2; t++) if (what & TYPES[t]) { Reg *&o = p->reg[end][t]; if (o) { probe("replaced"); if (o->type == TYPES[t] || (p->reg[end][!t] != o)) o->live = false; } o = r; }
}
void del(Pipe *p, int end, int what) {
  if (p->both) end = 0;
  int fd = p->fd[end], ret; bool had = p->reg[end][0] || p->reg[end][1];
  { User u; ret = w->ev->delFdEvent(fd, what); } ev("del fd %d events %d -> %d", fd, what, ret); op_done();
  if (had && ret != 0) violate("del-refused", "delFdEvent of the registered descriptor %d failed", fd);
  for (int t = 0; t < 2; t++) if (what & TYPES[t]) { Reg *&o = p->reg[end][t]; if (o && p->reg[end][!t] != o) o->live = false; o = nullptr; }
}
void wr(Pipe *p) { char b[600]; size_t n = 1 + draw(W, chance(W, 1, 3) ? 600 : 8); if (p->busy < 0) return; p->busy++; ssize_t r; uint64_t one = 1; { User u; r = p->both ? ::write(p->fd[1], &one, 8) : ::write(p->fd[1], b, n); } if (r > 0) p->in += r; else probe("pipe_was_full"); p->busy--; }
void rd(Pipe *p, bool all) { char b[600]; ssize_t r; size_t n = all ? 600 : 1 + draw(W, 20); if (p->both) { uint64_t v; { User u; r = ::read(p->fd[0], &v, 8); } if (r == 8) p->out += 8 * v; return; } do { User u; r = ::read(p->fd[0], b, n); Kern k; if (r > 0) p->out += r; } while (all && r > 0); }
void h_event(int fd, void *data, Reg *want) {
  Kern k; Reg *r = (Reg *)data; op_done();
  if (self() != w->loop_tid) violate("wrong-thread", "a handler was called outside the loop's thread");
  if (r != want) violate("data-wrong", "the handler registered for descriptor %d was called with the data of another registration", fd);
  if (r->fd != fd) violate("event-foreign", "the handler of descriptor %d was called for descriptor %d", r->fd, fd);
  Pipe *p = &w->pipes[r->pipe]; int end = p->fd[0] == fd ? 0 : 1;
  if (!r->live || p->fd[end] != fd || (p->reg[end][0] != r && p->reg[end][1] != r)) violate("event-after-removal", "a handler of descriptor %d was called after it had been removed or replaced", fd);
  r->calls++; probe(end ? "written" : "readable");
  bool write_now = end == 1;
  if (p->both) { // which of the two it is about shows in nothing but the handler, if they differ
    if (p->reg[0][0] == r && p->reg[0][1] == r) { rd(p, true); write_now = true; } else write_now = p->reg[0][1] == r;
  }
  int we = p->both ? 0 : 1;
  if (!write_now && p->reg[0][0] == r) {
    if (p->in == 0 && !p->busy) violate("event-untrue", "the reading handler of descriptor %d was called although nothing has ever been written to it", fd);
    rd(p, w->drain);
  } else if (write_now) { if (w->drain) { del(p, 1, CEvent::EV_WRITE); return; } if (!p->both || chance(W, 1, 2)) wr(p); }
  if (!w->drain) { act(p, end); if (write_now && p->fd[1] == fd && p->reg[we][1] == r && chance(W, 1, 3)) del(p, 1, CEvent::EV_WRITE); }
}
void act(Pipe *p, int end) {
  int n = draw(W, 3);
  while (n-- > 0 && w->budget > 0) {
    w->budget--; Pipe *q = chance(W, 1, 3) ? p : &w->pipes[draw(W, w->pipes.size())]; int e = draw(W, 2), t = e == 0 ? CEvent::EV_READ : CEvent::EV_WRITE; if (chance(W, 1, 8)) t = CEvent::EV_READ | CEvent::EV_WRITE;
    switch (pick(W, {5, 4, 2, 2, 1, 1, 1})) {
    case 0: add(q, e, t); break;
    case 1: del(q, e, t); break;
    case 2: wr(q); break;
    case 3: { // the descriptors are given back, and the next ones opened have the same numbers
      if (q->busy) break;
      q->busy = -1;
      for (int i = 0; i < (q->both ? 1 : 2); i++) { if (q->reg[i][0] || q->reg[i][1]) del(q, i, CEvent::EV_READ | CEvent::EV_WRITE); { User u; ::close(q->fd[i]); } }
      probe("reopened"); size_t at = 0; for (size_t i = 0; i < w->pipes.size(); i++) if (&w->pipes[i] == q) at = i;
      open_pipe(at); if (chance(W, 1, 2)) add(q, 0, CEvent::EV_READ); if (chance(W, 1, 2)) add(q, 1, CEvent::EV_WRITE); break; }
    case 4: { int bad = chance(W, 1, 2) ? w->maxfd + draw(W, 3) : -1 - (int)draw(W, 2), r; { User u; r = chance(W, 1, 2) ? w->ev->addFdEvent(bad, t, [](int, void *) {}, NULL) : w->ev->delFdEvent(bad, t); } if (r == 0) violate("add-untrue", "descriptor %d is outside the loop's range of %d and was accepted", bad, w->maxfd); probe("out_of_range"); break; }
    case 5: rd(q, chance(W, 1, 2)); break;
    default: if (!w->drain && chance(W, 1, 3)) { probe("stopped_by_handler"); User u; w->ev->stop(); } break;
    }
  }
  (void)end;
}
void on_msg(int, void *) { Kern k; if (self() != w->loop_tid) violate("wrong-thread", "a message was delivered outside the loop's thread"); w->seen++; Pipe *p = &w->pipes[draw(W, w->pipes.size())]; if (!w->drain) act(p, draw(W, 2)); }
void post() { w->posted++; int r; { User u; r = w->ev->addMessage(1, on_msg, NULL); } if (r) violate("message-refused", "addMessage failed"); }
void run() {
  w = new World(); default_schedule(); fault_swarm({FT_epoll_eintr, FT_epoll_reorder, FT_epoll_partial, FT_pipe_small}, 4); w->ctl_fault = chance(W, 1, 3);
  int np = range(W, 1, 6); w->maxfd = 6 + 2 * np + draw(W, 3); w->budget = range(W, 5, 150);
  { User u; w->ev = new CEvent; if (w->ev->init(w->maxfd) != 0) { Kern k; violate("setup-failed", "init"); } }
  int base = fds_open(); w->pipes.resize(np); for (int i = 0; i < np; i++) open_pipe(i); (void)base;
  if (w->ctl_fault) fault_rate(FT_epoll_ctl_pipe_fail, 1, 4);
  for (int i = 0; i < np; i++) { if (chance(W, 3, 4)) add(&w->pipes[i], 0, CEvent::EV_READ); if (chance(W, 1, 3)) add(&w->pipes[i], 1, CEvent::EV_WRITE); }
  Fid loop = spawn("loop", [] { w->loop_tid = self(); while (!w->stopping) { w->runs++; { User u; w->ev->run(); } if (w->runs > 1) probe("ran_again"); sleep_for(draw(W, 3) * MS); } });
  std::vector<Fid> v;
  for (int t = range(W, 1, 3); t > 0; t--) v.push_back(spawn("other", [] { int n = range(W, 1, 15); while (n-- > 0) { if (chance(W, 1, 2)) sleep_for(draw(W, 3000) * US); if (chance(W, 1, 3)) post(); else wr(&w->pipes[draw(W, w->pipes.size())]); } }));
  wait_all(v); sleep_for(20 * MS); faults_off();
  // from now on handlers only take what is there: whoever is registered and ready gets its call
  w->drain = true; if (chance(W, 1, 2)) post();
  World *ww = w;
  auto left = [ww] { for (auto &p : ww->pipes) if ((p.reg[0][0] && p.in > p.out) || p.reg[1][1] || (p.both && p.reg[0][1])) return true; return ww->seen < ww->posted; };
  if (!block([=] { return !left(); }, in(10 * SEC))) {
    for (auto &p : w->pipes) { if (p.reg[0][0] && p.in > p.out) violate("event-lost", "descriptor %d is registered for reading and holds %llu bytes, its handler was not called for 10 s", p.fd[0], (unsigned long long)(p.in - p.out)); }
    if (w->seen < w->posted) violate("message-lost", "%llu of %llu messages were delivered", (unsigned long long)w->seen, (unsigned long long)w->posted);
    for (auto &p : w->pipes) if (p.both && p.reg[0][1]) violate("event-lost", "descriptor %d is registered for writing and is always writable, its handler was not called for 10 s", p.fd[0]);
    for (auto &p : w->pipes) if (p.reg[1][1]) { // it may be full: make room and look again
      rd(&p, true); if (!block([&p] { return !p.reg[1][1]; }, in(10 * SEC))) violate("event-lost", "descriptor %d is registered for writing and has room, its handler was not called for 10 s", p.fd[1]); }
  }
  // and every descriptor can be registered afresh
  for (auto &p : w->pipes) { Pipe *q = &p; struct Again { static void add(int, void *d) { Kern k; ::add((Pipe *)d, 0, CEvent::EV_READ); } }; { User u; w->ev->addMessage(2, Again::add, q); } }
  sleep_for(100 * MS); for (auto &p : w->pipes) wr(&p);
  if (!block([=] { return !left(); }, in(10 * SEC))) for (auto &p : w->pipes) if (p.reg[0][0] && p.in > p.out) violate("event-lost", "descriptor %d was registered for reading again and holds %llu bytes, its handler was not called for 10 s", p.fd[0], (unsigned long long)(p.in - p.out));
  state_mark(np * 10007 + w->runs * 31 + w->seen);
  w->stopping = true; { User u; w->ev->stop(); }
  if (!block([loop] { return fiber_done(loop); }, in(10 * SEC))) violate("stop-ignored", "run() did not return within 10 s of stop()");
  for (auto &p : w->pipes) { User u; ::close(p.fd[0]); if (!p.both) ::close(p.fd[1]); }
  { User u; delete w->ev; } if (fds_open()) violate("fd-leak", "descriptors still open after the loop was destroyed: %s", fds_describe().c_str());
}
}
SCENARIO("C31", fd_events, 1) { run(); }
