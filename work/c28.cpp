// C28: whatever keeps a loop busy - messages, timers, a flooding client, a storm of connections - everything else is still served.
#include "common.h"
#include "CCommMgr.h"
#include "CNetWorkerMgr.h"
using namespace lce;
namespace {
struct Back { virtual ~Back() {} virtual int timer(int id, uint32_t ms, void *p) = 0; virtual int msg(int type, void *p) = 0; virtual int write(StSession &s, const char *d, int n) = 0; virtual int stop() = 0; };
struct Probe { ns_t since; bool done; };
struct World { Back *b; int msg_chains, timer_chains, floods, storms, posters; ns_t h; uint32_t tdelay; bool ended, stopped; std::deque<Probe> probes; uint64_t chain_runs, conns, reads; int live; ns_t bound; World() : b(nullptr), msg_chains(0), timer_chains(0), floods(0), storms(0), posters(0), h(0), tdelay(0), ended(false), stopped(false), chain_runs(0), conns(0), reads(0), live(0), bound(0) {} } *w;
enum { M_CHAIN = 1, M_PROBE, M_POST };
enum { T_CHAIN = 100, T_PROBE = 1000 };
void work() { ns_t h; { sim::Kern k; h = w->h; } if (h >= US) ::usleep(h / US); }
void on_msg(int type, void *p) {
  if (type == M_PROBE) { sim::Kern k; ((Probe *)p)->done = true; return; }
  work();
  if (type == M_CHAIN) { bool go; { sim::Kern k; w->chain_runs++; go = !w->ended; } if (go) w->b->msg(M_CHAIN, p); }
}
void on_timer(int id, void *p) {
  if (id >= T_PROBE) { sim::Kern k; ((Probe *)p)->done = true; return; }
  work();
  bool go; { sim::Kern k; w->chain_runs++; go = !w->ended; } if (go) w->b->timer(id, w->tdelay, p);
}
void on_read(StSession &s, const char *d, int n) {
  if (d[0] == 'P') { w->b->write(s, "A", 1); return; }
  work(); sim::Kern k; w->reads++;
}
struct Comm : Back, CProcessor { CCommMgr *m; 
  int timer(int id, uint32_t ms, void *p) { return m->addTimer(id, ms, this, p); } int msg(int t, void *p) { return m->sendMessage(t, this, p); } int write(StSession &s, const char *d, int n) { return m->write(s, d, n, false); } int stop() { return m->stop(); }
  void onRead(StSession &s, const char *d, const int n) { on_read(s, d, n); } void onClose(StSession &) {} void onConnect(StSession &, bool, void *) { sim::Kern k; w->conns++; } void onError(StSession &, const char *, int) {}
  void onTimer(int id, void *p) { on_timer(id, p); } void onMessage(int t, void *p) { on_msg(t, p); } };
struct Wk : CNetWorker, Back { Wk() { sim::Kern k; w->b = this; }
  int timer(int id, uint32_t ms, void *p) { return addTimer(id, ms, p); } int msg(int t, void *p) { return sendMessage(t, p); } int write(StSession &s, const char *d, int n) { return CNetWorker::write(s, d, n, false); } int stop() { return 0; }
  void onRead(StSession &s, const char *d, const int n) { on_read(s, d, n); } void onClose(StSession &) {} void onConnect(StSession &, bool, void *) { sim::Kern k; w->conns++; } void onError(StSession &, const char *, int) {}
  void onTimer(int id, void *p) { on_timer(id, p); } void onMessage(int t, void *p) { on_msg(t, p); } };
const char *load() { static char b[100]; snprintf(b, sizeof b, "%d message chains, %d timer chains, %d flooding clients, %d connection storms, %d posting threads", w->msg_chains, w->timer_chains, w->floods, w->storms, w->posters); return b; }
void served(const char *what, ns_t t0) { if (w->stopped) return; if (sim::now() - t0 > w->bound) sim::violate("starved", "%s took %.0f ms while the loop was kept busy by %s, each call of a handler taking %.1f ms", what, (sim::now() - t0) / 1e6, load(), w->h / 1e6); sim::op_done(); sim::probe("served"); }
void client(sim::Tcp *t) { // asks again and again
  while (!w->ended) {
    ns_t t0 = sim::now(); bool mine = !t;
    if (mine) { t = sim::peer_connect(8000, w->bound); if (!t && w->stopped) break; if (!t) sim::violate("starved", "a client could not connect within %.0f ms while the loop was kept busy by %s", w->bound / 1e6, load()); }
    std::string o; sim::peer_send_all(t, "P", in(w->bound));
    int r = sim::peer_recv(t, o, 10, in(w->bound));
    if (r <= 0 && w->stopped) break; if (r <= 0 && !w->ended) sim::violate("starved", "a %s got no answer within %.0f ms while the loop was kept busy by %s", mine ? "new client" : "connected client", w->bound / 1e6, load());
    served(mine ? "serving a new client" : "answering a client", t0);
    if (mine) { sim::peer_close(t); t = nullptr; }
    sim::sleep_for(sim::draw(W, 80) * MS);
  }
  w->live--;
}
void probe() { // posts a message again and again
  while (!w->ended) {
    w->probes.push_back({sim::now(), false}); Probe *p = &w->probes.back(); int r;
    { sim::User u; r = w->b->msg(M_PROBE, p); }
    if (r) sim::violate("message-refused", "posting failed");
    sim::block([p] { return p->done; }, in(w->bound)); if (!p->done && !w->stopped) sim::violate("starved", "a message was not delivered within %.0f ms while the loop was kept busy by %s", w->bound / 1e6, load());
    served("delivering a message", p->since); sim::sleep_for(sim::draw(W, 80) * MS);
  }
  w->live--;
}
void start_load(int, void *) { // in the loop
  int tc, mc, td; { sim::Kern k; tc = w->timer_chains; mc = w->msg_chains; td = w->tdelay; }
  for (int i = 0; i < tc; i++) w->b->timer(T_CHAIN + i, td, NULL);
  for (int i = 0; i < mc; i++) w->b->msg(M_CHAIN, NULL);
}
// a timer that is asked for before the loop runs, due in the middle of the load
void go(bool worker) {
  w = new World; sim::default_schedule(); sim::fault_swarm({sim::FT_epoll_eintr, sim::FT_epoll_reorder, sim::FT_epoll_partial, sim::FT_pipe_small, sim::FT_net_split, sim::FT_short_recv}, 6);
  w->h = (sim::chance(W, 1, 3) ? 1 + sim::draw(W, 50) : 200 + sim::draw(W, 2000)) * US; w->tdelay = sim::draw(W, 3);
  while (w->msg_chains + w->timer_chains + w->floods + w->storms + w->posters == 0) { w->msg_chains = sim::chance(W, 1, 2) ? 1 + sim::draw(W, 3) : 0; w->timer_chains = sim::chance(W, 1, 3) ? 1 + sim::draw(W, 3) : 0; w->floods = sim::chance(W, 1, 3) ? 1 + sim::draw(W, 2) : 0; w->storms = sim::chance(W, 1, 3) ? 1 : 0; w->posters = sim::chance(W, 1, 4) ? 1 + sim::draw(W, 2) : 0; }
  w->bound = 300 * MS + 60 * w->h; bool early = sim::chance(W, 1, 2); Comm *c = nullptr; CNetWorkerMgr<Wk> *mg = nullptr; sim::Fid loop;
  ns_t len = (300 + sim::draw(W, 1200)) * MS; std::deque<Probe> tp; int nt = 1 + sim::draw(W, 4); std::vector<uint32_t> due; for (int i = 0; i < nt; i++) { due.push_back(sim::draw(W, len / MS)); tp.push_back({0, false}); }
  { sim::User u;
    if (!worker) { CCommMgr *m = &CCommMgr::getInstance(); if (m->init(200) != 0) { sim::Kern k; sim::violate("setup-failed", "initialising failed although no fault was injected"); } c = new Comm; c->m = m; w->b = c; int id = m->createSrv(SRV_TCP, "0.0.0.0", 8000, 64, 4096, 64, 4096); if (id < 0) sim::violate("setup-failed", "listening failed although no fault was injected"); m->setProcessor(id, c, PKG_RAW); }
    else { mg = new CNetWorkerMgr<Wk>; if (mg->init(1, 200) != 0 || mg->createSrv("0.0.0.0", 8000, PKG_RAW, 64, 4096, 64, 4096) < 0) { sim::Kern k; sim::violate("setup-failed", "listening failed although no fault was injected"); } } }
  if (early) { sim::User u; start_load(0, NULL); }
  for (int i = 0; i < nt; i++) { tp[i].since = sim::now() + due[i] * MS; UR(w->b->timer(T_PROBE + i, due[i], &tp[i])); }
  Back *b = w->b; loop = sim::spawn("loop", [worker, mg, c] { sim::User u; if (worker) mg->start(); else c->m->start(); });
  sim::sleep_for(2 * MS);
  if (!early) { for (int i = 0; i < w->msg_chains; i++) UR(b->msg(M_CHAIN, NULL)); if (w->timer_chains && !w->msg_chains) w->timer_chains = 0; }
  for (int i = 0; i < w->floods; i++) sim::spawn("flood", [] { sim::Tcp *t = sim::peer_connect(8000, 10 * SEC); if (!t) return; std::string d(3000, 'f'); while (!w->ended) { if (!sim::peer_send_all(t, d, in(50 * MS))) { } sim::sleep_for(50 * US); } });
  for (int i = 0; i < w->storms; i++) sim::spawn("storm", [] { while (!w->ended) { sim::Tcp *t = sim::peer_connect(8000, 100 * MS); if (t) { if (sim::chance(W, 1, 2)) sim::peer_close(t); else sim::peer_reset(t); } sim::sleep_for(300 * US); } });
  for (int i = 0; i < w->posters; i++) sim::spawn("poster", [b] { while (!w->ended) { UR(b->msg(M_POST, NULL)); sim::sleep_for((w->h + 100 * US) * 2 * w->posters); } });
  int k = 1 + sim::draw(W, 3); w->live = k;
  for (int i = 0; i < k; i++) { int kind = sim::draw(W, 3); sim::Tcp *t = kind == 0 ? sim::peer_connect(8000, w->bound) : nullptr; if (kind == 2) sim::spawn("probe", [] { probe(); }); else sim::spawn("client", [t] { client(t); }); }
  ns_t t0 = sim::now(); sim::sleep_for(len);
  for (int i = 0; i < nt; i++) if (!tp[i].done) { Probe *p = &tp[i]; ns_t end = p->since + w->bound; if (sim::now() < end) sim::block([p] { return p->done; }, end); if (!p->done) sim::violate("starved", "a timer of %u ms had not fired %.0f ms after it was due, the loop being kept busy by %s", due[i], w->bound / 1e6, load()); } (void)t0;
  sim::probe("load_calls"); if (w->msg_chains + (early ? w->timer_chains : 0) > 0 && !w->chain_runs) sim::violate("message-lost", "none of the messages and timers that keep the loop busy was delivered");
  if (w->floods && sim::now() && w->reads == 0) sim::violate("starved", "nothing of the flooding clients was read");
  sim::state_mark(w->msg_chains + 4 * w->timer_chains + 16 * w->floods + 48 * w->storms + 96 * w->posters + 300 * worker);
  if (!worker && sim::chance(W, 1, 2)) { // the load goes on while the loop is asked to stop
    w->stopped = true; UR(b->stop()); ns_t t1 = sim::now(); if (!sim::block([loop] { return sim::fiber_done(loop); }, in(3500 * MS))) sim::violate("starved", "run() had not returned 3.5 s after stop(), the loop being kept busy by %s", load()); (void)t1;
    w->ended = true; w->stopped = true; return;
  }
  w->ended = true; if (!sim::block([] { return w->live == 0; }, in(5 * SEC))) sim::violate("starved", "a client was never answered");
}
}
SCENARIO("C28", busy_comm, 2) { go(false); }
SCENARIO("C28", busy_worker, 1) { go(true); }
