// C23: removing servers, client groups and UDP servers at any moment; stopping the loop.
#include "net.h"
using namespace nw;
namespace {
std::set<std::string> g_sent;
struct Udp : CProcessor {
  int id; uint16_t port; bool removed; std::set<std::string> got; int errs;
  Udp() : id(-1), port(0), removed(false), errs(0) {}
  void onRead(StSession &s, const char *d, const int n) {
    sim::Kern k; std::string x(d, n); w->progress++;
    if (removed) sim::violate("removed-server", "datagram delivered by a removed UDP server");
    if (s.iSvrId != id || !g_sent.count(x)) sim::violate("package-invented", "UDP server %d delivered %d bytes nobody sent", id, n);
    if (!got.insert(x).second) sim::violate("package-twice", "a datagram was delivered twice");
    sim::op_done(); hook();
  }
  void onClose(StSession &) { sim::Kern k; sim::violate("udp-close", "onClose for a UDP server"); }
  void onConnect(StSession &, bool, void *) { sim::Kern k; sim::violate("udp-connect", "onConnect for a UDP server"); }
  void onError(StSession &, const char *m, int) { sim::Kern k; if (removed) sim::violate("removed-server", "error reported by a removed UDP server: %s", m); errs++; }
  void onTimer(int, void *) {}
  void onMessage(int, void *) {}
  void hook();
};
struct T23 { Udp *udp; int left; std::vector<SrvCfg *> live_tcp, live_grp; int recreate; bool stopped; bool in_rm; } *t;

void make_udp() {
  Udp *u = new Udp; u->port = 9000; sim::User uu;
  u->id = comm->createSrv(SRV_UDP, "0.0.0.0", u->port, 2048, 4096, 1000, 1000);
  if (u->id < 0 || comm->setProcessor(u->id, u, PKG_RAW) != 0) sim::violate("recreate-failed", "a UDP server could not be created: %s", comm->getErrMsg());
  t->udp = u;
}
// an occupied address, or resources that run out, make the creation of a listener fail, which leaves nothing behind
void try_create() {
  bool udp = sim::chance(W, 1, 3), occ = sim::chance(W, 2, 3) && (udp ? t->udp && !t->udp->removed : !t->live_tcp.empty());
  uint16_t port = occ ? (udp ? 9000 : t->live_tcp[sim::draw(W, t->live_tcp.size())]->port) : 9700;
  if (!occ) { sim::fault_rate(sim::FT_sock_fail, 1, 2); sim::fault_rate(sim::FT_epoll_ctl_fail, 1, 2); }
  int fds = sim::fds_open(), ports = sim::listening_ports(), id; uint64_t f0 = sim::faults_fired(sim::FT_sock_fail) + sim::faults_fired(sim::FT_epoll_ctl_fail), mark = sim::heap_mark();
  { sim::User u; id = comm->createSrv(udp ? SRV_UDP : SRV_TCP, "0.0.0.0", port, 100, 1000, 100, 1000); }
  bool failed = sim::faults_fired(sim::FT_sock_fail) + sim::faults_fired(sim::FT_epoll_ctl_fail) > f0; sim::fault_rate(sim::FT_sock_fail, 0, 1); sim::fault_rate(sim::FT_epoll_ctl_fail, 0, 1);
  if (occ) { sim::probe("create_occupied"); if (id >= 0) sim::violate("create-untrue", "a second %s server was created on the occupied port %d", udp ? "UDP" : "TCP", port); }
  else if (failed) { sim::probe("create_failed"); if (id >= 0) sim::violate("create-untrue", "a %s server was reported as created although its socket or its registration failed", udp ? "UDP" : "TCP"); }
  else if (id < 0) sim::violate("recreate-failed", "a %s server could not be created on a free port: %s", udp ? "UDP" : "TCP", comm->getErrMsg());
  if (id >= 0) { int r; { sim::User u; if (!udp) comm->setProcessor(id, comm_eng, PKG_RAW); r = comm->rmSrv(id); } if (r != 0) sim::violate("rm-failed", "rmSrv(%d) of a server just created failed", id); }
  if (sim::fds_open() != fds || sim::listening_ports() != ports) sim::violate("fd-leak", "%s left %d descriptors and %d listening ports behind", id < 0 ? "a server that could not be created" : "a server that was removed at once", sim::fds_open() - fds, sim::listening_ports() - ports);
  std::string hd; uint64_t big = sim::heap_live_big(mark, 48, &hd); if (big > 1) sim::violate("memory-leak", "%s left %llu blocks behind: %s", id < 0 ? "a server that could not be created" : "a server that was removed at once", (unsigned long long)big, hd.c_str());
  sim::op_done();
}
// removes one live server or group; called from inside a callback or op of the loop
void do_rm() {
  if (t->left <= 0 || t->in_rm || w->phase == 2) return;
  size_t n = t->live_tcp.size() + t->live_grp.size() + (t->udp && !t->udp->removed ? 1 : 0);
  if (n == 0) return;
  t->left--; t->in_rm = true;
  size_t i = sim::draw(W, n); SrvCfg *s = nullptr; bool grp = false; int id;
  if (i < t->live_tcp.size()) { s = t->live_tcp[i]; t->live_tcp.erase(t->live_tcp.begin() + i); id = s->id; }
  else if ((i -= t->live_tcp.size()) < t->live_grp.size()) { grp = true; s = t->live_grp[i]; t->live_grp.erase(t->live_grp.begin() + i); id = s->id; }
  else id = t->udp->id;
  int held = 0;
  if (s) for (auto &c : w->conns) {
    bool mine = c.connects ? c.s.iSvrId == id : (!c.inbound && c.srv == s && c.ret >= 0);
    if (mine && !c.over()) { c.gone_by_rm = true; held++; }
  }
  if (held) sim::probe("removed_with_open_connections");
  w->removed_srvs.insert(id); if (!s) t->udp->removed = true;
  int ports = sim::listening_ports();
  int r; { sim::User u; r = comm->rmSrv(id); }
  sim::op_done();
  if (r != 0) sim::violate("rm-failed", "rmSrv(%d) of an existing server failed", id);
  if (s && !grp && sim::listening_ports() != ports - 1) sim::violate("still-listening", "rmSrv returned and the server's port %d is still being listened on (or another one is not)", s->port);
  for (auto &c : w->conns) if (c.connects ? c.s.iSvrId == id : c.gone_by_rm) { sim::TcpInfo ti = sim::tcp_info(c.key); if (ti.fd >= 0) sim::violate("fd-leak", "%s: its server was removed and its descriptor %d is still open", c.name(), ti.fd); }
  if (sim::listening_ports() != (int)t->live_tcp.size()) sim::violate("foreign-close", "removing one server left %d listening, %zu should be", sim::listening_ports(), t->live_tcp.size());
  check_live("rmSrv");
  { sim::User u; r = comm->rmSrv(id); }
  if (r == 0) sim::violate("rm-twice", "removing a removed server succeeded");
  for (auto &c : w->conns) if (c.connects && c.s.iSvrId == id && sim::chance(W, 1, 3)) { app_write(comm_eng, c, "late", sim::chance(W, 1, 2)); if (sim::chance(W, 1, 2)) app_close(comm_eng, c); }
  if (t->recreate > 0 && sim::chance(W, 1, 2)) { // the port can be used again at once
    t->recreate--; sim::probe("recreated");
    if (!s) make_udp();
    else if (!grp) {
      w->srvs.push_back(*s); SrvCfg *q = &w->srvs.back(); t->live_tcp.push_back(q); int nid;
      { sim::User u; nid = comm->createSrv(SRV_TCP, "0.0.0.0", q->port, q->ri, q->rm, q->si, q->sm); }
      if (nid < 0) sim::violate("recreate-failed", "the port of a removed server cannot be used again: %s", comm->getErrMsg());
      if (nid == id) sim::probe("id_reused"); q->id = nid; { sim::User u; comm->setProcessor(nid, comm_eng, pkg_type(q->kind)); if (q->kind == LINE) comm->setPkgFilter(nid, new LineFilter); }
    }
  }
  t->in_rm = false;
}
void Udp::hook() { if (sim::chance(W, 1, 12)) do_rm(); }
}
SCENARIO("C23", remove_srv, 5) {
  w = new World; sim::default_schedule(); net_params(); net_faults();
  t = new T23{}; t->left = sim::range(W, 1, 5); t->recreate = sim::draw(W, 3);
  Cfg g; g.nsrv = sim::range(W, 1, 3); g.ngroups = sim::draw(W, 3); g.nin = sim::range(W, 1, 10); g.npk_max = 6;
  Script &s = w->sc; s.none = 2; s.echo = 3; s.multi = 2; s.wclose = sim::draw(W, 2); s.close = sim::draw(W, 2); s.defer = 2; s.other = 2; s.connect = g.ngroups ? 2 : 0; w->out_left = g.ngroups ? 6 : 0; s.connect_actions = sim::chance(W, 1, 2); s.end_actions = sim::chance(W, 1, 2); s.big = sim::draw(W, 3);
  start(g);
  for (auto &x : w->srvs) t->live_tcp.push_back(&x);
  for (auto &x : w->groups) t->live_grp.push_back(&x);
  int rate = sim::range(W, 2, 20);
  int crate = sim::chance(W, 1, 2) ? sim::range(W, 4, 30) : 0;
  w->after_event = [rate, crate](Eng *, Conn *, int) { if (crate && !t->in_rm && sim::chance(W, 1, crate)) try_create(); if (sim::chance(W, 1, rate)) do_rm(); };
  bool udp = sim::chance(W, 1, 2); if (udp) { in_loop(comm_eng, make_udp); sim::sleep_for(5 * MS); }
  add_clients(g, g.nin, sim::chance(W, 1, 2) ? 5 * MS : 1 * SEC);
  if (g.ngroups) for (int i = 0; i < 2; i++) in_loop(comm_eng, [] { new_outgoing(comm_eng); });
  if (t->udp) sim::spawn("udp-client", [] {
    sim::UdpPeer *u = sim::udp_peer(40000);
    for (int i = 0; i < 12; i++) { char h[20]; snprintf(h, sizeof h, "d%d:", i); std::string d = h + rnd_bytes(8 + sim::draw(W, 60)); g_sent.insert(d); sim::udp_peer_send(u, 9000, d); sim::sleep_for(sim::draw(W, 100) * MS); }
  });
  // other clients keep arriving, also after a removal
  sim::sleep_for(sim::draw(W, 1500) * MS);
  int more = sim::draw(W, 4); for (int i = 0; i < more && !t->live_tcp.empty(); i++) { Conn *c = new_conn(true, t->live_tcp[sim::draw(W, t->live_tcp.size())]); plan_stream(*c, sim::draw(W, 4), false); c->ending = (Ending)sim::draw(W, 3); sim::spawn("client", [c] { client(c); }); }
  settle(); verify_all();
  w->after_event = nullptr; w->heap_slack = 10; base_fds = 3 + sim::listening_ports() + (t->udp && !t->udp->removed);
  peers_leave();
  // remove what is left; nothing of it may stay behind
  w->phase = 0; t->left = 20; t->recreate = 0; w->closing_all = true;
  for (int i = 0; i < 12; i++) in_loop(comm_eng, do_rm);
  sim::sleep_for(2 * SEC);
  if (sim::listening_ports() != 0) sim::violate("still-listening", "all servers were removed and %d ports are still listened on", sim::listening_ports());
  if (sim::fds_open() > 3) sim::violate("fd-leak", "all servers and groups were removed and descriptors are open: %s", sim::fds_describe().c_str());
  std::string hd; uint64_t big = sim::heap_live_big(base_heap, 48, &hd);
  if (big > 6) sim::violate("memory-leak", "all servers and groups were removed and %llu blocks allocated for them are still held: %s", (unsigned long long)big, hd.c_str());
}
namespace {
// the same for the accepting side of the multi-threaded engine, before it starts
void try_create_worker() {
  bool occ = sim::chance(W, 1, 2); uint16_t port = occ ? w->srvs[0].port : 9700;
  if (!occ) { sim::fault_rate(sim::FT_sock_fail, 1, 2); sim::fault_rate(sim::FT_epoll_ctl_fail, 1, 2); }
  int fds = sim::fds_open(), ports = sim::listening_ports(), id; uint64_t f0 = sim::faults_fired(sim::FT_sock_fail) + sim::faults_fired(sim::FT_epoll_ctl_fail), mark = sim::heap_mark();
  { sim::User u; id = nmgr->createSrv("0.0.0.0", port, pkg_type(draw_kind()), 100, 1000, 100, 1000); }
  bool failed = sim::faults_fired(sim::FT_sock_fail) + sim::faults_fired(sim::FT_epoll_ctl_fail) > f0; sim::fault_rate(sim::FT_sock_fail, 0, 1); sim::fault_rate(sim::FT_epoll_ctl_fail, 0, 1);
  sim::op_done();
  if (occ || failed) {
    sim::probe(occ ? "create_occupied" : "create_failed");
    if (id >= 0) sim::violate("create-untrue", "a server was reported as created although %s", occ ? "its port was in use" : "its socket or its registration failed");
    if (sim::fds_open() != fds || sim::listening_ports() != ports) sim::violate("fd-leak", "a server that could not be created left %d descriptors and %d listening ports behind", sim::fds_open() - fds, sim::listening_ports() - ports);
    std::string hd; uint64_t big = sim::heap_live_big(mark, 48, &hd); if (big > 1) sim::violate("memory-leak", "a server that could not be created left %llu blocks behind: %s", (unsigned long long)big, hd.c_str());
  } else if (id < 0) sim::violate("recreate-failed", "a server could not be created on a free port");
  else if (sim::listening_ports() != ports + 1) sim::violate("create-untrue", "a server was created and its port is not listened on");
}
}
SCENARIO("C23", create_worker, 1) {
  w = new World; sim::default_schedule(); net_params(); net_faults();
  Cfg g; g.worker = true; g.workers = sim::range(W, 1, 2); g.nsrv = sim::range(W, 1, 2); g.nin = sim::range(W, 1, 3); g.npk_max = 3;
  Script &s = w->sc; s.none = 1; s.echo = 3; s.multi = 1;
  int k = sim::range(W, 1, 3);
  w->before_loop = [k] { int n = sim::listening_ports(); for (int i = 0; i < k && sim::listening_ports() == n; i++) try_create_worker(); };
  start(g);
  add_clients(g, g.nin, 5 * MS);
  settle(); verify_all();
}
SCENARIO("C23", stop_loop, 2) {
  w = new World; sim::default_schedule(); net_params(); net_faults();
  if (sim::chance(W, 1, 3)) sim::fault_rate(sim::FT_thread_stall, 1, 200);
  Cfg g; g.nsrv = sim::range(W, 1, 2); g.ngroups = sim::draw(W, 2); g.nin = sim::range(W, 0, 5); g.npk_max = 4;
  Script &s = w->sc; s.none = 2; s.echo = 3; s.multi = 1; s.defer = 3; s.other = 2; s.connect = g.ngroups ? 2 : 0; w->out_left = g.ngroups ? 3 : 0;
  t = new T23{};
  start(g);
  add_clients(g, g.nin, 500 * MS);
  int how = sim::draw(W, 3); // 0 another thread, 1 a handler, 2 a timer or message
  ns_t *at = new ns_t(0);
  auto stop = [at] { *at = sim::now(); { sim::User u; comm->stop(); } t->stopped = true; };
  if (how == 1) { int rate = sim::range(W, 1, 10); w->after_event = [stop, rate](Eng *, Conn *, int) { if (!t->stopped && sim::chance(W, 1, rate)) stop(); }; }
  if (how == 2) { w->after_event = [stop](Eng *, Conn *, int k) { if (k == 5 && !t->stopped) stop(); }; defer(comm_eng, nullptr, true); }
  sim::sleep_for(sim::draw(W, 6000) * MS + sim::draw(W, 1000) * US);
  if (!t->stopped) stop();
  bool ok = sim::block([] { return sim::fiber_done(loop_fid); }, in(*at + 20 * SEC > sim::now() ? 20 * SEC : 1 * SEC));
  if (!ok) sim::violate("stop-ignored", "the loop was still running 20 s after stop()");
  ns_t took = sim::now() - *at; bool stalled = sim::faults_fired(sim::FT_thread_stall) > 0;
  if (!stalled && took > 4 * SEC && sim::now() - *at > 4 * SEC && sim::fiber_done(loop_fid) && how == 0) sim::violate("stop-late", "the loop took %.1f s to return after stop(), its poll period is 3 s", took / 1e9);
  uint64_t p = w->progress; int acc = comm_eng->accepted; size_t d = 0; for (auto &c : w->conns) d += c.consumed;
  sim::sleep_for(5 * SEC);
  size_t d2 = 0; for (auto &c : w->conns) d2 += c.consumed;
  if (acc != comm_eng->accepted || d2 != d) sim::violate("callback-after-stop", "callbacks ran after the loop had returned");
  (void)p;
}
