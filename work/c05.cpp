// C05: misbehaving clients and exhausted resources; recovery afterwards.
#include "net.h"
#include <memory>
#include <set>
using namespace nw;
// fresh well-behaved clients, who must be served whatever the others do
static std::vector<Conn *> served(Cfg &g, int k, const char *when, const char *cls) {
  std::vector<Conn *> v; auto set = std::make_shared<std::set<Conn *>>();
  auto old_read = w->custom_read; auto old_conn = w->custom_connect;
  w->custom_read = [set, old_read](Eng *e, Conn *c, const char *d, int n) { if (!set->count(c)) return old_read ? old_read(e, c, d, n) : false; app_write(e, *c, std::string(d, n), false); return true; };
  w->custom_connect = [set, old_conn](Eng *e, Conn *c) { if (!set->count(c)) return old_conn ? old_conn(e, c) : false; return true; };
  for (int i = 0; i < k; i++) { Conn *c = new_conn(true, &w->srvs[sim::draw(W, w->srvs.size())]); size_t n = std::min<size_t>(c->srv->rm, 30 + sim::draw(W, 100)); std::string p = make_pkg(c->srv->kind, n); if (c->srv->kind == HTTP && p.size() > c->srv->rm) p = "GET / HTTP/1.1\r\n\r\n"; c->stream = p; c->ends.push_back(p.size()); c->valid_bytes = p.size(); v.push_back(c); set->insert(c); c->priv = true; }
  for (Conn *c : v) sim::spawn("late-client", [c] { client(c); });
  ns_t lim = in(10 * SEC);
  for (Conn *c : v) {
    if (!sim::block([c] { return c->got.size() >= c->stream.size(); }, lim) && c->srv->sm >= c->stream.size())
      sim::violate(cls, "%s, %s was not served within 10 s (connected %d, reported %d, %zu of %zu bytes delivered, %zu bytes answered; table for %d clients)", when, c->name(), c->t != nullptr, c->connects, c->consumed, c->stream.size(), c->got.size(), g.max_client);
  }
  return v;
}
static void hostile(bool worker) {
  w = new World; sim::default_schedule(); net_params(); net_faults();
  sim::fault_swarm({sim::FT_accept_abort, sim::FT_accept_emfile, sim::FT_epoll_ctl_fail}, 5);
  w->limits = true;
  Cfg g; g.worker = worker; g.workers = worker ? sim::range(W, 1, 3) : 1; g.nsrv = sim::range(W, 1, 2); g.npk_max = 5; g.misbehave = true; g.ngroups = sim::draw(W, 2);
  int base = 3 + 3 + g.nsrv + (worker ? g.workers * 4 : 0);
  g.max_client = sim::chance(W, 1, 2) ? 200 : base + sim::range(W, 2, 8);
  Script &s = w->sc; s.none = 2; s.echo = 4; s.multi = 2; s.wclose = sim::draw(W, 3); s.close = sim::draw(W, 3); s.defer = sim::draw(W, 4); s.other = sim::draw(W, 3); s.connect = g.ngroups ? 2 : 0; w->out_left = g.ngroups ? 6 : 0; s.end_actions = sim::chance(W, 1, 2); s.connect_actions = sim::chance(W, 1, 2); s.big = sim::draw(W, 3);
  start(g);
  add_clients(g, sim::range(W, 1, 14), sim::chance(W, 1, 2) ? 5 * MS : 1 * SEC);
  bool shortage = sim::chance(W, 1, 3);
  if (shortage) sim::spawn("fd-shortage", [] {
    for (int i = 0; i < 2; i++) { sim::sleep_for(sim::draw(W, 400) * MS); int m = sim::net().fd_max; sim::net().fd_max = 3 + sim::fds_open() + sim::draw(W, 2); sim::sleep_for((1 + sim::draw(W, 3)) * MS); sim::net().fd_max = m; }
  });
  if (!shortage && g.max_client == 200 && sim::chance(W, 1, 2)) { // the others go on misbehaving, the network does not
    sim::sleep_for(sim::draw(W, 3000) * MS); sim::faults_off();
    served(g, sim::range(W, 1, 3), "while other clients misbehave", "not-served");
  }
  settle(); verify_all(); peers_leave();
  // recovery: the disturbance is over; new well-behaved clients must be served
  w->closing_all = false; w->phase = 1; w->out_left = 0;
  int room = worker ? 40 : 40; if (g.max_client < 200) room = (int)(g.max_client) - base - 1; int k = std::min(room, (int)sim::range(W, 1, 4)); if (k < 1) k = 1;
  int held = 0; for (auto &c : w->conns) if (!c.inbound && sim::tcp_info(c.key).fd >= 0) held++; // attempts towards a black hole
  if (held && g.max_client < 200) return;
  bool was = w->limits; w->limits = false; (void)was;
  auto v = served(g, k, "after the disturbance ended", "no-recovery");
  w->limits = true;
  for (Conn *c : v) verify_conn(*c);
}
// wear: the same kind of end again and again, more often than there is room for clients; whatever a connection held must be free again
static void wear(bool worker) {
  w = new World; sim::default_schedule(); net_params();
  Cfg g; g.worker = worker; g.workers = worker ? sim::range(W, 1, 3) : 1; g.nsrv = 1; g.ngroups = 1;
  int base = 3 + 3 + g.nsrv + (worker ? g.workers * 4 : 0); g.max_client = base + sim::range(W, 4, 9);
  w->limits = true; w->sc.none = 1;
  start(g); SrvCfg *srv = &w->srvs[0];
  if (sim::chance(W, 1, 4)) sim::fault_rate(sim::FT_epoll_ctl_fail, 2, 3); // registering fails
  int way = sim::draw(W, 13), rounds = g.max_client + 2 + sim::draw(W, 4); bool over_limit = sim::chance(W, 1, 4);
  w->custom_connect = [way](Eng *e, Conn *c) {
    if (way == 2) app_close(e, *c); else if (way == 3) in_loop(e, [e, c] { if (!c->over()) app_close(e, *c); }); else if (way == 4) app_write(e, *c, "no", true);
    else if (way == 5) { std::string big(c->srv->sm, 'b'); app_write(e, *c, big, false); if (c->live()) app_write(e, *c, big, false); }
    return true; };
  w->custom_read = [way](Eng *e, Conn *c, const char *d, int n) { if (way == 6) app_close(e, *c); else if (way == 7) app_write(e, *c, std::string(d, n), true); return true; };
  auto one = [&](bool rush) {
    Conn *c = new_conn(true, srv); c->priv = true; c->ending = CLOSE; std::string p = make_pkg(srv->kind, std::min<size_t>(srv->rm, 10 + sim::draw(W, 60))); if (p.size() > srv->rm) p = "GET / HTTP/1.1\r\n\r\n";
    auto valid = [&] { c->stream = p; c->ends.push_back(p.size()); c->valid_bytes = p.size(); };
    switch (way) {
    case 1: c->ending = RESET; break;
    case 2: case 3: case 4: c->ending = STAY; if (sim::chance(W, 1, 2)) valid(); break;
    case 5: c->ending = RESET; c->rd_mode = 2; sim::fault_count(sim::FT_peer_stall); break;
    case 6: case 7: c->ending = STAY; valid(); break;
    case 8: if (has_frames(srv->kind)) { c->ending = STAY; c->stream = make_invalid(srv->kind, srv->rm); c->term = T_INVALID; sim::fault_count(sim::FT_peer_badpkg); } break;
    case 9: { std::string o = has_frames(srv->kind) ? make_oversize(srv->kind, srv->rm) : ""; if (!o.empty()) { c->ending = STAY; c->stream = o; c->term = T_OVERSIZE; sim::fault_count(sim::FT_peer_badpkg); } break; }
    case 10: if (has_frames(srv->kind) && p.size() > 2) { c->stream = p.substr(0, p.size() / 2); c->term = T_INCOMPLETE; } c->ending = sim::chance(W, 1, 2) ? CLOSE : RESET; break;
    case 11: valid(); c->ending = HALF; break;
    default: break;
    }
    uint16_t key = c->key; sim::spawn("client", [c] { client(c); });
    if (rush) return c;
    sim::block([c, key] { if (!c->t && !c->peer_refused) return false; sim::TcpInfo ti = sim::tcp_info(key); return (c->connects || c->peer_refused || c->rst || c->fin || ti.rst) && ti.fd < 0 && (c->sender_done || !c->t || c->over()); }, in(5 * SEC));
    if (c->t && !c->peer_closed && !c->peer_reset) { c->peer_closed = true; sim::peer_close(c->t); sim::block([key] { return sim::tcp_info(key).fd < 0; }, in(1 * SEC)); }
    return c; };
  for (int i = 0; i < rounds; i++) {
    if (way == 12) { Eng *e = w->engs[i % w->engs.size()]; w->out_left = 1; in_loop(e, [e] { new_outgoing(e); }); sim::sleep_for(300 * MS); for (auto &c : w->conns) if (c.t && !c.peer_closed && !c.peer_reset) { c.peer_closed = true; sim::peer_close(c.t); } sim::sleep_for(300 * MS); }
    else one(over_limit);
  }
  sim::sleep_for(1 * SEC); sim::faults_off(); w->phase = 1; sim::probe("worn");
  for (auto &c : w->conns) if (c.t && !c.peer_closed && !c.peer_reset) { c.peer_closed = true; sim::peer_close(c.t); }
  sim::sleep_for(2 * SEC);
  int held = 0; for (auto &c : w->conns) if (!c.inbound && sim::tcp_info(c.key).fd >= 0) held++; // attempts towards a black hole
  w->custom_connect = nullptr; w->custom_read = nullptr; w->out_left = 0;
  if (!held) served(g, 1, "after many connections of one kind had ended", "no-recovery");
  peers_leave();
}
SCENARIO("C05", wear_comm, 1) { wear(false); }
SCENARIO("C05", wear_worker, 1) { wear(true); }
SCENARIO("C05", hostile_comm, 3) { hostile(false); }
SCENARIO("C05", hostile_worker, 2) { hostile(true); }
