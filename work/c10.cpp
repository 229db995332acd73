// C10: the multi-thread server: hand-off of accepted clients to workers.
#include "net.h"
using namespace nw;
SCENARIO("C10", handoff, 1) {
  w = new World; sim::default_schedule(); net_params(); net_faults();
  if (sim::chance(W, 1, 3)) sim::fault_rate(sim::FT_thread_stall, 1, 200);
  if (sim::chance(W, 1, 4)) sim::fault_rate(sim::FT_accept_abort, 1, 10);
  bool tight = sim::chance(W, 1, 4);
  Cfg g; g.worker = true; g.workers = sim::range(W, 1, 4); g.nsrv = sim::range(W, 1, 3); g.nin = sim::range(W, 1, 20); g.npk_max = 4; g.ngroups = sim::chance(W, 1, 4) ? 1 : 0;
  if (tight) { g.max_client = 4 + g.workers * 4 + g.nsrv + 3 + sim::range(W, 1, 5); w->limits = true; }
  Script &s = w->sc; s.none = 2; s.echo = 3; s.multi = 1; s.wclose = sim::draw(W, 2); s.close = sim::draw(W, 2); s.defer = 3; s.other = 2; s.connect = g.ngroups ? 2 : 0; w->out_left = g.ngroups ? 4 : 0; s.connect_actions = sim::chance(W, 1, 2);
  start(g);
  add_clients(g, g.nin, sim::chance(W, 1, 2) ? 1 * MS : 1 * SEC);
  settle(); verify_all();
  int lo = 1 << 30, hi = 0, acc = 0, est = 0; for (auto *e : w->engs) { lo = std::min(lo, e->accepted); hi = std::max(hi, e->accepted); acc += e->accepted; }
  for (auto &c : w->conns) if (c.inbound && c.t) est++;
  int errs = w->errs_mgr;
  if (errs == 0 && hi - lo > 1) sim::violate("not-in-turn", "clients were not spread in turn over the workers: one got %d, another %d", hi, lo);
  if (acc + errs < est) sim::violate("accept-unreported", "%d clients connected, %d were handed to workers and only %d were reported as not taken", est, acc, errs);
  if (tight && errs) sim::probe("client_turned_away");
  for (auto &c : w->conns) if (c.inbound && c.t && !c.connects && !c.peer_closed && !c.peer_reset && !c.fin && !c.rst && !c.peer_half) sim::violate("reject-not-closed", "%s was not handed to a worker and its connection is still open", c.name());
  peers_leave();
}
