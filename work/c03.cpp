// C03: connection life cycle, incoming and outgoing; both engines.
#include "net.h"
using namespace nw;
static void life(bool worker) {
  w = new World; sim::default_schedule(); net_params(); net_faults();
  if (sim::chance(W, 1, 4)) sim::fault_rate(sim::FT_epoll_ctl_fail, 1, 6);
  Cfg g; g.worker = worker; g.workers = worker ? sim::range(W, 1, 3) : 1; g.nsrv = sim::range(W, 1, 2); g.nin = sim::range(W, 1, 8); g.npk_max = 4; g.ngroups = sim::range(W, 1, 2);
  Script &s = w->sc; s.none = 2; s.echo = 2; s.multi = 1; s.wclose = sim::draw(W, 3); s.close = sim::draw(W, 3); s.defer = sim::draw(W, 4); s.other = sim::draw(W, 3); s.connect = 4; w->out_left = sim::range(W, 1, 14); s.connect_actions = sim::chance(W, 1, 2); s.end_actions = sim::chance(W, 1, 2);
  start(g);
  if (sim::chance(W, 1, 8)) sim::fault_rate(sim::FT_sock_fail, 1, 6);
  add_clients(g, g.nin, sim::chance(W, 1, 2) ? 20 * MS : 2 * SEC);
  settle(); verify_all(); peers_leave();
}
SCENARIO("C03", life_comm, 1) { life(false); }
SCENARIO("C03", life_worker, 1) { life(true); }
