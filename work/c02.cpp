// C02: outbound streams, send limits, close after write; both engines.
#include "net.h"
using namespace nw;
static void outbound(bool worker, bool big) {
  w = new World; w->huge = big; sim::default_schedule(); net_params(); net_faults();
  if (sim::chance(W, 1, 6)) sim::fault_rate(sim::FT_epoll_ctl_fail, 1, 8);
  Cfg g; g.worker = worker; g.workers = worker ? sim::range(W, 1, 3) : 1; g.nsrv = sim::range(W, 1, 2); g.nin = sim::range(W, 1, 5); g.npk_max = 8; g.ngroups = sim::chance(W, 1, 3) ? 1 : 0;
  Script &s = w->sc; s.none = 1; s.echo = 2; s.multi = 6; s.wclose = sim::chance(W, 1, 2) ? 1 : 0; s.close = sim::chance(W, 1, 6) ? 1 : 0; s.defer = 4; s.other = 3; s.connect = g.ngroups ? 2 : 0; w->out_left = g.ngroups ? 5 : 0; s.connect_actions = sim::chance(W, 1, 3); s.big = sim::draw(W, 4);
  if (w->huge) { g.nin = sim::range(W, 1, 3); g.npk_max = 5; }
  start(g);
  add_clients(g, g.nin, sim::chance(W, 1, 2) ? 20 * MS : 2 * SEC);
  if (sim::chance(W, 1, 2)) sim::spawn("outside", [] { // another thread posts work to the loops
    int n = 1 + sim::draw(W, 12);
    while (n-- > 0 && w->phase == 0) { sim::sleep_for(sim::draw(W, 300) * MS); Eng *e = w->engs[sim::draw(W, w->engs.size())]; defer(e, random_conn(e, nullptr), true); }
  });
  settle(); verify_all(); peers_leave();
}
SCENARIO("C02", out_comm, 3) { outbound(false, false); }
SCENARIO("C02", out_worker, 2) { outbound(true, false); }
SCENARIO("C02", out_huge_comm, 1) { outbound(false, true); }
SCENARIO("C02", out_huge_worker, 1) { outbound(true, true); }
