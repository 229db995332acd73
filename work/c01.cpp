// C01: inbound framing, both engines.
#include "net.h"
using namespace nw;
static void inbound(bool worker, bool huge = false) {
  w = new World; w->huge = huge; sim::default_schedule(); net_params(); net_faults();
  Cfg g; g.worker = worker; g.workers = worker ? sim::range(W, 1, 3) : 1; g.nsrv = sim::range(W, 1, 3); g.nin = sim::range(W, 1, 8); g.npk_max = sim::chance(W, 1, 4) ? 30 : 8; g.ngroups = sim::chance(W, 1, 3) ? 1 : 0;
  w->sc.none = 6; w->sc.echo = 2; w->sc.multi = 1; w->sc.close = sim::chance(W, 1, 4) ? 1 : 0; w->sc.wclose = sim::chance(W, 1, 4) ? 1 : 0; w->sc.connect = g.ngroups ? 2 : 0; w->out_left = g.ngroups ? 6 : 0;
  if (w->huge) { g.nin = sim::range(W, 1, 3); g.npk_max = 5; }
  start(g);
  add_clients(g, g.nin, sim::chance(W, 1, 2) ? 20 * MS : 3 * SEC);
  settle(); verify_all(); peers_leave();
}
SCENARIO("C01", in_comm, 3) { inbound(false); }
SCENARIO("C01", in_worker, 2) { inbound(true); }
SCENARIO("C01", in_huge_comm, 1) { inbound(false, true); }
SCENARIO("C01", in_huge_worker, 1) { inbound(true, true); }
