// C04: saved sessions used after their connection ended, with heavy descriptor reuse; both engines.
#include "net.h"
using namespace nw;
static void stale(bool worker) {
  w = new World; sim::default_schedule(); net_params(); net_faults();
  Cfg g; g.worker = worker; g.workers = worker ? sim::range(W, 1, 3) : 1; g.nsrv = sim::range(W, 1, 2); g.npk_max = 4; g.ngroups = sim::draw(W, 2);
  Script &s = w->sc; s.none = 2; s.echo = 1; s.multi = 1; s.wclose = 1 + sim::draw(W, 3); s.close = 1 + sim::draw(W, 3); s.defer = 8; s.other = 6; s.connect = g.ngroups ? 3 : 0; w->out_left = g.ngroups ? 10 : 0; s.connect_actions = true; s.end_actions = true;
  start(g);
  int waves = sim::range(W, 2, 5);
  for (int i = 0; i < waves; i++) { add_clients(g, sim::range(W, 1, 4), 300 * MS); sim::sleep_for(sim::draw(W, 1500) * MS); }
  sim::spawn("outside", [] { int n = 4 + sim::draw(W, 20); while (n-- > 0 && w->phase == 0) { sim::sleep_for(sim::draw(W, 300) * MS); Eng *e = w->engs[sim::draw(W, w->engs.size())]; defer(e, random_conn(e, nullptr), true); } });
  settle(); verify_all(); peers_leave();
}
SCENARIO("C04", stale_comm, 1) { stale(false); }
SCENARIO("C04", stale_worker, 1) { stale(true); }
// a session kept from long ago: very many connections have had its descriptor since, and it still addresses none of them
namespace old {
struct St { std::vector<StSession> saved; uint64_t closed = 0; int (*wr)(const StSession &, const char *, int) = nullptr; void (*cl)(const StSession &) = nullptr; } *st;
static void opened(const StSession &s) { sim::Kern k; st->saved.push_back(s); }
static void ended() { sim::Kern k; st->closed++; }
static void asked(StSession &s) {
  StSession o[6]; int dist[6], n = 0; bool cl;
  { sim::Kern k; size_t last = st->saved.size() - 1; int d[6] = {1, 255 + (int)sim::draw(W, 3), 256, 65536, 65535 + (int)sim::draw(W, 3), 1 + (int)sim::draw(W, last + 1)}; for (int i = 0; i < 6; i++) if (d[i] <= (int)last) { o[n] = st->saved[last - d[i]]; dist[n++] = d[i]; } cl = sim::chance(W, 1, 2); }
  for (int i = 0; i < n; i++) {
    int r = st->wr(o[i], "X", 1);
    if (r == 0) { sim::Kern k; sim::violate("stale-write-accepted", "a write on the session of a connection that ended %d connections ago was accepted (descriptor %d then and %d now)", dist[i], o[i].iFd, s.iFd); }
    if (cl) st->cl(o[i]);
  }
  if (n) { sim::Kern k; sim::probe("old_handle"); }
  st->wr(s, "A", 1);
}
struct Comm : CProcessor { void onRead(StSession &s, const char *, const int) { asked(s); } void onClose(StSession &) { ended(); } void onConnect(StSession &s, bool, void *) { opened(s); } void onError(StSession &, const char *, int) {} void onTimer(int, void *) {} void onMessage(int, void *) {} };
struct Wk; static Wk *wk;
struct Wk : CNetWorker { Wk() { wk = this; } void onRead(StSession &s, const char *, const int) { asked(s); } void onClose(StSession &) { ended(); } void onConnect(StSession &s, bool, void *) { opened(s); } void onError(StSession &, const char *, int) {} void onTimer(int, void *) {} void onMessage(int, void *) {}
  static int wr(const StSession &s, const char *d, int n) { return ((CNetWorker *)wk)->write(s, d, n, false); } static void cl(const StSession &s) { wk->close(s); } };
static void handles(bool worker, int rounds) {
  st = new St; if (rounds > 5000) sim::run_limits(1ull << 34, 60); else { sim::default_schedule(); }
  CNetWorkerMgr<Wk> *mg = nullptr;
  { sim::User u; bool bad;
    if (!worker) { CCommMgr *m = &CCommMgr::getInstance(); bad = m->init(200) != 0; int id = m->createSrv(SRV_TCP, "0.0.0.0", 8000, 64, 4096, 64, 4096); bad = bad || id < 0; m->setProcessor(id, new Comm, PKG_RAW); }
    else { mg = new CNetWorkerMgr<Wk>; bad = mg->init(1, 200) != 0 || mg->createSrv("0.0.0.0", 8000, PKG_RAW, 64, 4096, 64, 4096) < 0; }
    if (bad) { sim::Kern k; sim::violate("setup-failed", "listening failed although no fault was injected"); } }
  if (worker) { st->wr = Wk::wr; st->cl = Wk::cl; }
  else { st->wr = [](const StSession &s, const char *d, int n) { return CCommMgr::getInstance().write(s, d, n, false); }; st->cl = [](const StSession &s) { CCommMgr::getInstance().close(s); }; }
  sim::spawn("loop", [worker, mg] { sim::User u; if (worker) mg->start(); else CCommMgr::getInstance().start(); });
  for (int i = 0; i < rounds; i++) {
    sim::Tcp *t = sim::peer_connect(8000, 5 * SEC); if (!t) sim::violate("not-served", "connection %d of %d was not accepted", i + 1, rounds);
    std::string o; sim::peer_send_all(t, "P", in(5 * SEC)); int r = sim::peer_recv(t, o, 10, in(5 * SEC));
    if (r != 1 || o != "A") sim::violate(r <= 0 ? "wrong-target" : "answer-wrong", "connection %d asked and got '%s' (%d): sessions of connections that had ended were used to write and close meanwhile", i + 1, o.c_str(), r);
    sim::peer_close(t); sim::op_done(); uint64_t want = i + 1; if (!sim::block([want] { return st->closed >= want; }, in(5 * SEC))) sim::violate("close-not-reported", "the end of connection %d was not reported", i + 1);
  }
  sim::state_mark(rounds);
}
static int few() { return 260 + sim::draw(W, 60); }
}
SCENARIO("C04", old_handles_comm, 0) { old::handles(false, old::few()); }
SCENARIO("C04", old_handles_worker, 0) { old::handles(true, old::few()); }
SCENARIO("C04", ancient_handles_comm, 0) { old::handles(false, 65600); }
SCENARIO("C04", ancient_handles_worker, 0) { old::handles(true, 65600); }
