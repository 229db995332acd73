// C29: signals: each is handed over to its processor, none disturbs anything else, and a handler may stop the loop.
#include "net.h"
#include <signal.h>
#include <unistd.h>
using namespace nw;
namespace {
struct Sg; struct Reg { Sg *now, *next; uint64_t calls; Reg() : now(nullptr), next(nullptr), calls(0) {} };
struct St { std::map<int, Reg> reg; int stop_sig; bool clobber, final, confirmed, returned_ok; uint64_t stops, returns; ns_t stopped_at; } *g;
void on_signal(Sg *p, int s) {
  bool clob, stop;
  { sim::Kern k; auto i = g->reg.find(s); if (i == g->reg.end()) sim::violate("signal-wrong", "a processor was called for signal %d, for which none was registered", s);
    Reg &r = i->second; if (p != r.now && p != r.next) sim::violate("signal-wrong", "signal %d was handed to a processor that is not the one registered for it", s);
    r.calls++; sim::op_done(); sim::probe("signal_handed_over"); clob = g->clobber; stop = s == g->stop_sig; if (stop) { g->stops++; if (!g->stopped_at) g->stopped_at = sim::now(); } }
  if (clob) { if (s & 1) ::close(-1); else { char c; if (::read(-1, &c, 1) < 0) {} } } // what a handler calls may fail
  if (stop) comm->stop();
}
struct Sg : CProcessor { void onSignal(int s) { on_signal(this, s); } };
void add(int s, Sg *p) {
  std::vector<int> known; for (auto &x : g->reg) if (x.second.now && x.first != g->stop_sig) known.push_back(x.first); if (!known.empty() && w->phase == 0 && sim::chance(W, 1, 2)) sim::sig_deliver(known[sim::draw(W, known.size())]); // one arrives about now
  { Reg &r = g->reg[s]; r.next = p; } int r; UR(r = comm->addSigHandler(s, p)); g->reg[s].now = p; g->reg[s].next = nullptr;
  if (r != 0) sim::violate("signal-refused", "addSigHandler(%d) failed", s);
}
void mark() { // a timer, as a message would hide that others were left behind
  Op o; o.kind = -1; o.conn = -1; o.close = o.done = false; o.fn = [] { g->confirmed = true; g->stopped_at = 0; }; w->ops.push_back(o); size_t i = w->ops.size(); w->pend_ops++; int r, id = w->timer_ids++;
  UR(r = comm_eng->timer(id, 0, (void *)i)); if (r != 0) sim::violate("timer-refused", "addTimer failed");
}
void loop() {
  while (true) {
    g->confirmed = false; g->stopped_at = 0; mark(); uint64_t s0 = g->stops;
    UR(comm->start()); g->returns++;
    if (g->stops == s0) sim::violate("loop-ended", "start() returned although no handler had asked it to stop");
    if (g->confirmed && g->stopped_at && sim::now() - g->stopped_at > 3500 * MS) sim::violate("stop-late", "start() returned %.0f ms after a signal handler had called stop()", (sim::now() - g->stopped_at) / 1e6);
    w->progress++; if (g->final) return; sim::probe("started_again");
  }
}
void signals(bool bare) {
  w = new World; g = new St(); sim::default_schedule(); if (!bare || sim::chance(W, 1, 3)) { net_params(); net_faults(); }
  static const int all[] = {SIGHUP, SIGINT, SIGUSR1, SIGUSR2, SIGALRM, SIGTERM, SIGCHLD, SIGWINCH, SIGURG}; std::vector<int> sigs; for (int s : all) if (sim::chance(W, 2, 3)) sigs.push_back(s); if (sigs.empty()) sigs.push_back(SIGINT); for (size_t i = sigs.size(); i > 1; i--) std::swap(sigs[i - 1], sigs[sim::draw(W, i)]);
  Cfg c; c.nsrv = 1; c.nin = sim::range(W, 1, 5); c.npk_max = 6; c.ngroups = sim::draw(W, 2); Script &s = w->sc; s.none = 2; s.echo = 4; s.multi = 2; s.wclose = sim::draw(W, 2); s.close = sim::draw(W, 2); s.defer = 3; s.other = 1; s.connect = c.ngroups; w->out_left = c.ngroups ? 3 : 0;
  g->clobber = sim::chance(W, 1, 2); g->stop_sig = sigs[0]; bool stops = sim::chance(W, 1, 3); // signals that stop the loop come all the time
  std::vector<Sg *> ps; for (int i = 1 + sim::draw(W, 2); i--;) ps.push_back(new Sg); size_t early = 1 + sim::draw(W, sim::draw(W, 2) ? 1 : sigs.size());
  w->before_loop = [&] { int r; UR(r = comm->addSigHandler(SIGPROF, NULL)); if (r == 0 || sim::sig_installed(SIGPROF)) sim::violate("signal-wrong", "a signal was registered without a processor"); sim::signal_source(std::vector<int>(sigs.begin() + (stops ? 0 : 1), sigs.end())); static const int den[] = {30, 100, 400}; sim::fault_rate(sim::FT_signal, 1, den[sim::draw(W, 3)]); for (size_t i = 0; i < early; i++) add(sigs[i], ps[sim::draw(W, ps.size())]); };
  w->run_loop = loop; start(c);
  if (!bare) add_clients(c, c.nin, sim::chance(W, 1, 2) ? 20 * MS : 1 * SEC);
  // other threads post meanwhile; handlers are registered and replaced in the loop and elsewhere
  for (int t = sim::draw(W, 3); t--;) sim::spawn("outside", [] { int n = 4 + sim::draw(W, 20); while (n-- > 0 && w->phase == 0) { sim::sleep_for(sim::draw(W, 200) * MS); defer(comm_eng, random_conn(comm_eng, nullptr), true); } });
  sim::Fid reg = sim::spawn("registrar", [&] { for (size_t i = early; i < sigs.size(); i++) { if (sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 200) * MS); add(sigs[i], ps[sim::draw(W, ps.size())]); } for (int n = sim::draw(W, 4); n--;) { sim::sleep_for(sim::draw(W, 300) * MS); int q = sigs[sim::draw(W, sigs.size())]; Sg *p = ps[sim::draw(W, ps.size())]; if (sim::chance(W, 1, 2)) add(q, p); else { bool *d = new bool(false); in_loop(comm_eng, [=] { add(q, p); *d = true; }); sim::block([d] { return *d; }, in(60 * SEC)); if (!*d) sim::violate("no-progress", "a message was not delivered within 60 s"); } sim::probe("registered_again"); } });
  if (!sim::block([reg] { return sim::fiber_done(reg); }, in(120 * SEC))) sim::violate("no-progress", "registering handlers did not come to an end"); settle();
  for (int q : sigs) { // each signal, one at a time
    for (int n = 1 + sim::draw(W, 2); n--;) { if (q == g->stop_sig && !sim::block([] { return g->confirmed; }, in(10 * SEC))) sim::violate("no-progress", "the loop did not start again within 10 s"); if (!sim::block([q] { return !sim::sig_is_pending(q) && g->reg[q].calls >= sim::sig_handled(q); }, in(10 * SEC))) sim::violate("signal-lost", "signal %d was not handed over", q);
      uint64_t h = g->reg[q].calls; ns_t t0 = sim::now(); if (sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 3000) * US); sim::sig_deliver(q); if (!sim::block([q, h] { return g->reg[q].calls > h; }, in(4 * SEC))) sim::violate("signal-lost", "signal %d was not handed over to its processor within 4 s", q); (void)t0; } }
  for (auto &r : g->reg) { if (!sim::block([&r] { return r.second.calls == sim::sig_handled(r.first); }, in(1 * SEC))) sim::violate("signal-wrong", "signal %d arrived %llu times and was handed over %llu times", r.first, (unsigned long long)sim::sig_handled(r.first), (unsigned long long)r.second.calls); }
  if (!quiet(60 * SEC)) sim::violate("no-progress", "activity did not settle within 60 s of simulated time");
  if (!sim::block([] { return g->confirmed; }, in(10 * SEC))) sim::violate("no-progress", "the loop did not start again within 10 s");
  if (!bare) verify_all();
  sim::state_mark(sigs.size() + 16 * early + 256 * g->clobber + 512 * stops + 1024 * std::min<uint64_t>(g->returns, 7) + 8192 * std::min<uint64_t>(sim::faults_fired(sim::FT_signal), 63));
  // and at last a signal ends it
  g->final = true; w->closing_all = true; sim::sleep_for(sim::draw(W, 4000) * MS); sim::sig_deliver(g->stop_sig);
  if (!sim::block([] { return sim::fiber_done(loop_fid); }, in(3500 * MS))) sim::violate("stop-ignored", "start() had not returned 3.5 s after a signal whose handler calls stop()");
}
}
SCENARIO("C29", signals_clients, 2) { signals(false); }
SCENARIO("C29", signals_bare, 1) { signals(true); }
