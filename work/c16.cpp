// C16: the synchronous file log, written by several threads, with day changes, failing disks and deaths of the process.
#include "logs.h"
#include "CFileLog.h"
using namespace lce; using namespace logs;
namespace {
struct Opt { int threads; bool faults, days, crash; };
void put(Log *g, CFileLog *l, int thread, int kind) {
  Rec &r = begin(g, thread, kind); bool ok; std::string *t = new std::string(r.text);
  { sim::User u; switch (kind) { case RAW: ok = l->writeRaw(*t); break; case STR: ok = l->write(*t); break; default: { size_t c = t->size() / 2; ok = l->write("%.*s%s", (int)c, t->c_str(), t->c_str() + c); } } }
  end(r, ok); sim::ev("write %d -> %d", r.id, ok);
  if (!ok && g->faults() == r.f0) sim::violate("write-refused", "line %d was reported as failed without any disk error: %s", r.id, l->getErrMsg());
  if (!ok) sim::probe("failed write reported");
}
CFileLog *open_log(Log *g) { CFileLog *l; sim::User u; l = new CFileLog; if (!l->init(g->base, g->max, g->n, false)) sim::violate("init-failed", "init returned false"); return l; }
void run(const Opt &o) {
  Log *g = new Log; sim::default_schedule(); g->n = 2 + sim::draw(W, 4); g->max = sim::chance(W, 1, 4) ? 1 + sim::draw(W, 30) : sim::chance(W, 1, 3) ? 100000 : 50 + sim::draw(W, 1500);
  sim::set_wall(sim::some_midnight() + 86400 - (o.days ? sim::draw(W, 8) : 40000)); // midnight minus a little
  if (sim::chance(W, 1, 3)) sim::fault_rate(sim::FT_disk_short, 1, 3);
  if (o.faults) { using namespace sim; fault_swarm({FT_disk_enospc, FT_disk_eio, FT_open_fail, FT_rename_fail, FT_remove_fail}, 8); if (chance(W, 1, 4)) { fs_capacity(200 + draw(W, 6000)); g->manual++; } }
  CFileLog *l = open_log(g); int rounds = o.crash ? 1 + sim::draw(W, 3) : 1;
  for (int round = 0; round < rounds; round++) {
    int *running = new int(o.threads), per = 3 + sim::draw(W, 20); std::vector<sim::Fid> f; bool *stop = new bool(false);
    for (int t = 0; t < o.threads; t++) f.push_back(sim::spawn("writer", [=] {
      for (int i = 0; i < per && !*stop; i++) { put(g, l, t + round * 10, sim::draw(W, 3)); if (sim::chance(W, 1, 3)) sim::sleep_for(o.days ? sim::draw(W, 1500) * MS : sim::draw(W, 300) * US); }
      --*running; }));
    if (sim::chance(W, 1, 3)) other_dates(20);
    if (o.faults && sim::chance(W, 1, 2)) sim::spawn("disk", [=] { for (int k = 1 + sim::draw(W, 3); k--;) { sim::sleep_for(sim::draw(W, 400) * US); g->disk(false); sim::fault_count(sim::FT_disk_eio); sim::sleep_for(sim::draw(W, 400) * US); g->disk(true); } });
    if (o.days && sim::chance(W, 1, 2)) sim::spawn("clock", [=] { for (int k = 1 + sim::draw(W, 3); k--;) { sim::sleep_for(sim::draw(W, 3000) * MS); if (sim::chance(W, 1, 4)) { sim::fault_count(sim::FT_clock_back); jump(g, -(int64_t)sim::draw(W, 20)); } else { sim::fault_count(sim::FT_clock_forward); jump(g, sim::chance(W, 1, 2) ? 86400 : sim::draw(W, 10)); } } });
    if (o.crash && (round + 1 < rounds || sim::chance(W, 1, 2))) {
      sim::sleep_for(sim::draw(W, 3000) * US); int y = sim::draw(W, 6); while (y--) sim::yield();
      bool busy = *running > 0; for (auto id : f) if (!sim::fiber_done(id)) sim::kill_fiber(id); sim::close_all_fds(); g->manual++; if (busy) sim::probe("died while writing");
      for (auto &r : g->recs) if (r.open) { r.end = sim::step(); r.hi = std::max(r.hi, sim::wall_us()); r.lo = std::min(r.lo, sim::wall_us()); r.ok = false; r.open = false; r.f0 = ~0ull; }
      check(g, true, "after the process died"); l = open_log(g);
    } else {
      if (!sim::block([=] { return *running == 0; }, in(600 * SEC))) sim::violate("no-progress", "a write did not return");
      check(g, true, "after the writes");
    }
  }
  sim::faults_off(); g->disk(true); sim::fs_capacity(1ull << 40); if (!o.faults && !o.crash) g->manual = 0;
  if (o.days && sim::chance(W, 1, 2)) jump(g, 86400 * (1 + sim::draw(W, 3)));
  for (int i = 0; i < 3; i++) put(g, l, 99, sim::draw(W, 3));
  check(g, true, "at the end"); { sim::User u; delete l; } check(g, true, "after the log was destroyed");
  if (sim::fds_open()) sim::violate("descriptor-leak", "still open: %s", sim::fds_describe().c_str());
}
// the stream operator stores its items in order, one writer
void run_stream() {
  Log *g = new Log; sim::default_schedule(); g->n = 2 + sim::draw(W, 3); g->max = 200 + sim::draw(W, 1500); sim::set_wall(sim::some_midnight() + 40000);
  CFileLog *l = open_log(g); int k = 1 + sim::draw(W, 20);
  for (int i = 0; i < k; i++) { bool op = sim::chance(W, 1, 2); if (!op) { put(g, l, 0, sim::draw(W, 3)); continue; } Rec &r = begin(g, 0, FMT); std::string *t = new std::string(r.text + "\n"); { sim::User u; (*l) << *t; } end(r, true); }
  { sim::User u; delete l; } g->max += 9000; // what the stream still buffers is not counted by the rotation
  check(g, false, "after streaming"); Scan sc = scan(g); for (auto &r : g->recs) if (!sc.where.count(r.id) && !rotated_out(g, sc, r, true, false, false)) sim::violate("line-lost", "line %d is not in the files", r.id);
}
}
SCENARIO("C16", filelog_threads, 3) { run(Opt{1 + (int)sim::draw(W, 4), false, false, false}); }
SCENARIO("C16", filelog_days, 3) { run(Opt{1 + (int)sim::draw(W, 3), false, true, false}); }
SCENARIO("C16", filelog_bad_disk, 4) { run(Opt{1 + (int)sim::draw(W, 3), true, sim::chance(W, 1, 4), false}); }
SCENARIO("C16", filelog_crash, 2) { run(Opt{1 + (int)sim::draw(W, 3), sim::chance(W, 1, 3), sim::chance(W, 1, 4), true}); }
SCENARIO("C16", filelog_stream, 1) { run_stream(); }
