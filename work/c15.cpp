// C15: the asynchronous log: writers, explicit flushes from any thread, the flushing thread, failing disks, day changes, destruction.
#include "logs.h"
#include "CAsyncLog.h"
#include "CLog.h"
using namespace lce; using namespace logs;
namespace {
struct Opt { int threads; bool faults, days, crash, clog; };
struct Sink { virtual ~Sink() {} virtual bool write(int kind, const std::string &t) = 0; virtual void flush() = 0; };
struct Direct : Sink { CAsyncLog *l; bool write(int kind, const std::string &t) { switch (kind) { case RAW: return l->writeRaw(t); case STR: return l->write(t); default: { size_t c = t.size() / 2; return l->write("%.*s%s", (int)c, t.c_str(), t.c_str() + c); } } } void flush() { l->flush(); } };
size_t g_buf; int g_secs; bool g_small; // g_small: no rotation and no disk errors, the file holds everything flushed so far
uint64_t flushed_bytes(Log *g) { uint64_t n = 0; for (auto &p : sim::fs_list(g->base + "_")) n += sim::fs_read(p).size(); return n; }
size_t bytes_of(const Rec &r) { return r.text.size() + 1 + (r.kind == RAW ? 0 : r.kind == STR ? 21 : 22); }
uint64_t accepted_bytes(Log *g, bool open_too) { uint64_t n = 0; for (auto &r : g->recs) if (r.ok || (open_too && r.open)) n += bytes_of(r); return n; }
void put(Log *g, Sink *l, int thread, int kind) {
  uint64_t in_files = g_small ? flushed_bytes(g) : 0;
  Rec &r = begin(g, thread, kind); bool ok; std::string *t = new std::string(r.text);
  { sim::User u; ok = l->write(kind, *t); }
  uint64_t could = accepted_bytes(g, true); // includes this one and those under way
  end(r, ok); sim::ev("write %d (%zu bytes) -> %d", r.id, bytes_of(r), ok);
  if (!ok) { sim::probe("refused because the buffers are full"); if (g_small && could - in_files <= g_buf) sim::violate("refused-with-room", "line %d of %zu bytes was refused although at most %llu of %zu bytes were waiting", r.id, bytes_of(r), (unsigned long long)(could - in_files), g_buf); }
}
// every line accepted before 'from' must be in the files by now unless the disk failed since it was written
void settle(Log *g, uint64_t from, const char *why, bool quiet) {
  for (auto &r : g->recs) if (r.ok && !r.open && !r.durable && r.end < from && r.f0 == g->faults()) r.durable = true;
  check(g, false, why, quiet);
}
void do_flush(Log *g, Sink *l) { uint64_t from = sim::step(); { sim::User u; l->flush(); } sim::op_done(); if (!g->off) settle(g, from, "after a flush returned", false); sim::probe("explicit flush"); }
void run(const Opt &o) {
  Log *g = new Log; sim::default_schedule(); g->n = 2 + sim::draw(W, 4); g_small = !o.faults && !o.days && !o.crash && sim::chance(W, 1, 2);
  g->max = g_small ? 100000000 : sim::chance(W, 1, 4) ? 1 + sim::draw(W, 30) : 50 + sim::draw(W, 4000);
  g_buf = sim::chance(W, 1, 3) ? 60 + sim::draw(W, 300) : sim::chance(W, 1, 3) ? 1024 * 1024 : 300 + sim::draw(W, 5000); g_secs = sim::draw(W, 4); g->chunk = g_buf;
  sim::set_wall(sim::some_midnight() + 86400 - (o.days ? sim::draw(W, 8) : 40000));
  if (sim::chance(W, 1, 3)) sim::fault_rate(sim::FT_disk_short, 1, 3);
  if (o.faults) { using namespace sim; fault_swarm({FT_disk_enospc, FT_disk_eio, FT_open_fail, FT_rename_fail, FT_remove_fail}, 8); if (chance(W, 1, 4)) { fs_capacity(200 + draw(W, 6000)); g->manual++; } }
  CAsyncLog *l; { sim::User u; l = new CAsyncLog; if (!l->init(g->base, g_secs, g->max, g->n, false, g_buf)) sim::violate("init-failed", "init returned false"); }
  Direct *d = new Direct; d->l = l;
  int *running = new int(o.threads), per = 3 + sim::draw(W, 25); bool slow = sim::chance(W, 1, 3), flushes = sim::chance(W, 2, 3); std::vector<sim::Fid> f;
  for (int t = 0; t < o.threads; t++) f.push_back(sim::spawn("writer", [=] {
    for (int i = 0; i < per; i++) {
      if (flushes && sim::chance(W, 1, 6)) do_flush(g, d); else put(g, d, t, sim::draw(W, 3));
      if (sim::chance(W, 1, 3)) sim::sleep_for(slow || o.days ? sim::draw(W, 700) * MS : sim::draw(W, 300) * US); }
    --*running; }));
  if (sim::chance(W, 1, 3)) other_dates(20);
  if (o.faults && sim::chance(W, 1, 2)) sim::spawn("disk", [=] { for (int k = 1 + sim::draw(W, 3); k--;) { sim::sleep_for(sim::draw(W, 3000) * MS); g->disk(false); sim::fault_count(sim::FT_disk_eio); sim::sleep_for(sim::draw(W, 3000) * MS); g->disk(true); } });
  if (o.days && sim::chance(W, 1, 2)) sim::spawn("clock", [=] { for (int k = 1 + sim::draw(W, 3); k--;) { sim::sleep_for(sim::draw(W, 3000) * MS); sim::fault_count(sim::FT_clock_forward); jump(g, sim::chance(W, 1, 2) ? 86400 : sim::draw(W, 10)); } });
  if (!sim::block([=] { return *running == 0; }, in(600 * SEC))) sim::violate("no-progress", "a write or flush did not return");
  check(g, false, "after the writes", false);
  sim::sleep_for(10 * SEC); // the disk and clock helpers end
  sim::faults_off(); g->disk(true); sim::fs_capacity(1ull << 40); if (!o.faults) g->manual = 0;
  if (o.faults) { sim::sleep_for((g_secs + 1) * SEC); sim::probe("disk errors ended"); }
  // accepted lines reach the files by themselves, and by an explicit flush, now that nothing fails
  for (int k = 0; k < 3; k++) {
    if (o.days && sim::chance(W, 1, 2)) jump(g, 86400);
    int m = 1 + sim::draw(W, 4); for (int i = 0; i < m; i++) put(g, d, 50, sim::draw(W, 3));
    uint64_t from = sim::step() + 1; if (sim::chance(W, 1, 3)) do_flush(g, d); else { sim::sleep_for((ns_t)g_secs * SEC + 300 * MS + sim::draw(W, 2000) * MS); settle(g, from, "after the flush interval", true); sim::probe("flushed by the interval"); } }
  int m = sim::draw(W, 4); for (int i = 0; i < m; i++) put(g, d, 51, sim::draw(W, 3));
  uint64_t from = sim::step() + 1; { sim::User u; delete l; } settle(g, from, "after the log was destroyed", true);
  if (sim::fds_open()) sim::violate("descriptor-leak", "still open: %s", sim::fds_describe().c_str());
}
// the process dies with lines in its buffers; the next one goes on with the same files
void run_crash() {
  Log *g = new Log; sim::default_schedule(); g->n = 2 + sim::draw(W, 4); g_small = false; g->max = sim::chance(W, 1, 2) ? 50 + sim::draw(W, 4000) : 1000000; g_buf = 100 + sim::draw(W, 3000); g->chunk = g_buf; sim::set_wall(sim::some_midnight() + 40000);
  if (sim::chance(W, 1, 3)) sim::fault_rate(sim::FT_disk_short, 1, 3);
  int rounds = 1 + sim::draw(W, 3);
  for (int round = 0; round <= rounds; round++) {
    g_secs = sim::draw(W, 3); CAsyncLog *l; { sim::User u; l = new CAsyncLog; if (!l->init(g->base, g_secs, g->max, g->n, false, g_buf)) sim::violate("init-failed", "init returned false"); }
    Direct *d = new Direct; d->l = l; int nt = 1 + sim::draw(W, 3), per = 3 + sim::draw(W, 15); int *running = new int(nt);
    std::vector<sim::Fid> f; for (int t = 0; t < nt; t++) f.push_back(sim::spawn("writer", [=] { for (int i = 0; i < per; i++) { if (sim::chance(W, 1, 6)) do_flush(g, d); else put(g, d, t + round * 10, sim::draw(W, 3)); if (sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 500) * MS); } --*running; }));
    if (round == rounds) { if (!sim::block([=] { return *running == 0; }, in(600 * SEC))) sim::violate("no-progress", "a write or flush did not return"); uint64_t from = sim::step() + 1; { sim::User u; delete l; } settle(g, from, "after the log was destroyed", true); break; }
    sim::sleep_for(sim::draw(W, 3000) * MS + sim::draw(W, 1000) * US); int y = sim::draw(W, 6); while (y--) sim::yield();
    for (auto id : f) if (!sim::fiber_done(id)) sim::kill_fiber(id);
    sim::kill_user_fibers(); sim::close_all_fds(); g->manual++; sim::probe("died with an asynchronous log");
    for (auto &r : g->recs) if (r.open) { r.end = sim::step(); r.ok = false; r.open = false; r.f0 = ~0ull; }
    check(g, false, "after the process died");
  }
}
// the process-wide log behind the LOG_ macros
void run_clog() {
  Log *g = new Log; sim::default_schedule(); g->n = 100; g->max = 1ul << 30; g_small = false; g_secs = sim::draw(W, 3); sim::set_wall(sim::some_midnight() + 40000); uint32_t mask = sim::chance(W, 1, 2) ? 15 : sim::draw(W, 16); bool lines = sim::chance(W, 1, 2);
  if (sim::chance(W, 1, 3)) { sim::User u; CLog::log(CLog::LEVEL_ERROR, "x", 1, "%s", "#0# before init"); }
  { sim::User u; if (!CLog::init(g->base, g_secs, 1 << 20, g->max, g->n, false, mask, lines)) sim::violate("init-failed", "init returned false"); if (sim::chance(W, 1, 2)) CLog::init("logs/other", 1); }
  int nt = 1 + sim::draw(W, 4), per = 2 + sim::draw(W, 12); int *running = new int(nt); if (sim::chance(W, 1, 3)) other_dates(20);
  for (int t = 0; t < nt; t++) sim::spawn("writer", [=] { static const char *LV[] = {"", "DEBUG", "INFO", "WARN", "ERROR"};
    for (int i = 0; i < per; i++) {
      if (sim::chance(W, 1, 8)) { uint64_t from = sim::step(); { sim::User u; CLog::flush(); } settle(g, from, "after a flush returned", false); continue; }
      int lv = 1 + sim::draw(W, 4); std::string text; { char b[32]; snprintf(b, sizeof b, "#%d#", (int)g->recs.size() + 1); text = b; text += std::string(sim::draw(W, 10) ? sim::draw(W, 60) : sim::draw(W, 3000), 'q'); }
      Rec &r = begin(g, t, FMT, &text); char b[100]; snprintf(b, sizeof b, lines ? "[%s][file:f%d.cpp][line:%d] " : "[%s] ", LV[lv], t, i); r.pfx = b; std::string *x = new std::string(text), *fn = new std::string("f" + std::to_string(t) + ".cpp");
      { sim::User u; CLog::log(lv, fn->c_str(), i, "%s", x->c_str()); }
      end(r, (mask & lv) == (uint32_t)lv); if (sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 400) * MS); }
    --*running; });
  if (!sim::block([=] { return *running == 0; }, in(600 * SEC))) sim::violate("no-progress", "a call did not return");
  uint64_t from = sim::step() + 1; if (sim::chance(W, 1, 2)) { sim::User u; CLog::flush(); } else sim::sleep_for((ns_t)g_secs * SEC + 300 * MS); settle(g, from, "at the end", true);
  if (!sim::fs_list("logs/other").empty()) sim::violate("second-init", "a second init opened another log");
}
}
SCENARIO("C15", asynclog_threads, 3) { run(Opt{1 + (int)sim::draw(W, 4), false, false, false, false}); }
SCENARIO("C15", asynclog_days, 2) { run(Opt{1 + (int)sim::draw(W, 3), false, true, false, false}); }
SCENARIO("C15", asynclog_bad_disk, 3) { run(Opt{1 + (int)sim::draw(W, 3), true, sim::chance(W, 1, 4), false, false}); }
SCENARIO("C15", asynclog_crash, 2) { run_crash(); }
SCENARIO("C15", clog_macros, 2) { run_clog(); }
// the log of a process that ran for weeks with nothing to say
static void run_uptime() {
  Log *g = new Log; g->n = 3; g->max = 1000000; g_buf = 4000; g_small = true; g_secs = 1; g->chunk = g_buf; sim::run_limits(1ull << 34, 200);
  CAsyncLog *l; { sim::User u; l = new CAsyncLog; if (!l->init(g->base, g_secs, g->max, g->n, false, g_buf)) sim::violate("init-failed", "init returned false"); }
  Direct *d = new Direct; d->l = l;
  for (int k = 0; k < 2; k++) {
    put(g, d, 0, STR); uint64_t from = sim::step() + 1; sim::sleep_for((ns_t)(g_secs + 2) * SEC); settle(g, from, k ? "after weeks without lines" : "after the flush interval", true);
    if (!k) { ns_t days = 25; sim::sleep_for(days * 86400 * SEC); sim::probe("weeks_idle"); }
  }
  sim::User u; delete l;
}
SCENARIO("C15", asynclog_uptime, 0) { run_uptime(); }
