// C22: locks and conditions of CLock.h.
#include "common.h"
#include "CLock.h"
using namespace lce;
namespace {
struct Sec { int in, readers, writers; uint64_t entered; int64_t plain; } *sec;
uint64_t g_progress; int g_left;
void setup() { sim::default_schedule(); if (sim::chance(S, 1, 2)) sim::set_preempt(2 + sim::draw(S, 40)); if (sim::chance(W, 1, 6)) sim::fault_rate(sim::FT_thread_stall, 1, 200); if (sim::chance(W, 1, 2)) sim::fault_rate(sim::FT_cond_spurious, 1, 4); if (sim::chance(W, 1, 3)) sim::fault_rate(sim::FT_clock_align, 1, 2); sec = new Sec(); g_progress = 0; }
void pause_some() { if (sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 200) * US); }
void inside() { sim::User u; int64_t v = sec->plain; sec->entered++; { sim::Kern k; pause_some(); } sec->plain = v + 1; }
template <class L> void exclusive() {
  setup(); L *l; UR(l = new L); int nt = sim::range(W, 2, 5), per = sim::range(W, 1, 6); g_left = nt; int64_t *done = new int64_t(0); bool automatic = sim::chance(W, 1, 3);
  for (int t = 0; t < nt; t++) sim::spawn("user", [=] {
    for (int i = 0; i < per; i++) {
      bool got, is_try = sim::chance(W, 1, 4); uint64_t e0 = sec->entered; bool held0 = sec->in > 0; CAutoLock *a = nullptr;
      { sim::User u; if (is_try) got = l->tryLock(); else if (automatic) { a = new CAutoLock(*l); got = true; } else got = l->lock(); }
      if (!got && !is_try) sim::violate("lock-failed", "lock() returned false");
      if (!got) { sim::probe("try_failed"); if (!held0 && sec->in == 0 && sec->entered == e0 && sec->writers == 0) { /* the holder may be about to enter or leave */ } continue; }
      if (sec->in++) sim::violate("not-exclusive", "two threads are inside a section of the same lock"); sec->writers++;
      inside(); ++*done; sec->in--; sim::op_done();
      { sim::User u; if (a) delete a; else got = l->unlock(); } sec->writers--;
      if (!got) sim::violate("lock-failed", "unlock() returned false"); g_progress++; pause_some();
    }
    g_left--; g_progress++;
  });
  if (!sim::block([] { return g_left == 0; }, in(60 * SEC))) sim::violate("no-progress", "a thread waits for a lock that nobody holds");
  if (sec->plain != *done) sim::violate("not-exclusive", "%lld updates under the lock left %lld", (long long)*done, (long long)sec->plain);
  { bool got; UR(got = l->tryLock()); if (!got) sim::violate("not-released", "tryLock() fails with nobody holding the lock"); bool again; UR(again = l->tryLock()); if (again) sim::violate("not-exclusive", "tryLock() succeeded on a lock that is held"); UR(l->unlock()); }
  sim::state_mark(nt * 10 + per); sim::state_mark(1000 + sec->entered * 50 + nt); UR(delete l);
}
void rw() {
  setup(); CReadWriteLock *l; UR(l = new CReadWriteLock); int nt = sim::range(W, 2, 6), per = sim::range(W, 1, 5); g_left = nt; int64_t *done = new int64_t(0);
  for (int t = 0; t < nt; t++) sim::spawn("user", [=] {
    for (int i = 0; i < per; i++) {
      int op = sim::pick(W, {3, 3, 1, 1}); bool got; { sim::User u; got = op == 0 ? l->readLock() : op == 1 ? l->writeLock() : op == 2 ? l->tryReadLock() : l->tryWriteLock(); }
      if (!got && op < 2) sim::violate("lock-failed", "%s() returned false", op ? "writeLock" : "readLock");
      if (!got) { sim::probe("try_failed"); continue; }
      bool wr = op & 1; if (sec->writers || (wr && sec->readers)) sim::violate("not-exclusive", "a %s entered with %d writers and %d readers inside", wr ? "writer" : "reader", sec->writers, sec->readers);
      if (wr) { sec->writers++; inside(); ++*done; sec->writers--; } else { if (++sec->readers > 1) sim::probe("shared"); sim::state_mark(sec->readers); int64_t v; UR(v = sec->plain); pause_some(); int64_t v2; UR(v2 = sec->plain); if (v != v2) sim::violate("not-exclusive", "a writer changed data while a reader was inside"); sec->readers--; }
      sim::op_done(); { sim::User u; got = l->unlock(); } if (!got) sim::violate("lock-failed", "unlock() returned false"); g_progress++; pause_some();
    }
    g_left--; g_progress++;
  });
  if (!sim::block([] { return g_left == 0; }, in(60 * SEC))) sim::violate("no-progress", "a thread waits for a lock that nobody holds");
  if (sec->plain != *done) sim::violate("not-exclusive", "%lld updates under the lock left %lld", (long long)*done, (long long)sec->plain);
  bool r1, r2, w1; UR(r1 = l->tryReadLock(); r2 = l->tryReadLock(); w1 = l->tryWriteLock()); if (!r1 || !r2) sim::violate("not-shared", "two readers cannot be inside together"); if (w1) sim::violate("not-exclusive", "tryWriteLock() succeeded with readers inside"); UR(l->unlock(); l->unlock(); w1 = l->tryWriteLock(); r1 = l->tryReadLock()); if (!w1) sim::violate("not-released", "tryWriteLock() fails with nobody inside"); if (r1) sim::violate("not-exclusive", "tryReadLock() succeeded with a writer inside"); UR(l->unlock());
  sim::state_mark(nt * 10 + per + 1000); UR(delete l);
}
// a counter of tokens under a mutex and a condition
struct Cv { CMutex m; Condition c; int64_t tokens; Cv() : tokens(0) {} } *cv;
std::map<int, bool> waiting; uint64_t n_signalled, n_signals, n_woken; bool g_over; int g_waiters;
void cond() {
  setup(); sim::set_wall(sim::some_midnight() + 80000); sim::clock_jump((int64_t)sim::draw(W, 1000000) * 1000); sim::sleep_for(sim::draw(W, 1000000) * US); waiting.clear(); g_over = false;
  UR(cv = new Cv); int nw = sim::range(W, 1, 4), per = sim::range(W, 1, 4), ns = sim::range(W, 1, 3); bool timed = sim::chance(W, 2, 3), bc = sim::chance(W, 1, 3), jumps = false; g_left = nw; int *given = new int(0), *taken = new int(0), *signallers = new int(ns);
  bool stalls = sim::fault_enabled(sim::FT_thread_stall);
  for (int t = 0; t < nw; t++) sim::spawn("waiter", [=] {
    for (int i = 0; i < per; i++) {
      UR(cv->m.lock()); bool gave_up = false; ns_t end = 0; int tmo = 0; bool tm = timed && sim::chance(W, 1, 2);
      if (tm) { static const int edge[] = {0, 1, 999, 1000, 1001, 1999, 2000, 2001, 3000}; tmo = sim::pick(W, {2, 2, 1, 1}); tmo = tmo == 3 ? edge[sim::draw(W, 9)] : tmo == 0 ? sim::draw(W, 50) : tmo == 1 ? sim::draw(W, 1000) : sim::draw(W, 3000); end = sim::now() + tmo * MS; } bool first = true;
      while (true) {
        int64_t n; UR(n = cv->tokens); if (n > 0) break; if (gave_up) break;
        uint64_t sig0 = n_signalled; /* calls that had returned */ uint64_t sp0 = sim::faults_fired(sim::FT_cond_spurious); ns_t t0 = sim::now(); bool r; int left = tm ? (int)((end > t0 ? end - t0 : 0) / MS) : 0; if (first) left = tmo, first = false;
        waiting[sim::self()] = true;
        { sim::User u; r = tm ? cv->c.wait(cv->m, left) : cv->c.wait(cv->m); }
        waiting[sim::self()] = false; ns_t took = sim::now() - t0; sim::op_done(); g_progress++;
        if (!tm && !r) sim::violate("wait-failed", "an untimed wait returned failure");
        bool woken = n_signals != sig0 || sim::faults_fired(sim::FT_cond_spurious) != sp0;
        if (r && !woken) sim::violate("woken-untrue", "a wait returned success and nobody signalled the condition");
        if (tm && !r) { sim::probe("timed_out"); if (took + 5 * US < (ns_t)left * MS) sim::violate("timeout-early", "a wait of %d ms gave up after %llu us", left, (unsigned long long)(took / US)); gave_up = true; }
        if (tm && !stalls && !jumps && took > (ns_t)left * MS + 20 * MS) sim::violate("timeout-late", "a wait of %d ms returned after %llu ms", left, (unsigned long long)(took / MS));
      }
      int64_t n; UR(n = cv->tokens); if (n > 0) { UR(cv->tokens = n - 1); ++*taken; n_woken++; } else if (!tm) { /* over */ }
      UR(cv->m.unlock()); pause_some();
    }
    g_left--; g_progress++;
  });
  int total = nw * per; int share = total / ns + 1; int *quota = new int(total);
  for (int s = 0; s < ns; s++) sim::spawn("signaller", [=] {
    for (int i = 0; i < share && *quota > 0; i++) {
      if (sim::chance(W, 2, 3)) sim::sleep_for(sim::draw(W, 2) ? sim::draw(W, 900) * MS : sim::draw(W, 100) * US);
      if (jumps && sim::chance(W, 1, 4)) { int64_t d = (int64_t)sim::draw(W, 5000) * 1000000; if (sim::chance(W, 1, 2)) { sim::fault_count(sim::FT_clock_back); d = -d; } else sim::fault_count(sim::FT_clock_forward); sim::clock_jump(d); }
      if (*quota <= 0) break; bool all = bc || sim::chance(W, 1, 4); int k = all ? 1 + sim::draw(W, std::min(*quota, 4)) : 1; *quota -= k; *given += k;
      bool inner = sim::chance(W, 1, 2); UR(cv->m.lock()); UR(cv->tokens += k); if (!inner) UR(cv->m.unlock());
      n_signals++; bool ok; UR(ok = all ? cv->c.broadcast() : cv->c.signal()); n_signalled++; if (!ok) sim::violate("signal-failed", "a signal returned failure");
      if (inner) UR(cv->m.unlock());
      g_progress++; sim::op_done();
    }
    --*signallers; g_progress++;
  });
  if (!sim::block([=] { return *signallers == 0; }, in(120 * SEC))) sim::violate("no-progress", "a signalling thread is stuck");
  // every token was announced; waiters without a time limit take theirs, the rest give up: nobody may stay behind with tokens on offer
  ns_t lim = in(60 * SEC); sim::block([] { return g_left == 0; }, lim);
  if (g_left) { int64_t n = cv->tokens; int w = 0; for (auto &x : waiting) w += x.second; if (n > 0 && w > 0) sim::violate("wake-lost", "%d threads are waiting although %lld signals were not consumed", w, (long long)n); if (!w) sim::violate("no-progress", "a thread is stuck outside the wait"); }
  if (g_left == 0 && cv->tokens != *given - *taken) sim::violate("not-exclusive", "%d tokens given, %d taken, %lld left", *given, *taken, (long long)cv->tokens);
  sim::state_mark(nw * 1000 + per * 100 + ns * 10 + timed * 2 + bc); sim::state_mark(100000 + *taken * 50 + *given);
}
}
SCENARIO("C22", mutex, 1) { exclusive<CMutex>(); }
SCENARIO("C22", spin, 1) { exclusive<CSpinLock>(); }
SCENARIO("C22", read_write, 1) { rw(); }
SCENARIO("C22", condition, 2) { cond(); }
