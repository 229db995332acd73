// C11: the blocking queue is one bounded FIFO.
#include "linear.h"
#include "CBlockQueue.h"
#include <functional>
using namespace lce;
namespace {
struct Item { uint32_t id, a, b, c; Item(uint32_t i = 0) : id(i), a(i * 3 + 1), b(~i), c(i ^ 0x5555) {} bool ok() const { return a == id * 3 + 1 && b == ~id && c == (id ^ 0x5555); } };
enum { PUSH, POP, TPOP, FRONT, BACK, SIZE, FULL, EMPTY, CLEAR };
const char *NAME[] = {"push", "pop", "timed pop", "front", "back", "size", "full", "empty", "clear"};
struct World { CBlockQueue<Item> *q; int cap; std::deque<lin::Op> ops; std::map<int, size_t> blocked; int running; uint32_t next; uint64_t progress; } *w;
struct St { std::deque<int> d; uint64_t hash() const { uint64_t h = d.size() + 7; for (int x : d) h = h * 1000003 + x; return h; } };
bool apply(const lin::Op &o, St &s) {
  switch (o.type) {
  case PUSH: if ((int)s.d.size() >= w->cap) return false; s.d.push_back(o.arg); return true;
  case POP: if (s.d.empty() || (o.end != lin::OPEN && s.d.front() != o.ret)) return false; s.d.pop_front(); return true;
  case TPOP: if (o.ret < 0) return s.d.empty(); if (s.d.empty() || s.d.front() != o.ret) return false; s.d.pop_front(); return true;
  case FRONT: return o.ret < 0 ? s.d.empty() : !s.d.empty() && s.d.front() == o.ret;
  case BACK: return o.ret < 0 ? s.d.empty() : !s.d.empty() && s.d.back() == o.ret;
  case SIZE: return o.ret == (long)s.d.size();
  case FULL: return o.ret == ((int)s.d.size() >= w->cap);
  case EMPTY: return o.ret == (long)s.d.empty();
  case CLEAR: s.d.clear(); return true;
  }
  return false;
}
void run_op(int type, int tmo, int who) {
  w->ops.push_back(lin::Op()); size_t i = w->ops.size() - 1; lin::Op &o = w->ops[i];
  o.type = type; o.arg = o.ret = -1; o.start = sim::step(); o.start_ns = sim::now(); o.end = lin::OPEN; o.end_ns = sim::FOREVER; o.not_before = 0; o.who = who;
  if (type == PUSH) o.arg = ++w->next;
  if (type == TPOP) o.arg = tmo;
  if (type == PUSH || type == POP) w->blocked[i] = i;
  long ret = -1; Item it; bool got = false;
  { sim::User u;
    switch (type) {
    case PUSH: { Item x(o.arg); ret = w->q->push(x); break; }
    case POP: got = w->q->pop(it); break;
    case TPOP: got = w->q->pop(it, tmo); break;
    case FRONT: got = w->q->front(it); break;
    case BACK: got = w->q->back(it); break;
    case SIZE: ret = w->q->size(); break;
    case FULL: ret = w->q->full(); break;
    case EMPTY: ret = w->q->empty(); break;
    case CLEAR: w->q->clear(); break;
    } }
  w->blocked.erase(i); w->progress++; sim::op_done();
  o.end = sim::step(); o.end_ns = sim::now();
  if (type == POP && !got) sim::violate("pop-failed", "an untimed pop returned failure");
  if (type == PUSH && !ret) sim::violate("push-failed", "a push returned failure");
  if (got) { if (!it.ok() || it.id == 0 || it.id > w->next) sim::violate("element-altered", "%s returned an element nobody pushed (%u)", NAME[type], it.id); ret = it.id; }
  o.ret = ret;
  ns_t took = o.end_ns - o.start_ns, t = (ns_t)(tmo < 0 ? 0 : tmo) * MS;
  if (type == TPOP && !got) {
    sim::probe("timed_out");
    if (took + 5 * US < t) sim::violate("timeout-early", "a pop with a timeout of %d ms found nothing and returned after %llu us", tmo, (unsigned long long)(took / US));
    o.not_before = o.start_ns + t - std::min<ns_t>(t, 5 * US);
  }
  if (type == TPOP && !sim::faults_fired(sim::FT_thread_stall) && took > t + 20 * MS) sim::violate("timeout-late", "a pop with a timeout of %d ms returned after %llu ms", tmo, (unsigned long long)(took / MS));
  if (type != PUSH && type != POP && type != TPOP && !sim::faults_fired(sim::FT_thread_stall) && took > 20 * MS) sim::violate("blocked", "%s took %llu ms", NAME[type], (unsigned long long)(took / MS));
}
bool settle(ns_t d) { uint64_t p = w->progress; return !sim::block([p] { return w->progress != p; }, in(d)); }
void check_stuck() {
  if (w->blocked.empty()) return;
  int n; UR(n = w->q->size());
  for (auto &b : w->blocked) {
    auto &o = w->ops[b.second];
    if (o.type == PUSH && n < w->cap) sim::violate("push-stuck", "a push is still blocked although the queue holds %d of %d elements", n, w->cap);
    if (o.type == POP && n > 0) sim::violate("pop-stuck", "a pop is still blocked although the queue holds %d elements", n);
  }
}
}
SCENARIO("C11", block_queue, 1) {
  w = new World(); sim::default_schedule(); sim::set_wall(sim::some_midnight() + 80000); sim::clock_jump((int64_t)sim::draw(W, 1000000) * 1000);
  if (sim::chance(W, 1, 2)) sim::fault_rate(sim::FT_cond_spurious, 1, 4);
  if (sim::chance(W, 1, 3)) sim::fault_rate(sim::FT_clock_align, 1, 2);
  if (sim::chance(W, 1, 6)) sim::fault_rate(sim::FT_thread_stall, 1, 100);
  w->cap = sim::pick(W, {4, 3, 2, 1}) + 1; if (sim::chance(W, 1, 6)) w->cap = 5 + sim::draw(W, 8);
  UR(w->q = new CBlockQueue<Item>(w->cap));
  int ms; UR(ms = w->q->max_size()); if (ms != w->cap) sim::violate("capacity", "max_size() is %d, configured %d", ms, w->cap);
  int nt = sim::range(W, 1, 5), total = 0; w->running = nt; bool clears = sim::chance(W, 1, 4), timed = sim::chance(W, 2, 3), obs = sim::chance(W, 1, 2);
  for (int t = 0; t < nt; t++) {
    int n = sim::range(W, 1, nt > 3 ? 6 : 9), role = sim::draw(W, 3); total += n;
    sim::spawn("user", [=] {
      for (int i = 0; i < n; i++) {
        int k = role == 0 ? sim::pick(W, {8, 1, 1}) : role == 1 ? sim::pick(W, {1, 6, 4}) : sim::pick(W, {4, 4, 2});
        if (k == TPOP && !timed) k = POP;
        if (obs && sim::chance(W, 1, 4)) k = FRONT + sim::draw(W, 5);
        if (clears && sim::chance(W, 1, 8)) k = CLEAR;
        int tmo = sim::pick(W, {3, 3, 2, 1}); tmo = tmo == 0 ? sim::draw(W, 20) : tmo == 1 ? sim::draw(W, 999) : tmo == 2 ? 1000 + sim::draw(W, 2500) : 0;
        run_op(k, tmo, t);
        if (sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 2) ? sim::draw(W, 5000) * US : sim::draw(W, 900) * MS);
      }
      w->running--; w->progress++;
    });
  }
  // until nothing moves, then offer what the blocked threads wait for, one element at a time
  int extra = 0;
  while (true) {
    while (!settle(6 * SEC)) ;
    check_stuck();
    if (!w->running) break;
    if (w->blocked.empty()) sim::violate("no-progress", "a thread is stuck outside the queue");
    int kind = w->ops[w->blocked.begin()->second].type; sim::probe(kind == PUSH ? "rescued_push" : "rescued_pop");
    if (++extra > 100) sim::violate("no-progress", "blocked operations do not complete");
    run_op(kind == PUSH ? (extra & 1 || !clears ? POP : CLEAR) : PUSH, 0, 99);
  }
  std::vector<lin::Op> h(w->ops.begin(), w->ops.end());
  // what is left in the end
  int n; UR(n = w->q->size()); while (n-- > 0) run_op(POP, 0, 98);
  run_op(EMPTY, 0, 98); h.assign(w->ops.begin(), w->ops.end());
  int r = lin::check(h, St(), apply, 200000);
  if (r == 0) {
    std::string s; for (auto &o : h) { char b[100]; snprintf(b, sizeof b, " [%llu-%llu t%d %s %ld->%ld]", (unsigned long long)o.start, (unsigned long long)o.end, o.who, NAME[o.type], o.arg, o.ret); s += b; }
    sim::violate("not-fifo", "no order of the operations explains the results on a FIFO of capacity %d:%s", w->cap, s.c_str());
  }
  if (r < 0) sim::inconclusive("history too wide");
  sim::state_mark(w->cap * 1000 + nt * 100 + std::min(extra, 9) * 10 + clears * 4 + timed * 2 + obs); uint64_t hs = 0; for (auto &o : h) hs = hs * 31 + o.type * 2 + (o.ret < 0); sim::state_mark(hs);
  UR(delete w->q);
}
