// C12: the lock-free ring between one producer and one consumer.
#include "common.h"
#include <stdint.h>
#include "CCircleQueue.h"
using namespace lce;
namespace {
struct Item { uint32_t id, a, b, c; Item(uint32_t i = 0) : id(i), a(i * 3 + 1), b(~i), c(i ^ 0x5555) {} bool ok() const { return a == id * 3 + 1 && b == ~id && c == (id ^ 0x5555); } };
inline uint32_t id_of(const Item &i) { if (!i.ok()) sim::violate("element-altered", "an element was delivered torn or altered"); return i.id; }
inline uint32_t id_of(const std::string &s) { uint32_t id = atoi(s.c_str()); char b[16]; snprintf(b, sizeof b, "%u-", id); std::string e = b; e.resize(40 + id % 50, 'z'); if (s != e) sim::violate("element-altered", "an element was delivered torn or altered"); return id; }
inline void make(Item &x, uint32_t i) { x = Item(i); }
inline void make(std::string &s, uint32_t i) { char b[16]; snprintf(b, sizeof b, "%u-", i); s = b; s.resize(40 + i % 50, 'z'); }
struct World { long cap; long ins_started, ins, rem_started, rem; uint32_t last; bool producer_done; } *w;
template <class T> void run() {
  w = new World(); sim::default_schedule();
  if (sim::chance(S, 3, 4)) sim::set_preempt(2 + sim::draw(S, 24));
  if (sim::chance(W, 1, 6)) sim::fault_rate(sim::FT_thread_stall, 1, 200);
  w->cap = 1 + sim::pick(W, {4, 3, 2, 1}); if (sim::chance(W, 1, 5)) w->cap = 5 + sim::draw(W, 40);
  bool deflt = sim::chance(W, 1, 60); if (deflt) w->cap = 1000;
  CCircleQueue<T> *q; UR(q = new CCircleQueue<T>; q->init(deflt ? 0 : w->cap));
  int total = deflt ? 1000 + sim::draw(W, 60) : sim::range(W, 1, 60), pace_p = sim::draw(W, 3), pace_c = sim::draw(W, 3), burst = 1 + sim::draw(W, (uint32_t)w->cap + 2);
  uint64_t obs = sim::draw(W, 3), hs = w->cap * 131 + pace_p * 7 + pace_c;
  sim::spawn("producer", [=] {
    int fails = 0;
    for (int i = 1; i <= total;) {
      long rem0 = w->rem; bool ok; w->ins_started++;
      { sim::User u; T x; make(x, i); ok = q->enque(x); }
      long rs = w->rem_started;
      if (ok) { w->ins++; i++; fails = 0; if (w->ins - rs > w->cap) sim::violate("overfull", "the queue holds at least %ld elements, its capacity is %ld", w->ins - rs, w->cap); }
      else { w->ins_started--; sim::probe("full"); if (w->ins - rem0 < w->cap) sim::violate("refused-early", "an insertion failed with at most %ld of %ld elements stored", w->ins - rem0, w->cap); if (++fails > 3 || sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 40) * US); }
      if (obs == 1 && sim::chance(W, 1, 4)) { long r0 = w->rem; bool f; UR(f = q->full()); if (f && w->ins - r0 < w->cap) sim::violate("full-untrue", "full() with at most %ld of %ld elements stored", w->ins - r0, w->cap); if (!f && w->ins - w->rem_started >= w->cap) sim::violate("full-untrue", "not full() with %ld elements of %ld stored", w->ins - w->rem_started, w->cap); }
      sim::op_done();
      if (pace_p == 1 ? (i % burst) == 0 : pace_p == 2 && sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 100) * US);
    }
    w->producer_done = true;
  });
  sim::Fid c = sim::spawn("consumer", [=] {
    int fails = 0; long held = 0;
    while (true) {
      bool last = w->producer_done; long ins0 = w->ins; bool ok; T x; make(x, 0); w->rem_started++;
      { sim::User u; ok = q->deque(x); }
      if (ok) {
        w->rem++; fails = 0; uint32_t id = id_of(x);
        if (id != w->last + 1) sim::violate(id <= w->last ? "delivered-twice" : "lost", "element %u was delivered after element %u", id, w->last);
        w->last = id; if (id > (uint32_t)w->ins_started) sim::violate("invented", "element %u was delivered before it was inserted", id);
        held = w->ins - w->rem; sim::state_mark(w->cap * 100 + held);
      } else {
        w->rem_started--; sim::probe("empty"); if (ins0 - w->rem > 0) sim::violate("empty-untrue", "a removal failed with at least %ld elements stored", ins0 - w->rem);
        if (last) break;
        if (++fails > 3 || sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 40) * US);
      }
      if (obs == 2 && sim::chance(W, 1, 4)) { long i0 = w->ins; bool e; UR(e = q->empty()); if (e && i0 - w->rem > 0) sim::violate("empty-untrue", "empty() with %ld elements stored", i0 - w->rem); if (!e && w->ins_started - w->rem <= 0) sim::violate("empty-untrue", "not empty() with nothing stored"); }
      sim::op_done();
      if (pace_c == 1 ? (w->rem % burst) == 0 : pace_c == 2 && sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 100) * US);
    }
  });
  if (!sim::block([c] { return sim::fiber_done(c); }, in(600 * SEC))) sim::violate("no-progress", "the consumer did not obtain every element: %ld of %d", w->rem, total);
  if (w->rem != total) sim::violate("lost", "%ld of %d elements were delivered", w->rem, total);
  sim::state_mark(hs * 1009 + total);
  UR(delete q);
}
}
SCENARIO("C12", ring_words, 2) { run<Item>(); }
SCENARIO("C12", ring_objects, 1) { run<std::string>(); }
