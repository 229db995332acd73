// C21: the singleton under competing first calls.
#include "common.h"
#include "CSingleton.h"
using namespace lce;
namespace {
int g_built, g_destroyed; int g_pause;
template <int N> struct Obj {
  int64_t a; char *mem; int64_t b; std::string s;
  Obj() : a(0), mem(nullptr), b(0) {
    bool p; { sim::Kern k; g_built++; p = g_pause > 0; if (g_built > 1) sim::violate("constructed-twice", "the object was constructed %d times", g_built); }
    a = 1; if (p) { sim::Kern k; sim::sleep_for(g_pause * US); }
    mem = new char[100]; for (int i = 0; i < 100; i++) mem[i] = (char)(i + 1);
    s = "a string long enough to be on the heap, for sure"; b = 2; a = 3;
  }
  ~Obj() { delete[] mem; }
  int use() { bool bad = a != 3 || b != 2 || !mem || s.size() != 48; if (!bad) for (int i = 0; i < 100; i++) bad |= mem[i] != (char)(i + 1); return bad; }
};
template <int N> void run() {
  g_built = 0; sim::default_schedule(); if (sim::chance(S, 3, 4)) sim::set_preempt(2 + sim::draw(S, 30)); if (sim::chance(W, 1, 6)) sim::fault_rate(sim::FT_thread_stall, 1, 100);
  g_pause = sim::chance(W, 1, 2) ? sim::draw(W, 100) : 0; int nt = sim::range(W, 2, 8); void **first = new void *(nullptr); int *left = new int(nt);
  for (int t = 0; t < nt; t++) sim::spawn("user", [=] {
    if (sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 120) * US);
    for (int i = 0; i < 1 + (t & 1); i++) {
      Obj<N> *o; int bad; { sim::User u; o = &CSingleton<Obj<N> >::getInstance(); bad = o->use(); }
      if (bad) sim::violate("not-constructed", "a caller received the object before its construction had finished");
      if (*first && *first != o) sim::violate("two-objects", "two callers received different objects");
      *first = o; sim::op_done();
    }
    --*left;
  });
  if (!sim::block([left] { return *left == 0; }, in(60 * SEC))) sim::violate("no-progress", "a first call did not return");
  if (g_built != 1) sim::violate("constructed-twice", "the object was constructed %d times", g_built);
  sim::state_mark(nt * 100 + g_pause);
}
}
SCENARIO("C21", first_calls, 1) { run<1>(); }
