// Linearizability of a recorded history against a sequential model (Wing & Gong search with memoisation).
#ifndef WORK_LINEAR_H
#define WORK_LINEAR_H
#include "common.h"
#include <unordered_set>
namespace lin {
struct Op { int type; long arg, ret; uint64_t start, end; ns_t start_ns, end_ns, not_before; int who; };
static const uint64_t OPEN = ~0ull;
inline bool precedes(const Op &a, const Op &b) { return a.end != OPEN && (a.end < b.start || (b.not_before && a.end_ns < b.not_before)); }
// Model: bool apply(const Op &, State &) -> legal?; State copyable with hash(). Operations that never returned (end OPEN) may or may not have taken effect.
// returns 1 linearizable, 0 not, -1 search budget exhausted; *depth = longest prefix explained
template <class State, class Apply> int check(std::vector<Op> ops, State init, Apply apply, size_t budget = 400000, std::vector<int> *best = nullptr) {
  std::sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.start < b.start; });
  size_t n = ops.size(); std::vector<char> done(n, 0); std::unordered_set<uint64_t> seen; size_t nodes = 0; std::vector<int> stack;
  bool exhausted = false; size_t complete = 0; for (auto &o : ops) complete += o.end != OPEN;
  std::function<bool(State &, size_t)> rec = [&](State &st, size_t left) -> bool {
    if (!left) return true;
    if (++nodes > budget) { exhausted = true; return false; }
    uint64_t h = st.hash(); for (size_t i = 0; i < n; i++) h = h * 1099511628211ull + done[i] + 1;
    if (!seen.insert(h).second) return false;
    for (size_t i = 0; i < n; i++) {
      if (done[i]) continue;
      bool ok = true;
      for (size_t j = 0; j < n && ok; j++) if (!done[j] && j != i && precedes(ops[j], ops[i])) ok = false;
      if (!ok) continue;
      State s2 = st;
      if (!apply(ops[i], s2)) continue;
      done[i] = 1; stack.push_back(i);
      if (best && stack.size() > best->size()) *best = stack;
      if (rec(s2, left - (ops[i].end != OPEN))) return true;
      stack.pop_back(); done[i] = 0;
      if (exhausted) return false;
    }
    return false;
  };
  State s = init;
  bool r = rec(s, complete);
  return r ? 1 : exhausted ? -1 : 0;
}
}
#endif
