// Simulator internals shared by core, kernel and wrappers.
#ifndef LCE_SIMK_H
#define LCE_SIMK_H
#include "sim.h"
#include <signal.h>
#include <setjmp.h>
#include <string.h>
#include <errno.h>
#include <unordered_map>

namespace sim {

enum { KERNEL = 0, USER = 1 };
extern volatile int g_mode;        // mode of the running fiber
extern bool g_active;              // inside a run
extern bool g_sig_pending; void deliver_signals(); void sig_arm();
extern int64_t g_count;            // accesses until the next preemption check
extern ns_t g_now;
extern int64_t g_wall_off;         // wall = now + off (ns)
extern uint64_t g_accesses, g_switches, g_syscalls;

struct Fiber {
  int id; std::string name;
  char *stack; size_t stack_size; void *sp;
  int mode; int saved_errno; std::vector<char> tls;
  bool user_thread, done, ready, timed_out, woke;
  std::function<bool()> pred; ns_t deadline;
  std::function<void()> fn;
  void *(*start)(void *); void *arg; void *ret; bool detached, joined;
  bool cancel_req, cancel_enabled, canceling; bool in_cancel_point;
  uint64_t sigmask; uint32_t prio;
  uint64_t run_accesses;           // accesses since it was last scheduled
  uint32_t run_syscalls;           // scheduling points since then at which others were ready
  int in_call;                     // inside a system or library call made by the code under test
  bool dead;                       // removed by a simulated crash
  std::map<unsigned, void *> tsd;
  char ntoa[32]; struct tm *tmbuf;
  std::vector<std::pair<void (*)(void *), void *>> cleanup;
};
extern Fiber *g_cur;
extern std::vector<Fiber *> g_fibers;
Fiber *new_fiber(const char *name, bool user_thread);
void schedule();                   // give up the processor (state already set)
void sched_point(const char *what);// maybe switch
void cancel_point();
[[noreturn]] void fiber_exit();
void tick(ns_t d);
void reeval();

// shared-memory result
static const uint32_t MAXCH = 1u << 20; // recorded choices per stream
struct Result {
  int status; // 0 ok 1 violation 2 inconclusive 3 internal
  char cls[96]; char msg[3000]; char where[2000];
  uint64_t faults[128]; ns_t sim_ns; uint64_t accesses, switches, syscalls, hash, ops, preempts, fibers;
  uint32_t nprobe; struct { char name[40]; uint64_t n; } probes[128];
  uint32_t nstate; uint64_t states[2048];
  uint32_t nch[NSTREAM]; // recorded choices
  uint32_t ch[NSTREAM][MAXCH];
  uint32_t chdropped;
};
extern Result *g_res;
void begin_run(uint64_t seed, bool replay, const uint32_t *const *streams, const uint32_t *lengths, const char *tracefile);
void end_run();
int run_scenario(const Scenario &s);
const std::vector<Scenario> &scenarios();
const char *fault_name(int f);

// heap
void heap_init();
void *h_alloc(size_t n, size_t align, int kind);
void h_free(void *p, int kind);
size_t h_size(void *p);
void h_check(const void *p, size_t n, bool write);
static const uintptr_t ARENA = 0x200000000000ull, ARENA_SZ = 0x200000000ull; // 8 GB
static inline bool in_arena(const void *p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
void h_map_region(void *p, size_t n, bool valid); // mark externally provided memory inside the arena
void *h_reserve(size_t n); // page aligned address range in the arena, not valid yet

void reset_libc_state();
}
#endif
