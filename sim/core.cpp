// Choices, fibers, scheduler, simulated heap, __tsan_* runtime.
#include "simk.h"
#include <sys/time.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <link.h>
#include <execinfo.h>
#include <algorithm>
#include <unwind.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>

namespace sim {
volatile int g_mode = KERNEL;
bool g_active = false;
int64_t g_count = INT64_MAX;
ns_t g_now = 0;
int64_t g_wall_off = 0;
static uint64_t g_moves; static ns_t g_moved_at;
uint64_t g_accesses = 0, g_switches = 0, g_syscalls = 0;
Fiber *g_cur = nullptr;
std::vector<Fiber *> g_fibers;
Result *g_res = nullptr;
static FILE *g_trace = nullptr;
static uint64_t g_hash = 1469598103934665603ull;
static uint64_t g_step = 0;
static int64_t g_count_loaded = 0;
static uint32_t g_preempt_mean = 0;
static uint32_t g_sync_den = 4;     // a synchronisation point switches with 1/den
static uint64_t g_run_limit = 40000000, g_total_limit = 500000000;

User::User() { saved = g_mode; g_mode = USER; }
User::~User() { g_mode = saved; }
Kern::Kern() { saved = g_mode; g_mode = KERNEL; }
Kern::~Kern() { g_mode = saved; }

// ------------------------------------------------------------------ choices
static uint64_t g_rng[NSTREAM];
static const uint32_t *g_replay[NSTREAM]; static uint32_t g_replay_n[NSTREAM];
static size_t g_pos[NSTREAM];
static bool g_replaying = false;
static inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void record(Stream s, uint32_t v) {
  uint32_t &n = g_res->nch[s];
  if (n < MAXCH) g_res->ch[s][n++] = v; else g_res->chdropped = 1;
}
static inline bool replay_next(Stream s, uint32_t &v) {
  if (!g_replaying) return false;
  if (g_pos[s] < g_replay_n[s]) v = g_replay[s][g_pos[s]++]; else v = 0;
  return true;
}
uint32_t draw(Stream s, uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (replay_next(s, v)) { if (v >= n) v = n - 1; }
  else v = splitmix(g_rng[s]) % n;
  record(s, v);
  return v;
}
static uint32_t draw_gen(Stream s, uint32_t n, uint32_t (*gen)(uint64_t, uint32_t), uint32_t arg) {
  uint32_t v;
  if (replay_next(s, v)) { if (v >= n) v = n - 1; }
  else v = gen(splitmix(g_rng[s]), arg);
  record(s, v);
  return v;
}
uint32_t pick(Stream s, std::initializer_list<int> w) {
  int tot = 0; for (int x : w) tot += x;
  uint32_t v;
  if (replay_next(s, v)) { if (v >= w.size()) v = w.size() - 1; }
  else {
    int r = splitmix(g_rng[s]) % tot; v = 0;
    for (int x : w) { if (r < x) break; r -= x; v++; }
  }
  record(s, v);
  return v;
}
bool chance(Stream s, uint32_t num, uint32_t den) {
  if (num == 0) return false;
  uint32_t v;
  if (replay_next(s, v)) v = v ? 1 : 0;
  else v = (splitmix(g_rng[s]) % den) < num;
  record(s, v);
  return v;
}

// ------------------------------------------------------------------ faults
static const char *k_fault_names[] = {
#define X(n) #n,
  SIM_FAULTS(X)
#undef X
};
const char *fault_name(int f) { return k_fault_names[f]; }
static struct { uint32_t num, den; } g_rate[NFAULT];
static bool g_faults_off = false;
void fault_rate(Fault f, uint32_t num, uint32_t den) { g_rate[f].num = num; g_rate[f].den = den; }
void fault_swarm(std::initializer_list<Fault> fs, uint32_t den_hi) {
  Kern k;
  for (Fault f : fs) {
    switch (pick(W, {4, 3, 3})) {
    case 0: g_rate[f].num = 0; g_rate[f].den = 1; break;
    case 1: g_rate[f].num = 1; g_rate[f].den = den_hi * 6; break;
    default: g_rate[f].num = 1; g_rate[f].den = den_hi; break;
    }
  }
}
bool fault_enabled(Fault f) { return !g_faults_off && g_rate[f].num; }
bool fault(Fault f) {
  if (g_faults_off || !g_rate[f].num) return false;
  if (!chance(F, g_rate[f].num, g_rate[f].den)) return false;
  g_res->faults[f]++;
  ev("fault %s", k_fault_names[f]);
  return true;
}
void fault_count(Fault f) { g_res->faults[f]++; }
uint64_t faults_fired(Fault f) { return g_res->faults[f]; }
void faults_off() { g_faults_off = true; ev("faults off"); }

// ------------------------------------------------------------------ events
static inline void mix(uint64_t v) { g_hash = (g_hash ^ v) * 1099511628211ull; g_hash ^= g_hash >> 29; }
uint64_t trace_hash() { return g_hash; }
void ev(const char *fmt, ...) {
  Kern k;
  char b[400];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  g_step++;
  for (int i = 0; i < n; i++) g_hash = (g_hash ^ (unsigned char)b[i]) * 1099511628211ull;
  mix(g_cur ? g_cur->id : 0); mix(g_now);
  if (g_trace) { fprintf(g_trace, "%8llu %12.6f %-10s %s\n", (unsigned long long)g_step, g_now / 1e9, g_cur ? g_cur->name.c_str() : "-", b); fflush(g_trace); }
}
void state_mark(uint64_t h) { if (g_res->nstate < 2048) g_res->states[g_res->nstate++] = h; }
void op_done(uint64_t n) { g_res->ops += n; }
void probe(const char *name) {
  for (uint32_t i = 0; i < g_res->nprobe; i++) if (!strcmp(g_res->probes[i].name, name)) { g_res->probes[i].n++; return; }
  if (g_res->nprobe < 128) { auto &p = g_res->probes[g_res->nprobe++]; snprintf(p.name, sizeof p.name, "%s", name); p.n = 1; }
}

// ------------------------------------------------------------------ verdicts
static void finish(int status) {
  g_active = false; g_mode = KERNEL;
  g_res->status = status; g_res->sim_ns = g_now; g_res->accesses = g_accesses; g_res->switches = g_switches;
  g_res->syscalls = g_syscalls; g_res->hash = g_hash; g_res->fibers = g_fibers.size();
  if (g_trace) fflush(g_trace);
}
static void add_where(char *out, size_t cap) {
  void *bt[24]; 
  g_active = false; g_mode = KERNEL;
  int n = backtrace(bt, 24); size_t o = 0;
  for (int i = 0; i < n && o + 24 < cap; i++) o += snprintf(out + o, cap - o, "%p ", bt[i]);
}
void violate(const char *cls, const char *fmt, ...) {
  g_mode = KERNEL;
  va_list ap; va_start(ap, fmt); vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap); va_end(ap);
  snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
  ev("VIOLATION %s: %s", cls, g_res->msg);
  finish(1);
  add_where(g_res->where, sizeof g_res->where);
  _exit(0);
}
void inconclusive(const char *why) {
  g_mode = KERNEL; snprintf(g_res->cls, sizeof g_res->cls, "%s", why); finish(2); _exit(0);
}
void internal_error(const char *fmt, ...) {
  g_mode = KERNEL;
  va_list ap; va_start(ap, fmt); vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap); va_end(ap);
  snprintf(g_res->cls, sizeof g_res->cls, "internal"); finish(3); add_where(g_res->where, sizeof g_res->where); _exit(0);
}
static void on_crash(int sig, siginfo_t *si, void *) {
  if (!g_res) _exit(99);
  int mode = g_mode; bool act = g_active;
  char cls[64]; snprintf(cls, sizeof cls, "crash-%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGALRM || sig == SIGVTALRM ? "hang-wallclock" : "SIGILL");
  if (g_res->status == -1 && !g_res->msg[0]) snprintf(g_res->msg, sizeof g_res->msg, "signal %d at address %p in thread %s", sig, si ? si->si_addr : nullptr, g_cur ? g_cur->name.c_str() : "-");
  snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
  // a crash in harness mode is an error of the machinery, unless a call was handed a wild pointer by the code under test
  finish(act && (mode == USER || (g_cur && g_cur->in_call > 0)) ? 1 : 3);
  add_where(g_res->where, sizeof g_res->where);
  _exit(0);
}
static void on_terminate() {
  const char *what = "unknown";
  char buf[300];
  if (std::type_info *t = abi::__cxa_current_exception_type()) {
    int st; char *d = abi::__cxa_demangle(t->name(), 0, 0, &st);
    snprintf(buf, sizeof buf, "%s", d ? d : t->name()); what = buf;
    try { throw; } catch (const std::exception &e) { snprintf(buf + strlen(buf), sizeof buf - strlen(buf), ": %s", e.what()); } catch (...) {}
  }
  snprintf(g_res->msg, sizeof g_res->msg, "process terminated by an uncaught exception (%s) in thread %s", what, g_cur ? g_cur->name.c_str() : "-");
  abort();
}

// ------------------------------------------------------------------ heap
static uint8_t *const SHADOW = (uint8_t *)0x300000000000ull; // 1 byte per 8: 0..8 valid bytes; 0xF0 redzone 0xFD freed
static uintptr_t g_brk;
static uint8_t g_fill = 0xBE;
struct Alloc { uintptr_t p; uint32_t size_lo; uint32_t kind_freed; uint64_t size; void *site[4]; };
static std::vector<Alloc> *g_allocs;
static uint64_t g_live, g_live_bytes;
void heap_init() {
  if (mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void *)ARENA) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
  if (mmap(SHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void *)SHADOW) { fprintf(stderr, "shadow mmap failed\n"); _exit(3); }
  g_brk = ARENA + 4096;
  g_allocs = new std::vector<Alloc>;
}
static inline uint8_t &shad(uintptr_t p) { return SHADOW[(p - ARENA) >> 3]; }
bool heap_owns(const void *p) { return in_arena(p); }
void heap_fill(uint8_t b) { g_fill = b; }
uint64_t heap_mark() { return g_allocs->size(); }
uint64_t heap_live() { return g_live; }
uint64_t heap_live_big(uint64_t mark, uint64_t min_size, std::string *desc) {
  uint64_t n = 0; char b[160];
  for (size_t i = mark; i < g_allocs->size(); i++) { Alloc &a = (*g_allocs)[i]; if ((a.kind_freed & 1) || a.size < min_size) continue;
    if (desc && n < 6) { snprintf(b, sizeof b, "[%llu bytes from %p %p %p]", (unsigned long long)a.size, a.site[0], a.site[1], a.site[2]); *desc += b; }
    n++; }
  return n;
}
uint64_t heap_live_since(uint64_t mark, uint64_t *bytes) {
  uint64_t n = 0, b = 0;
  for (size_t i = mark; i < g_allocs->size(); i++) if (!((*g_allocs)[i].kind_freed & 1)) { n++; b += (*g_allocs)[i].size; }
  if (bytes) *bytes = b;
  return n;
}
std::string heap_describe_live(uint64_t mark, int max) {
  std::string s; char b[200];
  for (size_t i = mark; i < g_allocs->size() && max > 0; i++) { Alloc &a = (*g_allocs)[i]; if (a.kind_freed & 1) continue;
    snprintf(b, sizeof b, "[%llu bytes from %p %p %p]", (unsigned long long)a.size, a.site[0], a.site[1], a.site[2]); s += b; max--; }
  return s;
}
static Alloc *find_alloc(uintptr_t p) {
  auto &v = *g_allocs; size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].p <= p) lo = m + 1; else hi = m; }
  return lo ? &v[lo - 1] : nullptr;
}
static void get_site(void **site) {
  // frame pointers: repo code is built with -fno-omit-frame-pointer; libstdc++ frames may be skipped
  for (int i = 0; i < 4; i++) site[i] = nullptr;
  void **fp = (void **)__builtin_frame_address(0);
  if (!g_cur) return;
  uintptr_t lo = (uintptr_t)g_cur->stack, hi = lo + g_cur->stack_size;
  for (int i = 0; i < 6; i++) {
    if ((uintptr_t)fp < lo || (uintptr_t)fp + 16 > hi || ((uintptr_t)fp & 7)) break;
    if (i >= 2) site[i - 2] = fp[1];
    void **nx = (void **)fp[0]; if (nx <= fp) break; fp = nx;
  }
}
void *h_alloc(size_t n, size_t align, int kind) {
  if (align < 16) align = 16;
  uintptr_t p = (g_brk + 16 + align - 1) & ~(uintptr_t)(align - 1);
  if (n > ARENA_SZ / 2 || p + n + 32 > ARENA + ARENA_SZ) { return nullptr; }
  uintptr_t end = p + n;
  g_brk = ((end + 15) & ~15ull) + 16;
  for (uintptr_t q = p & ~7ull; q < (end & ~7ull); ) { size_t k = ((end & ~7ull) - q) >> 3; memset(&shad(q), 8, k); break; }
  if (end & 7) shad(end) = end & 7; 
  // redzones: bytes with shadow 0 are invalid
  if (n) memset((void *)p, g_fill, n);
  Alloc a; a.p = p; a.size = n; a.size_lo = 0; a.kind_freed = kind << 1; get_site(a.site);
  g_allocs->push_back(a);
  g_live++; g_live_bytes += n;
  return (void *)p;
}
size_t h_size(void *p) { Alloc *a = find_alloc((uintptr_t)p); return a && a->p == (uintptr_t)p ? a->size : 0; }
void h_free(void *p, int kind) {
  Alloc *a = find_alloc((uintptr_t)p);
  if (!a || a->p != (uintptr_t)p) violate("memory-bad-free", "free of %p which is not the start of an allocation, thread %s", p, g_cur->name.c_str());
  if (a->kind_freed & 1) violate("memory-double-free", "double free of a %llu byte block allocated at %p %p %p, thread %s", (unsigned long long)a->size, a->site[0], a->site[1], a->site[2], g_cur->name.c_str());
  a->kind_freed |= 1;
  g_live--; g_live_bytes -= a->size;
  uintptr_t e = (a->p + a->size + 7) & ~7ull;
  memset(&shad(a->p), 0xFD, (e - a->p) >> 3);
  if (a->size >= (1 << 20)) madvise((void *)((a->p + 4095) & ~4095ull), (a->size & ~4095ull) - 4096, MADV_DONTNEED);
  else memset((void *)a->p, 0xDD, a->size);
}
void *h_reserve(size_t n) { uintptr_t p = (g_brk + 8192) & ~4095ull; g_brk = p + ((n + 4095) & ~4095ull) + 8192; return (void *)p; }
void h_map_region(void *p, size_t n, bool valid) {
  uintptr_t b = (uintptr_t)p, e = b + n;
  memset(&shad(b), valid ? 8 : 0xFD, (e - b) >> 3);
  if (e & 7) shad(e) = valid ? (e & 7) : 0xFD;
}
static __attribute__((noinline)) void h_bad(const void *p, size_t n, bool write, uintptr_t at) {
  g_mode = KERNEL;
  uint8_t s = shad(at);
  Alloc *a = find_alloc(at);
  if (s == 0xFD && a) violate("memory-use-after-free", "%s of %zu bytes at %p, inside a freed %llu byte block (offset %lld) allocated at %p %p %p, thread %s", write ? "write" : "read", n, p, (unsigned long long)a->size, (long long)((intptr_t)at - (intptr_t)a->p), a->site[0], a->site[1], a->site[2], g_cur->name.c_str());
  violate("memory-out-of-bounds", "%s of %zu bytes at %p, %lld bytes into a %llu byte block allocated at %p %p %p, thread %s", write ? "write" : "read", n, p, a ? (long long)((intptr_t)at - (intptr_t)a->p) : 0, a ? (unsigned long long)a->size : 0, a ? a->site[0] : 0, a ? a->site[1] : 0, a ? a->site[2] : 0, g_cur->name.c_str());
}
static inline void h_check_in(const void *pp, size_t n, bool write) {
  uintptr_t p = (uintptr_t)pp;
  if (p - ARENA >= ARENA_SZ || n == 0) return;
  uintptr_t e = p + n;
  uintptr_t q = p;
  // first granule
  while (q < e) {
    uintptr_t g = q & ~7ull; uint8_t s = shad(g);
    uintptr_t need = (e - g >= 8) ? 8 : (e - g);
    if (s > 8 || s < need) { // partial granule: bytes [g, g+s) valid
      uintptr_t at = (s > 8 || g + s < q) ? q : g + s;
      h_bad(pp, n, write, at);
    }
    q = g + 8;
  }
}
void h_check(const void *p, size_t n, bool write) { if (g_mode == USER && g_active) h_check_in(p, n, write); }

// ------------------------------------------------------------------ fibers
extern "C" void sim_switch(void **from, void *to);
__asm__(
".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" subq $8,%rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" ldmxcsr (%rsp)\n fldcw 4(%rsp)\n addq $8,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
".size sim_switch,.-sim_switch\n");
static void *g_main_sp;
static char *g_tls_base; static size_t g_tls_size; static std::vector<char> g_tls_init; static std::vector<char> g_main_tls;
static int tls_cb(struct dl_phdr_info *i, size_t, void *) {
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
    auto &ph = i->dlpi_phdr[k];
    size_t al = ph.p_align ? ph.p_align : 1;
    g_tls_size = (ph.p_memsz + al - 1) & ~(al - 1);
    g_tls_base = (char *)__builtin_thread_pointer() - g_tls_size;
    g_tls_init.assign(g_tls_size, 0);
    memcpy(&g_tls_init[0], (void *)(i->dlpi_addr + ph.p_vaddr), ph.p_filesz);
  }
  return 1; // main program only
}
static void fiber_main();
static const size_t STACK = 1 << 20;
static uintptr_t g_stack_next = 0x100000000000ull;
static void *alloc_stack(size_t sz) {
  void *want = (void *)g_stack_next; g_stack_next += sz + 65536;
  void *p = mmap(want, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p != want) _exit(97);
  return p;
}
Fiber *new_fiber(const char *name, bool user_thread) {
  Fiber *f = new Fiber();
  f->id = g_fibers.size(); f->name = name; f->stack_size = STACK; f->stack = (char *)alloc_stack(STACK);
  f->mode = user_thread ? USER : KERNEL; f->user_thread = user_thread; f->saved_errno = 0;
  f->tls = g_tls_init; f->done = false; f->ready = true; f->deadline = FOREVER; f->cancel_enabled = true;
  f->sigmask = g_cur ? g_cur->sigmask : 0; f->prio = 0; f->run_accesses = 0; f->run_syscalls = 0; f->tmbuf = nullptr;
  uintptr_t top = ((uintptr_t)f->stack + STACK) & ~63ull;
  void **s = (void **)top;
  *--s = nullptr; *--s = nullptr; *--s = nullptr; // fake return address; entry with rsp = 8 mod 16
  *--s = (void *)fiber_main;
  for (int i = 0; i < 6; i++) *--s = nullptr;
  uint32_t *fp = (uint32_t *)(--s); fp[0] = 0x1f80; fp[1] = 0x037f;
  f->sp = s;
  g_fibers.push_back(f);
  return f;
}
static void switch_to(Fiber *to) {
  Fiber *from = g_cur;
  if (from == to) return;
  if (from) { from->mode = g_mode; from->saved_errno = errno; if (g_tls_size) memcpy(&from->tls[0], g_tls_base, g_tls_size); }
  g_cur = to; g_switches++;
  if (g_tls_size) memcpy(g_tls_base, &to->tls[0], g_tls_size);
  errno = to->saved_errno; g_mode = to->mode;
  to->run_accesses = 0; to->run_syscalls = 0;
  sim_switch(from ? &from->sp : &g_main_sp, to->sp);
}
static void fiber_main() {
  {
    Fiber *f = g_cur;
    if (f->start) { f->mode = USER; g_mode = USER; f->ret = f->start(f->arg); g_mode = KERNEL; }
    else f->fn();
  }
  fiber_exit();
}
void run_tsd_dtors(Fiber *f);
void fiber_exit() {
  g_mode = KERNEL;
  g_cur->done = true; g_cur->ready = false; g_cur->pred = nullptr;
  ev("thread %s ends", g_cur->name.c_str());
  schedule();
  _exit(96);
}
Fid spawn(const char *name, const std::function<void()> &fn) {
  Kern k; Fiber *f = new_fiber(name, false); f->fn = fn; ev("spawn %s", name); return f->id;
}
bool fiber_done(Fid f) { return g_fibers[f]->done || g_fibers[f]->dead; }
bool fiber_blocked(Fid f) { return !g_fibers[f]->done && !g_fibers[f]->ready; }
int fiber_count() { return g_fibers.size(); }
Fid self() { return g_cur->id; }
const char *fiber_name() { return g_cur->name.c_str(); }
void kill_user_fibers() {
  for (auto *f : g_fibers) if (f->user_thread && !f->done) { f->dead = true; f->ready = false; f->pred = nullptr; f->done = true; }
  ev("process crash: user threads gone");
}
void kill_fiber(Fid id) {
  if (id == self()) internal_error("a fiber cannot kill itself");
  Fiber *f = g_fibers[id]; if (!f->done) { f->dead = true; f->ready = false; f->pred = nullptr; f->done = true; fault_count(FT_proc_crash); ev("fiber %d killed", id); }
}
int user_fibers_alive() { int n = 0; for (auto *f : g_fibers) if (f->user_thread && !f->done) n++; return n; }
int threads_unreleased() { int n = 0; for (auto *f : g_fibers) if (f->user_thread && f->done && !f->dead && !f->joined && !f->detached) n++; return n; }
int threads_created() { int n = 0; for (auto *f : g_fibers) if (f->user_thread) n++; return n; }

// ------------------------------------------------------------------ time & events
struct KEv { ns_t t; uint64_t seq; std::function<void()> f; };
struct KCmp { bool operator()(const KEv &a, const KEv &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::vector<KEv> g_evq; static uint64_t g_evseq;
void at(ns_t t, const std::function<void()> &f) {
  Kern k; g_evq.push_back(KEv{t < g_now ? g_now : t, g_evseq++, f}); std::push_heap(g_evq.begin(), g_evq.end(), KCmp());
}
static void run_events() {
  while (!g_evq.empty() && g_evq.front().t <= g_now) {
    std::pop_heap(g_evq.begin(), g_evq.end(), KCmp()); KEv e = std::move(g_evq.back()); g_evq.pop_back(); e.f();
  }
}
ns_t now() { return g_now; }
uint64_t step() { return ++g_step; }
int64_t wall_us() { return ((int64_t)g_now + g_wall_off) / 1000; }
void clock_jump(int64_t d) { g_wall_off += d; ev("clock jump %lld ms", (long long)(d / 1000000)); }
void set_wall(int64_t s) { g_wall_off = s * 1000000000ll - (int64_t)g_now; }
void tick(ns_t d) { g_now += d; }

static void arm() {
  if (!g_preempt_mean) { g_count = 100000; g_count_loaded = g_count; return; }
  // geometric-ish: value 0 = none
  struct G { static uint32_t gen(uint64_t r, uint32_t m) { // exponential with mean m, at least 1
      double u = ((r >> 11) + 1) * (1.0 / 9007199254740993.0); double x = -__builtin_log(u) * m; if (x > 2000000) x = 2000000; return 1 + (uint32_t)x; } };
  uint32_t v = g_faults_off ? 0 : draw_gen(S, 4000000, G::gen, g_preempt_mean);
  g_count = v ? v : 100000; g_count_loaded = v ? g_count : -g_count;
}
// a signal waits: soon, after a few accesses of whatever runs, it is handled
bool g_sig_pending; static bool g_sig_short; static std::vector<int> g_sig_source;
void sig_arm() {
  if (!g_active) return;
  static const uint32_t mx[] = {4, 40, 1500}; uint32_t v = 1 + draw(S, mx[draw(S, 3)]);
  int64_t used = (g_count_loaded < 0 ? -g_count_loaded : g_count_loaded) - g_count; if (used > 0) { g_accesses += used; g_cur->run_accesses += used; g_now += used / 4; }
  g_count = v; g_count_loaded = -(int64_t)v; g_sig_short = true;
}
void signal_source(const std::vector<int> &s) { Kern k; g_sig_source = s; }
void set_preempt(uint32_t mean) { g_preempt_mean = mean; arm(); }
void run_limits(uint64_t a, int s) { Kern k; g_total_limit = a; struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_replaying ? 2 * s : s; setitimer(ITIMER_VIRTUAL, &it, nullptr); } // a replay must not fail where the run just made it
int64_t some_midnight() { // ordinary days, and days before which calendars and counters turn
  static const int64_t d[] = {1700006400, 40 * 86400, 951696000 /*2000-02-28*/, 1709078400 /*2024-02-28*/, 1767139200 /*2025-12-31*/, 2147472000 /*2038-01-19*/, 4294944000 /*2106-02-07*/};
  return chance(W, 1, 4) ? d[1 + draw(W, 6)] : d[0];
}
void default_schedule() {
  Kern k;
  set_wall(some_midnight() + 40000);

  switch (pick(W, {3, 2, 2, 2, 2})) {
  case 0: g_preempt_mean = 0; break;
  case 1: g_preempt_mean = 8; break;
  case 2: g_preempt_mean = 40; break;
  case 3: g_preempt_mean = 250; break;
  default: g_preempt_mean = 2000; break;
  }
  switch (pick(W, {3, 2, 2, 1})) { case 0: g_sync_den = 4; break; case 1: g_sync_den = 2; break; case 2: g_sync_den = 12; break; default: g_sync_den = 0; }
  heap_fill(pick(W, {2, 1, 1}) == 0 ? 0xBE : (g_res->nch[W] & 1) ? 0x00 : 0xFF);
  arm();
}

static void wake_check() {
  for (auto *f : g_fibers) {
    if (f->done || f->ready) continue;
    bool ok = f->pred && f->pred();
    if (ok) { f->ready = true; f->woke = true; f->timed_out = false; }
    else if (f->deadline <= g_now) { f->ready = true; f->woke = false; f->timed_out = true; }
  }
}
void reeval() { run_events(); wake_check(); }

static std::vector<Fiber *> g_rdy;
static void collect() { g_rdy.clear(); for (auto *f : g_fibers) if (f->ready && !f->done) g_rdy.push_back(f); }
// leave the processor: the current fiber is blocked or done
void schedule() {
  int m = g_mode; g_mode = KERNEL;
  while (true) {
    run_events(); wake_check(); collect();
    if (!g_rdy.empty()) break;
    ns_t t = FOREVER;
    if (!g_evq.empty()) t = g_evq.front().t;
    for (auto *f : g_fibers) if (!f->done && f->deadline < t) t = f->deadline;
    if (t == FOREVER) {
      std::string s; for (auto *f : g_fibers) if (!f->done) s += f->name + " ";
      violate("deadlock", "no thread can run and no timer or event is pending; blocked: %s", s.c_str());
    }
    static uint64_t idle, seen; // harness threads that sleep and look again keep the clock going for ever
    if (seen != g_moves + g_accesses) { seen = g_moves + g_accesses; idle = 0; }
    else if (++idle > 1000000) violate("hang", "the code under test has not moved for %.0f simulated seconds", (t - g_moved_at) / 1e9);
    if (t > g_now) g_now = t;
  }
  // oldest-run-first order starting after the current fiber
  size_t st = 0; for (size_t i = 0; i < g_rdy.size(); i++) if (g_cur && g_rdy[i]->id > g_cur->id) { st = i; break; }
  Fiber *to = g_rdy[(st + (g_rdy.size() > 1 ? draw(S, g_rdy.size()) : 0)) % g_rdy.size()];
  g_mode = m;
  switch_to(to);
}
bool block(const std::function<bool()> &pred, ns_t deadline) {
  int m = g_mode; g_mode = KERNEL;
  g_now += 200;
  if (pred && pred()) { g_mode = m; return true; }
  Fiber *f = g_cur;
  f->ready = false; f->pred = pred; f->deadline = deadline; f->timed_out = false; f->woke = false;
  schedule();
  bool r = f->woke; f->pred = nullptr; f->deadline = FOREVER;
  g_mode = m;
  return r;
}
void sleep_for(ns_t d) { ns_t t = g_now + d; block(nullptr, t); }
static void switch_other(bool forced) {
  run_events(); wake_check(); collect();
  if (g_rdy.size() <= 1) return;
  std::vector<Fiber *> o; for (auto *f : g_rdy) if (f != g_cur) o.push_back(f);
  Fiber *to = o[draw(S, o.size())];
  mix(g_accesses); mix(to->id);
  switch_to(to);
}
static void maybe_stall() {
  if (g_cur->user_thread && fault(FT_thread_stall)) {
    static const ns_t d[] = {20 * US, 300 * US, 3 * MS, 40 * MS, 400 * MS, 3500 * MS};
    sleep_for(d[draw(F, 6)]);
  }
}
void yield() {
  int m = g_mode; g_mode = KERNEL; g_now += 1000;
  switch_other(true);
  g_mode = m;
}
void sched_point(const char *) {
  g_now += 300; g_moves++; g_moved_at = g_now;
  if (!g_active) return;
  int m = g_mode; g_mode = KERNEL;
  g_cur->run_accesses = 0;
  run_events(); wake_check(); collect();
  if (g_rdy.size() > 1 && g_sync_den && !g_faults_off) {
    uint32_t v = chance(S, 1, g_sync_den) ? 1 : 0;
    if (v) switch_other(false);
    else if (++g_cur->run_syscalls > 500) switch_other(false); // no thread keeps the others waiting for ever
  } else if (g_rdy.size() > 1 && !g_faults_off && ++g_cur->run_syscalls > 500) switch_other(false);
  else if (g_rdy.size() > 1 && g_faults_off) { // fair round robin once faults stop
    static uint64_t c; if ((++c & 3) == 0) switch_other(false);
  }
  maybe_stall();
  if (!g_sig_source.empty() && g_cur->in_call && fault(FT_signal)) { int s = g_sig_source[draw(F, g_sig_source.size())]; if (sig_installed(s)) sig_deliver(s); }
  g_mode = m;
}
void wait_all(const std::vector<Fid> &v) {
  for (Fid f : v) block([f] { return fiber_done(f); }, FOREVER);
}

// slow path of every instrumented access
static __attribute__((noinline)) void access_slow() {
  int e = errno;
  int m = g_mode; g_mode = KERNEL;
  int64_t used = g_count_loaded < 0 ? -g_count_loaded : g_count_loaded;
  bool real = g_count_loaded > 0 && g_preempt_mean;
  g_accesses += used; g_cur->run_accesses += used;
  g_now += used / 4; // about 4 accesses per ns
  if (g_accesses > g_total_limit) violate("livelock", "the run has not ended within %llu memory accesses of the code under test", (unsigned long long)g_total_limit);
  if (g_cur->run_accesses > g_run_limit) violate("livelock", "thread %s ran %llu memory accesses without any system call, lock or wait", g_cur->name.c_str(), (unsigned long long)g_cur->run_accesses);
  bool sig = g_sig_short; g_sig_short = false;
  if (!real && !sig) g_now += 200 * US; // a spinning thread lets time pass
  if (real || g_cur->run_accesses > 300000) {
    run_events(); wake_check(); collect();
    if (g_rdy.size() > 1) { uint64_t ra = g_cur->run_accesses; Fiber *c = g_cur; if (real) g_res->faults[FT_preempt]++; switch_other(false); c->run_accesses = ra; }
    if (real) maybe_stall();
  }
  arm();
  g_mode = m; errno = e;
  if (g_sig_pending && m == USER) deliver_signals();
}

// ------------------------------------------------------------------ run
static std::vector<Scenario> &scen() { static std::vector<Scenario> v; return v; }
const std::vector<Scenario> &scenarios() { return scen(); }
void register_scenario(const Scenario &s) { scen().push_back(s); }
static char *g_altstack;
void begin_run(uint64_t seed, bool replay, const uint32_t *const *streams, const uint32_t *lengths, const char *tracefile) {
  uint64_t s = seed * 0x2545F4914F6CDD1Dull + 77;
  for (int i = 0; i < NSTREAM; i++) { g_rng[i] = splitmix(s); g_pos[i] = 0; g_res->nch[i] = 0; }
  g_replaying = replay;
  for (int i = 0; i < NSTREAM; i++) { g_replay[i] = streams[i]; g_replay_n[i] = replay ? lengths[i] : 0; }
  memset((void *)g_res, 0, offsetof(Result, nch)); g_res->chdropped = 0; g_res->status = -1;
  if (tracefile) g_trace = fopen(tracefile, "w");
  for (int i = 0; i < NFAULT; i++) { g_rate[i].num = 0; g_rate[i].den = 1; }
  heap_init();
  stack_t ss; g_altstack = (char *)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_sp = g_altstack; ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGVTALRM}) sigaction(sg, &sa, 0);
  std::set_terminate(on_terminate);
  void *bt[2]; backtrace(bt, 2); // preload the unwinder
  dl_iterate_phdr(tls_cb, 0);
  g_now = 1 * SEC; g_wall_off = 0; set_wall(1600000000); // 2020-09-13 12:26:40 UTC
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = replay ? 80 : 40; setitimer(ITIMER_VIRTUAL, &it, nullptr); alarm(300); // 40 s of processor time, however busy the machine is
}
int run_scenario(const Scenario &s) {
  Fiber *f = new_fiber("main", false);
  f->fn = [&s] {
    s.fn();
    finish(0);
    _exit(0);
  };
  g_active = true; arm();
  switch_to(f);
  return 0;
}

// cancellation -------------------------------------------------------
static _Unwind_Reason_Code cancel_stop(int, _Unwind_Action act, _Unwind_Exception_Class, struct _Unwind_Exception *, struct _Unwind_Context *ctx, void *p) {
  Fiber *f = (Fiber *)p;
  uintptr_t cfa = _Unwind_GetCFA(ctx);
  while (!f->cleanup.empty() && false) {}
  if ((act & _UA_END_OF_STACK) || cfa >= (uintptr_t)f->stack + STACK - 160) fiber_exit();
  return _URC_NO_REASON;
}
static void cancel_cleanup(_Unwind_Reason_Code, struct _Unwind_Exception *) {
  violate("crash-SIGABRT", "a catch-all handler swallowed a thread cancellation (glibc aborts: exception not rethrown)");
}
void cancel_point() {
  Fiber *f = g_cur;
  if (!f->cancel_req || !f->cancel_enabled || f->canceling || !f->user_thread) return;
  f->canceling = true;
  ev("thread %s cancelled", f->name.c_str());
  static _Unwind_Exception ue[64];
  _Unwind_Exception *e = &ue[f->id % 64];
  memset(e, 0, sizeof *e); e->exception_cleanup = cancel_cleanup;
  g_mode = USER;
  _Unwind_ForcedUnwind(e, cancel_stop, f);
  fiber_exit();
}
} // namespace sim

// ====================================================================== __tsan runtime
using namespace sim;
#define ALWAYS inline __attribute__((always_inline))
static ALWAYS void acc(const void *p, size_t n, bool w) {
  if (g_mode != USER || !g_active) return;
  h_check_in(p, n, w);
  if (__builtin_expect(--g_count <= 0, 0)) { access_slow(); if (g_active) h_check_in(p, n, w); }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { acc(p, n, false); } void __tsan_write##n(void *p) { acc(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_volatile_write##n(void *p) { acc(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true); } \
  void __tsan_read_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { acc(p, n, false); }
void __tsan_write_range(void *p, long n) { acc(p, n, true); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
void __tsan_vptr_read(void **p) { acc(p, 8, false); }
typedef __int128 a128;
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { acc((void *)a, sizeof(T), false); return *a; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { acc((void *)a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc((void *)a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acc((void *)a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc((void *)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, a128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
