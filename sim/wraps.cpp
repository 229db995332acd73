// libc / libpthread entry points, redirected with -Wl,--wrap. In harness mode they are the real ones;
// in user mode (code under test) they act on the simulated machine.
#include <netdb.h>
#include <pwd.h>
#include <dlfcn.h>
#include "kernel.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <net/if.h>
#include <arpa/inet.h>
#include <sys/select.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/shm.h>
#include <sys/ipc.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <poll.h>
#include <limits.h>
#include <algorithm>
#include <ctype.h>
using namespace sim;

namespace {
struct K { // kernel entry
  int m, e;
  K() { m = g_mode; e = errno; g_mode = KERNEL; if (m == USER && g_cur) g_cur->in_call++; }
  ~K() { if (m == USER && g_cur) g_cur->in_call--; g_mode = m; errno = e; }
  template <class T> long ret(T r) { if ((long)r < 0) { e = -(long)r; return -1; } return (long)r; }
};
inline bool user() { return g_mode == USER && g_active; }
void sys(const char *n) { g_syscalls++; g_now += g_syscalls < 100000 ? 400 : 20 * US; sched_point(n); } // a run that makes that many calls is spinning: let its time pass
int64_t wall_ns() { return (int64_t)g_now + g_wall_off; }
ns_t ts_ns(const struct timespec *t) { return t->tv_sec < 0 ? 0 : (ns_t)t->tv_sec * SEC + t->tv_nsec; }
int msec_deadline(int ms, ns_t &dl) { dl = ms < 0 ? FOREVER : g_now + (ns_t)ms * MS; return 0; }
// wait until the wall or monotonic clock reaches abs (ns), or pred
bool wait_clock(const std::function<bool()> &pred, bool realtime, int64_t abs, bool cancelable) {
  while (true) {
    ns_t dl;
    if (realtime) { int64_t left = abs - wall_ns(); dl = left <= 0 ? g_now : g_now + left; }
    else dl = abs <= (int64_t)g_now ? g_now : (ns_t)abs;
    auto p = [&] { return pred() || (realtime && wall_ns() >= abs); };
    if (cancelable) { Fiber *f = g_cur; block([&] { return p() || (f->cancel_req && f->cancel_enabled && !f->canceling); }, dl); if (f->cancel_req && f->cancel_enabled && !f->canceling) return pred(); }
    else block(p, dl);
    if (pred()) return true;
    if (realtime ? wall_ns() >= abs : (int64_t)g_now >= abs) return false;
  }
}
} // namespace

#define WRAP(ret, name, params, call) \
  extern "C" ret __real_##name params; \
  extern "C" ret __wrap_##name params; \
  extern "C" ret __wrap_##name params { if (!user()) return __real_##name call;
#define END }

// ================================================================ memory
WRAP(void *, malloc, (size_t n), (n)) K k; return h_alloc(n, 16, 0); END
extern "C" void __real_free(void *);
extern "C" void __wrap_free(void *p) { if (!in_arena(p)) { __real_free(p); return; } K k; if (p) h_free(p, 0); }
WRAP(void *, calloc, (size_t a, size_t b), (a, b)) K k; void *p = h_alloc(a * b, 16, 0); if (p) memset(p, 0, a * b); return p; END
extern "C" void *__real_realloc(void *, size_t);
extern "C" void *__wrap_realloc(void *p, size_t n) {
  if (!in_arena(p) && !user()) return __real_realloc(p, n);
  K k;
  if (!p) return h_alloc(n, 16, 0);
  if (!in_arena(p)) { void *q = h_alloc(n, 16, 0); memcpy(q, p, n); __real_free(p); return q; }
  size_t o = h_size(p); void *q = h_alloc(n, 16, 0); memcpy(q, p, std::min(o, n)); h_free(p, 0); return q;
}
WRAP(int, posix_memalign, (void **r, size_t a, size_t n), (r, a, n)) K k; *r = h_alloc(n, a, 0); return *r ? 0 : ENOMEM; END
WRAP(void *, aligned_alloc, (size_t a, size_t n), (a, n)) K k; return h_alloc(n, a, 0); END
extern "C" void __tsan_read_range(void *, long); extern "C" void __tsan_write_range(void *, long);
static inline void pre(const void *p, size_t n, bool w) { if (w) __tsan_write_range((void *)p, n); else __tsan_read_range((void *)p, n); }
extern "C" void *__real_memcpy(void *, const void *, size_t); extern "C" void *__real_memmove(void *, const void *, size_t);
extern "C" void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (!user() || !n) return __real_memcpy(d, s, n);
  pre(s, n, false); pre(d, n, true);
  if (n >= 16) { size_t h = n / 2; __real_memcpy(d, s, h); pre(d, n, true); __real_memcpy((char *)d + h, (const char *)s + h, n - h); return d; }
  return __real_memcpy(d, s, n);
}
extern "C" void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (!user() || !n) return __real_memmove(d, s, n);
  pre(s, n, false); pre(d, n, true); return __real_memmove(d, s, n);
}
WRAP(void *, memset, (void *d, int c, size_t n), (d, c, n)) if (n) pre(d, n, true); return __real_memset(d, c, n); END
WRAP(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n)) if (n) { pre(a, n, false); pre(b, n, false); } return __real_memcmp(a, b, n); END
WRAP(void *, memchr, (const void *a, int c, size_t n), (a, c, n)) void *r = (void *)__real_memchr(a, c, n); size_t m = r ? (char *)r - (char *)a + 1 : n; if (m) pre(a, m, false); return r; END
WRAP(void *, memmem, (const void *a, size_t n, const void *b, size_t m), (a, n, b, m)) if (n) pre(a, n, false); if (m) pre(b, m, false); return __real_memmem(a, n, b, m); END
extern "C" size_t __real_strlen(const char *);
extern "C" size_t __real_strnlen(const char *, size_t);
// length of a string that must end inside its own heap block
static size_t slen(const char *s, size_t max = SIZE_MAX) {
  if (!in_arena(s)) { return max == SIZE_MAX ? __real_strlen(s) : __real_strnlen(s, max); }
  size_t n = 0;
  while (n < max) { if (((uintptr_t)(s + n) & 7) == 0 || n == 0) h_check(s + n, 1, false); else if (n) { /* inside a granule: check too */ h_check(s + n, 1, false); } if (!s[n]) break; n++; }
  return n;
}
// comparing reads no further than the first difference
static void cmp2(const char *a, const char *b, size_t n, bool fold) {
  bool ca = in_arena(a), cb = in_arena(b);
  for (size_t i = 0; i < n; i++) { if (ca) h_check(a + i, 1, false); if (cb) h_check(b + i, 1, false); unsigned char x = a[i], y = b[i]; if ((fold ? tolower(x) != tolower(y) : x != y) || !x) return; }
}
extern "C" size_t __wrap_strlen(const char *s) { if (!user()) return __real_strlen(s); size_t n = slen(s); pre(s, n + 1, false); return n; }
WRAP(size_t, strnlen, (const char *s, size_t m), (s, m)) return slen(s, m); END
WRAP(char *, strcpy, (char *d, const char *s), (d, s)) size_t n = slen(s); pre(d, n + 1, true); __real_memcpy(d, s, n + 1); return d; END
WRAP(char *, strncpy, (char *d, const char *s, size_t n), (d, s, n)) slen(s, n); if (n) pre(d, n, true); return __real_strncpy(d, s, n); END
WRAP(char *, strcat, (char *d, const char *s), (d, s)) size_t a = slen(d), n = slen(s); pre(d + a, n + 1, true); __real_memcpy(d + a, s, n + 1); return d; END
WRAP(int, strcmp, (const char *a, const char *b), (a, b)) cmp2(a, b, SIZE_MAX, false); return __real_strcmp(a, b); END
WRAP(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n)) cmp2(a, b, n, false); return __real_strncmp(a, b, n); END
WRAP(int, strcasecmp, (const char *a, const char *b), (a, b)) cmp2(a, b, SIZE_MAX, true); return __real_strcasecmp(a, b); END
WRAP(int, strncasecmp, (const char *a, const char *b, size_t n), (a, b, n)) cmp2(a, b, n, true); return __real_strncasecmp(a, b, n); END
WRAP(char *, strstr, (const char *a, const char *b), (a, b)) slen(b); slen(a); return (char *)__real_strstr(a, b); END
WRAP(char *, strcasestr, (const char *a, const char *b), (a, b)) slen(b); slen(a); return (char *)__real_strcasestr(a, b); END
WRAP(char *, strchr, (const char *a, int c), (a, c)) slen(a); return (char *)__real_strchr(a, c); END
WRAP(char *, strrchr, (const char *a, int c), (a, c)) slen(a); return (char *)__real_strrchr(a, c); END
WRAP(char *, strdup, (const char *s), (s)) size_t n = slen(s); K k; char *p = (char *)h_alloc(n + 1, 16, 0); memcpy(p, s, n + 1); return p; END
WRAP(int, atoi, (const char *s), (s)) if (in_arena(s)) { size_t i = 0; while (true) { h_check(s + i, 1, false); char c = s[i]; if (!(isspace((unsigned char)c) || isdigit((unsigned char)c) || c == '-' || c == '+')) break; i++; } } return __real_atoi(s); END
static void num_scan(const char *s) { if (in_arena(s)) { size_t i = 0; while (true) { h_check(s + i, 1, false); char c = s[i]; if (!(isspace((unsigned char)c) || isalnum((unsigned char)c) || c == '-' || c == '+' || c == '.')) break; i++; } } }
WRAP(long, atol, (const char *s), (s)) num_scan(s); return __real_atol(s); END
WRAP(long long, atoll, (const char *s), (s)) num_scan(s); return __real_atoll(s); END
WRAP(long, strtol, (const char *s, char **e, int b), (s, e, b)) num_scan(s); return __real_strtol(s, e, b); END
WRAP(unsigned long, strtoul, (const char *s, char **e, int b), (s, e, b)) num_scan(s); return __real_strtoul(s, e, b); END
WRAP(long, __isoc23_strtol, (const char *s, char **e, int b), (s, e, b)) num_scan(s); return __real___isoc23_strtol(s, e, b); END
WRAP(unsigned long, __isoc23_strtoul, (const char *s, char **e, int b), (s, e, b)) num_scan(s); return __real___isoc23_strtoul(s, e, b); END

// ================================================================ static local initialisation
static std::unordered_map<void *, int> g_guards;
WRAP(int, __cxa_guard_acquire, (uint64_t * g), (g))
  K k;
  if (*(volatile char *)g) return 0;
  while (((volatile char *)g)[1] && !*(volatile char *)g) { block([g] { return !((volatile char *)g)[1] || *(volatile char *)g; }, FOREVER); }
  if (*(volatile char *)g) return 0;
  ((char *)g)[1] = 1; return 1; END
WRAP(void, __cxa_guard_release, (uint64_t * g), (g)) K k; *(char *)g = 1; ((char *)g)[1] = 0; END
WRAP(void, __cxa_guard_abort, (uint64_t * g), (g)) K k; ((char *)g)[1] = 0; END

// ================================================================ pthread
namespace {
struct Mtx { Fiber *owner = nullptr; int count = 0; int type = 0; };
struct Cnd { std::vector<struct CW *> w; bool mono = false; };
struct CW { bool sig = false; };
struct RW { Fiber *w = nullptr; int r = 0; int waiting_w = 0; };
struct Brr { unsigned n, c; uint64_t gen; };
std::unordered_map<void *, Mtx> g_mtx; std::unordered_map<void *, Cnd> g_cnd; std::unordered_map<void *, RW> g_rw; std::unordered_map<void *, int> g_spin, g_once; std::unordered_map<void *, Brr> g_brr; std::unordered_map<void *, long> g_sem;
std::map<unsigned, void (*)(void *)> g_keys; unsigned g_key_next = 1;
Mtx &mtx(pthread_mutex_t *m) { auto it = g_mtx.find(m); if (it == g_mtx.end()) { Mtx x; x.type = m->__data.__kind & 3; it = g_mtx.emplace((void *)m, x).first; } return it->second; }
int mlock(pthread_mutex_t *m, ns_t dl_real) {
  Mtx &x = mtx(m);
  if (x.owner == g_cur) { if (x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; } if (x.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
  if (x.owner) { probe("mutex_contended"); fault_count(FT_lock_contended); }
  while (true) {
    Mtx &y = mtx(m);
    if (!y.owner) { y.owner = g_cur; y.count = 1; return 0; }
    if (dl_real == FOREVER) block([m] { return !mtx(m).owner; }, FOREVER);
    else if (!wait_clock([m] { return !mtx(m).owner; }, true, dl_real, false)) return ETIMEDOUT;
  }
}
int munlock(pthread_mutex_t *m) {
  Mtx &x = mtx(m);
  if (x.owner != g_cur) { probe("unlock_not_owner"); if (x.type != 0) return EPERM; x.owner = nullptr; return 0; }
  if (--x.count > 0) return 0;
  x.owner = nullptr; return 0;
}
Fiber *by_id(pthread_t t) { long i = (long)t - 0x1000; return i >= 0 && i < (long)g_fibers.size() ? g_fibers[i] : nullptr; }
} // namespace
WRAP(int, pthread_mutex_init, (pthread_mutex_t * m, const pthread_mutexattr_t *a), (m, a)) K k; __real_pthread_mutex_init(m, a); Mtx x; int t = 0; if (a) pthread_mutexattr_gettype(a, &t); x.type = t; g_mtx[m] = x; return 0; END
WRAP(int, pthread_mutex_destroy, (pthread_mutex_t * m), (m)) K k; auto it = g_mtx.find(m); if (it != g_mtx.end() && it->second.owner) { probe("destroy_locked_mutex"); return EBUSY; } g_mtx.erase(m); return 0; END
WRAP(int, pthread_mutex_lock, (pthread_mutex_t * m), (m)) h_check(m, 8, true); K k; sched_point("lock"); return mlock(m, FOREVER); END
WRAP(int, pthread_mutex_trylock, (pthread_mutex_t * m), (m)) h_check(m, 8, true); K k; sched_point("trylock"); Mtx &x = mtx(m); if (x.owner == g_cur && x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; } if (x.owner) return EBUSY; x.owner = g_cur; x.count = 1; return 0; END
WRAP(int, pthread_mutex_timedlock, (pthread_mutex_t * m, const struct timespec *t), (m, t)) K k; sched_point("timedlock"); return mlock(m, ts_ns(t)); END
WRAP(int, pthread_mutex_clocklock, (pthread_mutex_t * m, clockid_t c, const struct timespec *t), (m, c, t)) K k; sched_point("timedlock"); return mlock(m, ts_ns(t) + (c == CLOCK_REALTIME ? 0 : g_wall_off)); END
WRAP(int, pthread_mutex_unlock, (pthread_mutex_t * m), (m)) h_check(m, 8, true); K k; int r = munlock(m); sched_point("unlock"); return r; END

WRAP(int, pthread_cond_init, (pthread_cond_t * c, const pthread_condattr_t *a), (c, a)) K k; __real_pthread_cond_init(c, a); Cnd x; clockid_t ck = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &ck); x.mono = ck == CLOCK_MONOTONIC; g_cnd[c] = x; return 0; END
WRAP(int, pthread_cond_destroy, (pthread_cond_t * c), (c)) K k; g_cnd.erase(c); return 0; END
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int kind /*0 none 1 realtime 2 mono*/, int64_t abs) {
  cancel_point();
  CW w; Cnd &x = g_cnd[c];
  if (mtx(m).owner != g_cur) probe("cond_wait_without_mutex");
  x.w.push_back(&w);
  bool spurious = fault(FT_cond_spurious); ns_t sp = spurious ? g_now + (1 + draw(F, 50)) * 20 * US : FOREVER;
  int cnt = mtx(m).count; mtx(m).owner = nullptr; 
  bool timedout = false;
  Fiber *me = g_cur;
  auto done = [&] { return w.sig || g_now >= sp || (me->cancel_req && me->cancel_enabled && !me->canceling); };
  if (kind == 0) { block(done, sp); }
  else {
    bool rt = kind == 1;
    while (!done()) {
      int64_t left = rt ? abs - wall_ns() : abs - (int64_t)g_now;
      if (left <= 0) { timedout = true; break; }
      ns_t dl = std::min((ns_t)(g_now + left), sp);
      block([&] { return done() || (rt && wall_ns() >= abs); }, dl);
    }
  }
  auto it = g_cnd.find(c); if (it != g_cnd.end()) { auto &v = it->second.w; v.erase(std::remove(v.begin(), v.end(), &w), v.end()); }
  while (true) { Mtx &y = mtx(m); if (!y.owner) { y.owner = g_cur; y.count = cnt > 0 ? cnt : 1; break; } block([m] { return !mtx(m).owner; }, FOREVER); }
  if (w.sig) timedout = false;
  cancel_point();
  return timedout ? ETIMEDOUT : 0;
}
WRAP(int, pthread_cond_wait, (pthread_cond_t * c, pthread_mutex_t *m), (c, m)) h_check(c, 8, true); K k; g_syscalls++; return cond_wait(c, m, 0, 0); END
WRAP(int, pthread_cond_timedwait, (pthread_cond_t * c, pthread_mutex_t *m, const struct timespec *t), (c, m, t)) h_check(c, 8, true); K k; g_syscalls++; if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL; return cond_wait(c, m, g_cnd[c].mono ? 2 : 1, ts_ns(t)); END
WRAP(int, pthread_cond_clockwait, (pthread_cond_t * c, pthread_mutex_t *m, clockid_t ck, const struct timespec *t), (c, m, ck, t)) K k; g_syscalls++; if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL; return cond_wait(c, m, ck == CLOCK_REALTIME ? 1 : 2, ts_ns(t)); END
WRAP(int, pthread_cond_signal, (pthread_cond_t * c), (c)) h_check(c, 8, true); K k; sched_point("signal"); auto &v = g_cnd[c].w; std::vector<CW *> o; for (auto *w : v) if (!w->sig) o.push_back(w); if (!o.empty()) o[draw(S, o.size())]->sig = true; return 0; END
WRAP(int, pthread_cond_broadcast, (pthread_cond_t * c), (c)) h_check(c, 8, true); K k; sched_point("broadcast"); for (auto *w : g_cnd[c].w) w->sig = true; return 0; END

WRAP(int, pthread_rwlock_init, (pthread_rwlock_t * l, const pthread_rwlockattr_t *), (l, 0)) K k; g_rw[l] = RW(); return 0; END
WRAP(int, pthread_rwlock_destroy, (pthread_rwlock_t * l), (l)) K k; g_rw.erase(l); return 0; END
WRAP(int, pthread_rwlock_rdlock, (pthread_rwlock_t * l), (l)) h_check(l, 8, true); K k; sched_point("rdlock"); while (g_rw[l].w) block([l] { return !g_rw[l].w; }, FOREVER); g_rw[l].r++; return 0; END
WRAP(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t * l), (l)) K k; sched_point("rdlock"); if (g_rw[l].w) return EBUSY; g_rw[l].r++; return 0; END
WRAP(int, pthread_rwlock_wrlock, (pthread_rwlock_t * l), (l)) h_check(l, 8, true); K k; sched_point("wrlock"); while (g_rw[l].w || g_rw[l].r) block([l] { return !g_rw[l].w && !g_rw[l].r; }, FOREVER); g_rw[l].w = g_cur; return 0; END
WRAP(int, pthread_rwlock_trywrlock, (pthread_rwlock_t * l), (l)) K k; sched_point("wrlock"); if (g_rw[l].w || g_rw[l].r) return EBUSY; g_rw[l].w = g_cur; return 0; END
WRAP(int, pthread_rwlock_unlock, (pthread_rwlock_t * l), (l)) h_check(l, 8, true); K k; RW &x = g_rw[l]; if (x.w) x.w = nullptr; else if (x.r > 0) x.r--; sched_point("rwunlock"); return 0; END
WRAP(int, pthread_spin_init, (pthread_spinlock_t * l, int s), (l, s)) K k; g_spin[(void *)l] = 0; return 0; END
WRAP(int, pthread_spin_destroy, (pthread_spinlock_t * l), (l)) K k; g_spin.erase((void *)l); return 0; END
WRAP(int, pthread_spin_lock, (pthread_spinlock_t * l), (l)) h_check((void *)l, 4, true); K k; sched_point("spin"); while (g_spin[(void *)l]) block([l] { return !g_spin[(void *)l]; }, FOREVER); g_spin[(void *)l] = 1; return 0; END
WRAP(int, pthread_spin_trylock, (pthread_spinlock_t * l), (l)) K k; sched_point("spin"); if (g_spin[(void *)l]) return EBUSY; g_spin[(void *)l] = 1; return 0; END
WRAP(int, pthread_spin_unlock, (pthread_spinlock_t * l), (l)) h_check((void *)l, 4, true); K k; g_spin[(void *)l] = 0; sched_point("spinunlock"); return 0; END
WRAP(int, pthread_barrier_init, (pthread_barrier_t * b, const pthread_barrierattr_t *, unsigned n), (b, 0, n)) K k; g_brr[b] = Brr{n, 0, 0}; return 0; END
WRAP(int, pthread_barrier_wait, (pthread_barrier_t * b), (b)) K k; Brr &x = g_brr[b]; if (++x.c >= x.n) { x.c = 0; x.gen++; return PTHREAD_BARRIER_SERIAL_THREAD; } uint64_t g = x.gen; block([b, g] { return g_brr[b].gen != g; }, FOREVER); return 0; END
WRAP(int, pthread_barrier_destroy, (pthread_barrier_t * b), (b)) K k; g_brr.erase(b); return 0; END
WRAP(int, sem_init, (sem_t * s, int p, unsigned v), (s, p, v)) K k; g_sem[s] = v; return 0; END
WRAP(int, sem_destroy, (sem_t * s), (s)) K k; g_sem.erase(s); return 0; END
WRAP(int, sem_post, (sem_t * s), (s)) K k; g_sem[s]++; sched_point("sem_post"); return 0; END
WRAP(int, sem_wait, (sem_t * s), (s)) K k; sched_point("sem_wait"); while (g_sem[s] <= 0) wait_io([s] { return g_sem[s] > 0; }, FOREVER); g_sem[s]--; return 0; END
WRAP(int, sem_trywait, (sem_t * s), (s)) K k; sched_point("sem_wait"); if (g_sem[s] <= 0) { k.e = EAGAIN; return -1; } g_sem[s]--; return 0; END
WRAP(int, sem_timedwait, (sem_t * s, const struct timespec *t), (s, t)) K k; sched_point("sem_wait"); while (g_sem[s] <= 0) if (!wait_clock([s] { return g_sem[s] > 0; }, true, ts_ns(t), true)) { k.e = ETIMEDOUT; return -1; } g_sem[s]--; return 0; END
WRAP(int, sem_getvalue, (sem_t * s, int *v), (s, v)) K k; *v = g_sem[s]; return 0; END
WRAP(int, pthread_once, (pthread_once_t * o, void (*f)(void)), (o, f))
  { K k; sched_point("once"); while (g_once[o] == 1) block([o] { return g_once[o] != 1; }, FOREVER); if (g_once[o] == 2) return 0; g_once[o] = 1; }
  try { f(); } catch (...) { g_once[o] = 0; throw; }
  { K k; g_once[o] = 2; *o = 2; }
  return 0; END

WRAP(int, pthread_create, (pthread_t * t, const pthread_attr_t *a, void *(*f)(void *), void *arg), (t, a, f, arg))
  K k; sys("pthread_create");
  if (fault(FT_thread_create_fail)) return EAGAIN;
  char nm[24]; static int n; snprintf(nm, sizeof nm, "thread%d", ++n);
  Fiber *x = new_fiber(nm, true); x->start = f; x->arg = arg;
  int ds = 0; if (a && pthread_attr_getdetachstate(a, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) x->detached = true;
  *t = (pthread_t)(0x1000 + x->id);
  ev("pthread_create %s", nm);
  sched_point("created");
  return 0; END
WRAP(int, pthread_join, (pthread_t t, void **r), (t, r)) K k; sys("join"); Fiber *x = by_id(t); if (!x) return ESRCH; if (x->joined) violate("undefined-behaviour", "pthread_join on a thread that was joined already"); if (x->detached) return EINVAL; if (x == g_cur) return EDEADLK; x->joined = true; wait_io([x] { return x->done; }, FOREVER); if (r) *r = x->ret; return 0; END
WRAP(int, pthread_detach, (pthread_t t), (t)) K k; Fiber *x = by_id(t); if (!x) return ESRCH; if (x->done && (x->detached || x->joined)) violate("undefined-behaviour", "pthread_detach on a thread that has ended and was %s", x->joined ? "joined" : "detached"); if (x->detached) return EINVAL; x->detached = true; return 0; END
WRAP(int, pthread_cancel, (pthread_t t), (t)) K k; sys("cancel"); Fiber *x = by_id(t); if (!x) return ESRCH; if (x->done && (x->detached || x->joined)) violate("undefined-behaviour", "pthread_cancel on a thread that has ended and was %s", x->joined ? "joined" : "detached"); if (x->done) return 0; x->cancel_req = true; ev("cancel requested for %s", x->name.c_str()); sched_point("cancel"); cancel_point(); return 0; END
WRAP(int, pthread_setcancelstate, (int s, int *o), (s, o)) K k; if (o) *o = g_cur->cancel_enabled ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE; g_cur->cancel_enabled = s == PTHREAD_CANCEL_ENABLE; return 0; END
WRAP(int, pthread_setcanceltype, (int s, int *o), (s, o)) K k; if (o) *o = PTHREAD_CANCEL_DEFERRED; return 0; END
WRAP(void, pthread_testcancel, (void), ()) K k; cancel_point(); END
WRAP(pthread_t, pthread_self, (void), ()) return (pthread_t)(0x1000 + g_cur->id); END
WRAP(int, pthread_kill, (pthread_t t, int s), (t, s)) K k; Fiber *x = by_id(t); return !x || x->done ? ESRCH : 0; END
extern "C" void __real_pthread_exit(void *) __attribute__((noreturn));
extern "C" void __wrap_pthread_exit(void *v) { if (!user()) __real_pthread_exit(v); g_mode = KERNEL; g_cur->ret = v; g_cur->cancel_req = true; g_cur->cancel_enabled = true; cancel_point(); fiber_exit(); }
WRAP(int, pthread_setname_np, (pthread_t t, const char *n), (t, n)) return 0; END
WRAP(int, pthread_getname_np, (pthread_t t, char *n, size_t l), (t, n, l)) if (l) n[0] = 0; return 0; END
WRAP(int, pthread_key_create, (pthread_key_t * key, void (*d)(void *)), (key, d)) K k; *key = g_key_next++; g_keys[*key] = d; return 0; END
WRAP(int, pthread_key_delete, (pthread_key_t key), (key)) K k; g_keys.erase(key); return 0; END
WRAP(void *, pthread_getspecific, (pthread_key_t key), (key)) K k; auto it = g_cur->tsd.find(key); return it == g_cur->tsd.end() ? nullptr : it->second; END
WRAP(int, pthread_setspecific, (pthread_key_t key, const void *v), (key, v)) K k; g_cur->tsd[key] = (void *)v; return 0; END
WRAP(int, sched_yield, (void), ()) K k; g_syscalls++; g_cur->run_accesses = 0; g_now += 50 * US; yield(); return 0; END

// ================================================================ signals
namespace { struct Sig { void (*h)(int); bool info, by_sigaction; struct sigaction sa; }; std::map<int, Sig> g_sig; std::vector<int> g_pending; std::map<int, uint64_t> g_sig_n; uint64_t mask_of(const sigset_t *s) { if (!s) return 0; uint64_t m = 0; for (int i = 1; i < 64; i++) if (sigismember(s, i)) m |= 1ull << i; return m; }
void run_sig(int s, int m) {
  auto it = g_sig.find(s);
  if (it == g_sig.end() || it->second.h == SIG_DFL) {
    if (s == SIGPIPE || s == SIGTERM || s == SIGINT || s == SIGHUP || s == SIGUSR1 || s == SIGUSR2 || s == SIGALRM) violate("killed-by-signal", "the process dies of signal %d (%s), default action, thread %s", s, strsignal(s), g_cur->name.c_str());
    return;
  }
  if (it->second.h == SIG_IGN) return;
  int sm = g_mode; uint64_t om = g_cur->sigmask; Sig h = it->second;
  if (h.by_sigaction) { g_cur->sigmask |= mask_of(&h.sa.sa_mask); if (h.sa.sa_flags & SA_RESETHAND) it->second.h = SIG_DFL; }
  if (!(h.by_sigaction && (h.sa.sa_flags & SA_NODEFER))) g_cur->sigmask |= 1ull << s;
  g_sig_n[s]++; g_mode = USER;
  if (h.info) { siginfo_t si; memset(&si, 0, sizeof si); h.sa.sa_sigaction(s, &si, nullptr); } else h.h(s);
  g_mode = sm; g_cur->sigmask = om;
}
bool pending_signals() { // are interrupted reads and writes restarted
  bool restart = true;
  for (size_t i = 0; i < g_pending.size(); i++) {
    int s = g_pending[i]; if (g_cur->sigmask & (1ull << s)) continue;
    g_pending.erase(g_pending.begin() + i); i = -1; g_sig_pending = !g_pending.empty(); ev("signal %d handled", s);
    if (g_sig.count(s) && g_sig[s].by_sigaction && !(g_sig[s].sa.sa_flags & SA_RESTART)) restart = false;
    run_sig(s, 0);
  }
  return restart;
}
void raise_pipe() { if (g_cur->sigmask & (1ull << SIGPIPE)) { probe("sigpipe_blocked"); return; } run_sig(SIGPIPE, 0); }
}
namespace sim {
bool sig_is_pending(int s) { return std::find(g_pending.begin(), g_pending.end(), s) != g_pending.end(); }
bool sig_installed(int s) { auto i = g_sig.find(s); return i != g_sig.end() && i->second.h != SIG_DFL && i->second.h != SIG_IGN; }
uint64_t sig_handled(int s) { return g_sig_n[s]; }
void sig_deliver(int s) { Kern k; ev("signal %d sent", s); if (!sig_is_pending(s)) g_pending.push_back(s); g_sig_pending = true; sig_arm(); }
void deliver_signals() { int m = g_mode; g_mode = KERNEL; pending_signals(); g_mode = m; }
}
WRAP(sighandler_t, signal, (int s, sighandler_t h), (s, h)) K k; sighandler_t o = g_sig.count(s) ? g_sig[s].h : SIG_DFL; Sig x; memset(&x, 0, sizeof x); x.h = h; g_sig[s] = x; return o; END
WRAP(int, sigaction, (int s, const struct sigaction *a, struct sigaction *o), (s, a, o)) K k; if (o) { if (g_sig.count(s)) *o = g_sig[s].sa; else memset(o, 0, sizeof *o); } if (a) { Sig x; x.by_sigaction = true; x.sa = *a; x.info = a->sa_flags & SA_SIGINFO; x.h = x.info ? (sighandler_t)a->sa_sigaction : a->sa_handler; g_sig[s] = x; } return 0; END
static int do_mask(int how, const sigset_t *s, sigset_t *o) {
  if (o) { sigemptyset(o); for (int i = 1; i < 64; i++) if (g_cur->sigmask & (1ull << i)) sigaddset(o, i); }
  if (s) { uint64_t m = mask_of(s); if (how == SIG_BLOCK) g_cur->sigmask |= m; else if (how == SIG_UNBLOCK) g_cur->sigmask &= ~m; else g_cur->sigmask = m; }
  return 0;
}
WRAP(int, pthread_sigmask, (int h, const sigset_t *s, sigset_t *o), (h, s, o)) K k; return do_mask(h, s, o); END
WRAP(int, sigprocmask, (int h, const sigset_t *s, sigset_t *o), (h, s, o)) K k; return do_mask(h, s, o); END
WRAP(int, raise, (int s), (s)) K k; run_sig(s, 0); return 0; END
WRAP(int, kill, (pid_t p, int s), (p, s)) K k; if (s) { g_pending.push_back(s); g_sig_pending = true; } pending_signals(); return 0; END
WRAP(void, exit, (int c), (c)) violate("process-exit", "the code under test called exit(%d)", c); END
WRAP(void, __assert_fail, (const char *e, const char *f, unsigned l, const char *fn), (e, f, l, fn)) violate("crash-assert", "assertion failed: %s at %s:%u", e, f, l); END

// ================================================================ time
static void fill_tv(struct timeval *tv, int64_t ns) { int64_t us = ns / 1000; tv->tv_sec = us / 1000000; tv->tv_usec = us % 1000000; }
static void align(int64_t n) { // the call takes until the clock shows a whole millisecond (rounding of times is exact there)
  if (fault(FT_clock_align)) g_now += (1000000 - n % 1000000) % 1000000;
}
static void clock_faults() {
  if (fault(FT_clock_forward)) { static const int64_t d[] = {5, 300, 4000, 3600000}; clock_jump(d[draw(F, 4)] * 1000000); }
  if (fault(FT_clock_back)) { static const int64_t d[] = {5, 300, 4000, 3600000}; clock_jump(-d[draw(F, 4)] * 1000000); }
}
WRAP(int, gettimeofday, (struct timeval * tv, void *z), (tv, z)) h_check(tv, 16, true); K k; g_now += 120; clock_faults(); align(wall_ns()); fill_tv(tv, wall_ns()); return 0; END
WRAP(time_t, time, (time_t * t), (t)) K k; g_now += 120; clock_faults(); time_t r = wall_ns() / 1000000000; if (t) *t = r; return r; END
WRAP(int, clock_gettime, (clockid_t c, struct timespec *t), (c, t)) K k; g_now += 120; int64_t n; if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { clock_faults(); align(wall_ns()); n = wall_ns(); } else { align(g_now); n = g_now; } t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; END
WRAP(clock_t, clock, (void), ()) return g_now / 1000; END
static struct tm g_tm;
WRAP(struct tm *, localtime, (const time_t *t), (t)) K k; time_t x = *t; gmtime_r(&x, &g_tm); return &g_tm; END
WRAP(struct tm *, gmtime, (const time_t *t), (t)) K k; time_t x = *t; gmtime_r(&x, &g_tm); return &g_tm; END
WRAP(struct tm *, localtime_r, (const time_t *t, struct tm *o), (t, o)) K k; time_t x = *t; return gmtime_r(&x, o); END
static int do_sleep(K &k, ns_t d, ns_t *left) {
  g_syscalls++; cancel_point(); g_cur->run_accesses = 0;
  ns_t end = g_now + d;
  if (d > MS && fault(FT_signal_intr)) { ns_t part = d / (1 + draw(F, 8) + 1); wait_io([] { return false; }, g_now + part); if (left) *left = end > g_now ? end - g_now : 0; return EINTR; }
  Fiber *f = g_cur; (void)f;
  wait_io([] { return !g_pending.empty(); }, end);
  if (!g_pending.empty() && g_now < end) { pending_signals(); if (left) *left = end > g_now ? end - g_now : 0; return EINTR; }
  return 0;
}
WRAP(int, usleep, (useconds_t u), (u)) K k; int r = do_sleep(k, (ns_t)u * US, nullptr); if (r) { k.e = r; return -1; } return 0; END
WRAP(unsigned, sleep, (unsigned s), (s)) K k; ns_t l = 0; int r = do_sleep(k, (ns_t)s * SEC, &l); return r ? (l + SEC - 1) / SEC : 0; END
WRAP(int, nanosleep, (const struct timespec *t, struct timespec *rem), (t, rem)) K k; ns_t l = 0; int r = do_sleep(k, ts_ns(t), &l); if (r) { if (rem) { rem->tv_sec = l / SEC; rem->tv_nsec = l % SEC; } k.e = r; return -1; } return 0; END
WRAP(int, clock_nanosleep, (clockid_t c, int fl, const struct timespec *t, struct timespec *rem), (c, fl, t, rem)) K k; g_syscalls++;
  if (fl & TIMER_ABSTIME) { wait_clock([] { return false; }, c == CLOCK_REALTIME, ts_ns(t), true); cancel_point(); return 0; }
  ns_t l = 0; int r = do_sleep(k, ts_ns(t), &l); if (r && rem) { rem->tv_sec = l / SEC; rem->tv_nsec = l % SEC; } return r; END

// ================================================================ descriptors
template <class Fn> static long do_io(K &k, int fd, bool wr, int flags, ns_t timeo, Fn op) {
  sys("io"); cancel_point();
  FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF);
  bool nb = f->nonblock || (flags & MSG_DONTWAIT);
  ns_t dl = timeo ? g_now + timeo : FOREVER;
  while (true) {
    long r = op(f);
    if (r == -EAGAIN && !nb) {
      bool ok = wait_io([f, wr] { return (f->poll() & ((wr ? EPOLLOUT : EPOLLIN) | EPOLLERR | EPOLLHUP)) != 0 || !g_pending.empty(); }, dl);
      if (!g_pending.empty()) { if (!pending_signals() || timeo) return k.ret(-EINTR); continue; }
      if (!ok) return k.ret(-EAGAIN);
      if (fd_get(fd) != f) return k.ret(-EBADF);
      if (!(f->poll() & (wr ? EPOLLOUT : EPOLLIN)) ) { }
      continue;
    }
    if (wr && r == -EPIPE && (f->kind == FileObj::TCP || f->kind == FileObj::PIPE_W) && !(flags & MSG_NOSIGNAL)) raise_pipe();
    return k.ret(r);
  }
}
static ns_t rto(int fd) { FileObj *f = fd_get(fd); return f && f->kind == FileObj::TCP ? ((Tcp *)f)->rcvtimeo : f && f->kind == FileObj::UDP ? ((Udp *)f)->rcvtimeo : 0; }
static ns_t sto(int fd) { FileObj *f = fd_get(fd); return f && f->kind == FileObj::TCP ? ((Tcp *)f)->sndtimeo : 0; }
static ssize_t send_all(K &k, int fd, const void *b, size_t n, int fl) {
  size_t done = 0; // a blocking stream send returns when everything is queued, at its time limit, or on an error
  long r = do_io(k, fd, true, fl, sto(fd), [&](FileObj *f) -> ssize_t { if (f->kind != FileObj::TCP && f->kind != FileObj::UDP) return -ENOTSOCK; ssize_t x = f->write((const char *)b + done, n - done, fl); if (f->kind == FileObj::UDP) return x; if (x > 0) { done += x; return done == n || f->nonblock || (fl & MSG_DONTWAIT) ? (ssize_t)done : -EAGAIN; } return x < 0 && x != -EAGAIN && done ? (ssize_t)done : x; });
  return r < 0 && done ? (ssize_t)done : r;
}
WRAP(ssize_t, read, (int fd, void *b, size_t n), (fd, b, n)) if (n) h_check(b, 1, true); K k; ssize_t r = do_io(k, fd, false, 0, rto(fd), [&](FileObj *f) { return f->read((char *)b, n); }); if (r > 0) { k.~K(); h_check(b, r, true); new (&k) K; } return r; END
WRAP(ssize_t, write, (int fd, const void *b, size_t n), (fd, b, n)) if (n) h_check(b, n, false); K k;
  FileObj *f0 = fd_get(fd); if (f0 && f0->kind == FileObj::TCP) return send_all(k, fd, b, n, 0); return do_io(k, fd, true, 0, sto(fd), [&](FileObj *f) { return f->write((const char *)b, n, 0); }); END
WRAP(ssize_t, recv, (int fd, void *b, size_t n, int fl), (fd, b, n, fl))
  if (n) h_check(b, n, true); K k;
  return do_io(k, fd, false, fl, rto(fd), [&](FileObj *f) -> ssize_t {
    if (f->kind == FileObj::UDP) return ((Udp *)f)->recvfrom((char *)b, n, nullptr, fl);
    if (f->kind != FileObj::TCP) return -ENOTSOCK;
    if (fl & MSG_PEEK) { Tcp *t = (Tcp *)f; if (t->rx.empty()) return t->rx_fin ? 0 : -EAGAIN; size_t m = std::min(n, t->rx.size()); memcpy(b, t->rx.data(), m); return m; }
    return f->read((char *)b, n); }); END
WRAP(ssize_t, send, (int fd, const void *b, size_t n, int fl), (fd, b, n, fl)) if (n) h_check(b, n, false); K k; return send_all(k, fd, b, n, fl); END
WRAP(ssize_t, sendto, (int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al), (fd, b, n, fl, a, al)) if (n) h_check(b, n, false); K k;
  return do_io(k, fd, true, fl, sto(fd), [&](FileObj *f) -> ssize_t { if (f->kind == FileObj::UDP) return ((Udp *)f)->sendto((const char *)b, n, (const sockaddr_in *)a); if (f->kind != FileObj::TCP) return -ENOTSOCK; return f->write((const char *)b, n, fl); }); END
WRAP(ssize_t, recvfrom, (int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al), (fd, b, n, fl, a, al)) if (n) h_check(b, n, true); K k;
  return do_io(k, fd, false, fl, rto(fd), [&](FileObj *f) -> ssize_t { if (f->kind == FileObj::UDP) { ssize_t r = ((Udp *)f)->recvfrom((char *)b, n, (sockaddr_in *)a, fl); if (r >= 0 && al) *al = sizeof(sockaddr_in); return r; } if (f->kind != FileObj::TCP) return -ENOTSOCK; return f->read((char *)b, n); }); END
static ssize_t iov_write(FileObj *f, const struct iovec *v, int n, int fl) { std::string s; for (int i = 0; i < n; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); return f->write(s.data(), s.size(), fl); }
static ssize_t iov_read(FileObj *f, const struct iovec *v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; std::string s(t, 0); ssize_t r = f->read(&s[0], t); if (r <= 0) return r; size_t o = 0; for (int i = 0; i < n && o < (size_t)r; i++) { size_t m = std::min(v[i].iov_len, (size_t)r - o); memcpy(v[i].iov_base, s.data() + o, m); o += m; } return r; }
WRAP(ssize_t, writev, (int fd, const struct iovec *v, int n), (fd, v, n)) for (int i = 0; i < n; i++) h_check(v[i].iov_base, v[i].iov_len, false); K k; return do_io(k, fd, true, 0, sto(fd), [&](FileObj *f) { return iov_write(f, v, n, 0); }); END
WRAP(ssize_t, readv, (int fd, const struct iovec *v, int n), (fd, v, n)) for (int i = 0; i < n; i++) h_check(v[i].iov_base, v[i].iov_len, true); K k; return do_io(k, fd, false, 0, rto(fd), [&](FileObj *f) { return iov_read(f, v, n); }); END
WRAP(ssize_t, sendmsg, (int fd, const struct msghdr *m, int fl), (fd, m, fl)) K k; return do_io(k, fd, true, fl, sto(fd), [&](FileObj *f) { if (f->kind == FileObj::UDP) { std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return ((Udp *)f)->sendto(s.data(), s.size(), (const sockaddr_in *)m->msg_name); } return iov_write(f, m->msg_iov, m->msg_iovlen, fl); }); END
WRAP(ssize_t, recvmsg, (int fd, struct msghdr *m, int fl), (fd, m, fl)) for (size_t i = 0; i < m->msg_iovlen; i++) h_check(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, true); K k; m->msg_flags = 0; m->msg_controllen = 0;
  return do_io(k, fd, false, fl, rto(fd), [&](FileObj *f) -> ssize_t {
    if (f->kind != FileObj::UDP) { m->msg_namelen = 0; return iov_read(f, m->msg_iov, m->msg_iovlen); }
    size_t t = 0; for (size_t i = 0; i < m->msg_iovlen; i++) t += m->msg_iov[i].iov_len; std::string s(t, 0); sockaddr_in a; ssize_t r = ((Udp *)f)->recvfrom(&s[0], t, &a, fl | MSG_TRUNC); if (r < 0) return r;
    if (m->msg_name) { memcpy(m->msg_name, &a, std::min<size_t>(m->msg_namelen, sizeof a)); m->msg_namelen = sizeof a; }
    size_t o = 0, have = std::min<size_t>(r, t); for (size_t i = 0; i < m->msg_iovlen && o < have; i++) { size_t q = std::min(m->msg_iov[i].iov_len, have - o); memcpy(m->msg_iov[i].iov_base, s.data() + o, q); o += q; }
    if ((size_t)r > t) { m->msg_flags |= MSG_TRUNC; if (!(fl & MSG_TRUNC)) r = t; }
    return r; }); END
WRAP(int, close, (int fd), (fd)) K k; sys("close"); ev("close fd=%d", fd); int r = fd_close(fd); if (r < 0) probe("close_bad_fd"); return k.ret(r); END
WRAP(int, dup, (int fd), (fd)) K k; return k.ret(fd_dup(fd, 0)); END
static int do_dup2(int fd, int to) { K k; if (!fd_get(fd)) return k.ret(-EBADF); if (fd == to) return to; if (fd_get(to)) fd_close(to); int r = fd_dup(fd, to); return k.ret(r); }
WRAP(int, dup2, (int fd, int to), (fd, to)) return do_dup2(fd, to); END
WRAP(int, dup3, (int fd, int to, int fl), (fd, to, fl)) return do_dup2(fd, to); END
extern "C" int __real_fcntl(int, int, ...); extern "C" int __wrap_fcntl(int fd, int c, ...);
static int do_fcntl(int fd, int c, long arg) {
  K k; FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF);
  switch (c) {
  case F_GETFL: return (f->nonblock ? O_NONBLOCK : 0) | (f->append ? O_APPEND : 0) | O_RDWR;
  case F_SETFL: f->nonblock = arg & O_NONBLOCK; return 0;
  case F_GETFD: return g_fds[fd].cloexec ? FD_CLOEXEC : 0;
  case F_SETFD: g_fds[fd].cloexec = arg & FD_CLOEXEC; return 0;
  case F_DUPFD: case F_DUPFD_CLOEXEC: return k.ret(fd_dup(fd, arg));
  case F_SETPIPE_SZ: if (f->kind == FileObj::PIPE_R || f->kind == FileObj::PIPE_W) { ((PipeEnd *)f)->p->cap = std::max(4096l, arg); return arg; } return k.ret(-EBADF);
  case F_GETPIPE_SZ: return ((PipeEnd *)f)->p->cap;
  }
  return k.ret(-EINVAL);
}
extern "C" int __wrap_fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); if (!user()) return __real_fcntl(fd, c, a); return do_fcntl(fd, c, a); }
extern "C" int __real_fcntl64(int, int, ...); extern "C" int __wrap_fcntl64(int fd, int c, ...);
extern "C" int __wrap_fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); if (!user()) return __real_fcntl64(fd, c, a); return do_fcntl(fd, c, a); }
static std::vector<std::string> &g_net_ifs() { return net().ifs; }
extern "C" int __real_ioctl(int, unsigned long, ...); extern "C" int __wrap_ioctl(int fd, unsigned long c, ...);
extern "C" int __wrap_ioctl(int fd, unsigned long c, ...) {
  va_list ap; va_start(ap, c); void *a = va_arg(ap, void *); va_end(ap); if (!user()) return __real_ioctl(fd, c, a);
  K k; FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF);
  if (c == FIONBIO) { f->nonblock = *(int *)a != 0; return 0; }
  if (c == FIONREAD) { *(int *)a = f->kind == FileObj::TCP ? ((Tcp *)f)->rx.size() : f->kind == FileObj::PIPE_R ? ((PipeEnd *)f)->p->buf.size() : f->kind == FileObj::REG ? (int)(((RegFile *)f)->in->d.size() - ((RegFile *)f)->off) : 0; return 0; }
  if (c == SIOCGIFNAME || c == SIOCGIFADDR || c == SIOCGIFCONF) {
    struct ifreq *q = (struct ifreq *)a; auto &v = g_net_ifs();
    if (c == SIOCGIFNAME) { int i = q->ifr_ifindex; if (i < 1 || i > (int)v.size()) return k.ret(-ENODEV); snprintf(q->ifr_name, IFNAMSIZ, "if%d", i); return 0; }
    if (c == SIOCGIFCONF) return k.ret(-ENOTTY);
    int i = q->ifr_name[0] == 'i' && q->ifr_name[1] == 'f' ? atoi(q->ifr_name + 2) : 0; if (i < 1 || i > (int)v.size()) return k.ret(-ENODEV); if (v[i - 1].empty()) return k.ret(-EADDRNOTAVAIL);
    struct sockaddr_in *s = (struct sockaddr_in *)&q->ifr_addr; memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_addr.s_addr = inet_addr(v[i - 1].c_str()); return 0;
  }
  return k.ret(-ENOTTY);
}
static int mk_pipe(K &k, int *fds, int fl) {
  auto p = std::make_shared<Pipe>(); p->cap = 65536; if (fault(FT_pipe_small)) p->cap = 4096;
  PipeEnd *r = new PipeEnd, *w = new PipeEnd; r->kind = FileObj::PIPE_R; w->kind = FileObj::PIPE_W; r->p = w->p = p; r->nonblock = w->nonblock = fl & O_NONBLOCK;
  int a = fd_alloc(r); if (a < 0) return k.ret(a); int b = fd_alloc(w); if (b < 0) { fd_close(a); return k.ret(b); }
  fds[0] = a; fds[1] = b; return 0;
}
WRAP(int, pipe, (int *f), (f)) K k; return mk_pipe(k, f, 0); END
WRAP(int, pipe2, (int *f, int fl), (f, fl)) K k; return mk_pipe(k, f, fl); END
WRAP(int, eventfd, (unsigned v, int fl), (v, fl)) K k; EventFd *e = new EventFd; e->v = v; e->nonblock = fl & EFD_NONBLOCK; e->sema = fl & EFD_SEMAPHORE; return k.ret(fd_alloc(e)); END
WRAP(int, eventfd_write, (int fd, eventfd_t v), (fd, v)) K k; uint64_t x = v; long r = do_io(k, fd, true, 0, 0, [&](FileObj *f) { return f->write((char *)&x, 8, 0); }); return r == 8 ? 0 : -1; END
WRAP(int, eventfd_read, (int fd, eventfd_t *v), (fd, v)) K k; uint64_t x = 0; long r = do_io(k, fd, false, 0, 0, [&](FileObj *f) { return f->read((char *)&x, 8); }); if (r == 8) *v = x; return r == 8 ? 0 : -1; END
WRAP(int, timerfd_create, (int c, int fl), (c, fl)) K k; TimerFd *e = new TimerFd; e->nonblock = fl & TFD_NONBLOCK; e->real = c == CLOCK_REALTIME; return k.ret(fd_alloc(e)); END
WRAP(int, timerfd_settime, (int fd, int fl, const struct itimerspec *n, struct itimerspec *o), (fd, fl, n, o)) K k; FileObj *f = fd_get(fd); if (!f || f->kind != FileObj::TIMERFD) return k.ret(-EBADF); TimerFd *t = (TimerFd *)f; ns_t v = ts_ns(&n->it_value); t->interval = ts_ns(&n->it_interval); t->next = v ? ((fl & TFD_TIMER_ABSTIME) ? (t->real ? v - g_wall_off : v) : g_now + v) : 0; if (t->next) at(t->next, [] {}); return 0; END

// ---------------------------------------------------------------- epoll, select, poll
WRAP(int, epoll_create, (int n), (n)) K k; if (n <= 0) return k.ret(-EINVAL); return k.ret(fd_alloc(new Epoll)); END
WRAP(int, epoll_create1, (int fl), (fl)) K k; return k.ret(fd_alloc(new Epoll)); END
WRAP(int, epoll_ctl, (int ep, int op, int fd, struct epoll_event *evp), (ep, op, fd, evp)) K k; sys("epoll_ctl"); FileObj *f = fd_get(ep); if (!f || f->kind != FileObj::EPOLL) return k.ret(-EBADF); int r = epoll_ctl_k((Epoll *)f, op, fd, evp); ev("epoll_ctl op=%d fd=%d ev=%x -> %d", op, fd, evp ? evp->events : 0, r); return k.ret(r); END
static int do_epoll_wait(K &k, int ep, struct epoll_event *o, int max, int ms) {
  sys("epoll_wait");  cancel_point(); g_cur->run_accesses = 0;
  FileObj *f = fd_get(ep); if (!f || f->kind != FileObj::EPOLL) return k.ret(-EBADF);
  if (max <= 0) return k.ret(-EINVAL);
  if (fault(FT_epoll_eintr)) return k.ret(-EINTR);
  Epoll *e = (Epoll *)f; ns_t dl; msec_deadline(ms, dl);
  while (true) {
    reeval();
    pending_signals();
    int n = e->collect(o, max, true);
    if (n) { for (int i = 0; i < n; i++) ev("epoll event fd=%d ev=%x", (int)o[i].data.fd, o[i].events); return n; }
    if (g_now >= dl) return 0;
    bool ok = wait_io([e] { return e->collect(nullptr, 1, false) > 0 || !g_pending.empty(); }, dl);
    if (!g_pending.empty()) { pending_signals(); return k.ret(-EINTR); }
    if (fd_get(ep) != f) return k.ret(-EBADF);
    if (!ok && g_now >= dl) { int m = e->collect(o, max, true); return m; }
  }
}
WRAP(int, epoll_wait, (int ep, struct epoll_event *o, int max, int ms), (ep, o, max, ms)) h_check(o, sizeof(*o) * (max > 0 ? max : 1), true); K k; return do_epoll_wait(k, ep, o, max, ms); END
WRAP(int, epoll_pwait, (int ep, struct epoll_event *o, int max, int ms, const sigset_t *s), (ep, o, max, ms, s)) K k; return do_epoll_wait(k, ep, o, max, ms); END
static int poll_once(struct pollfd *p, nfds_t n) {
  int c = 0;
  for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; FileObj *f = fd_get(p[i].fd); if (!f) { p[i].revents = POLLNVAL; c++; continue; } uint32_t m = f->poll(); p[i].revents = m & (p[i].events | POLLERR | POLLHUP); if (p[i].revents) c++; }
  return c;
}
static int do_poll(K &k, struct pollfd *p, nfds_t n, ns_t dl) {
  sys("poll"); cancel_point(); g_cur->run_accesses = 0;
  if (fault(FT_signal_intr)) return k.ret(-EINTR);
  reeval();
  int c = poll_once(p, n); if (c) return c;
  if (g_now >= dl) return 0;
  wait_io([p, n] { return poll_once(p, n) > 0 || !g_pending.empty(); }, dl);
  if (!g_pending.empty()) { pending_signals(); return k.ret(-EINTR); }
  return poll_once(p, n);
}
WRAP(int, poll, (struct pollfd * p, nfds_t n, int ms), (p, n, ms)) K k; ns_t dl; msec_deadline(ms, dl); return do_poll(k, p, n, dl); END
WRAP(int, ppoll, (struct pollfd * p, nfds_t n, const struct timespec *t, const sigset_t *s), (p, n, t, s)) K k; return do_poll(k, p, n, t ? g_now + ts_ns(t) : FOREVER); END
static int do_select(K &k, int nf, fd_set *r, fd_set *w, fd_set *x, ns_t dl) {
  sys("select"); cancel_point(); g_cur->run_accesses = 0;
  if (nf > FD_SETSIZE) return k.ret(-EINVAL);
  if (fault(FT_signal_intr)) return k.ret(-EINTR);
  fd_set R, Wd, X, ro, wo, xo; FD_ZERO(&R); FD_ZERO(&Wd); FD_ZERO(&X); if (r) R = *r; if (w) Wd = *w; if (x) X = *x;
  bool bad = false;
  auto chk = [&]() -> int {
    int c = 0; FD_ZERO(&ro); FD_ZERO(&wo); FD_ZERO(&xo);
    for (int i = 0; i < nf; i++) {
      bool a = r && FD_ISSET(i, &R), b = w && FD_ISSET(i, &Wd), d = x && FD_ISSET(i, &X); if (!a && !b && !d) continue;
      FileObj *f = fd_get(i); if (!f) { bad = true; return 1; }
      uint32_t m = f->poll();
      if (a && (m & (EPOLLIN | EPOLLHUP | EPOLLERR))) { FD_SET(i, &ro); c++; }
      if (b && (m & (EPOLLOUT | EPOLLERR))) { FD_SET(i, &wo); c++; }
    }
    return c; };
  reeval();
  int c = chk();
  if (!c && g_now < dl) { wait_io([&] { return chk() > 0 || !g_pending.empty(); }, dl); if (!g_pending.empty()) { pending_signals(); return k.ret(-EINTR); } c = chk(); }
  if (bad) return k.ret(-EBADF);
  if (r) *r = ro; if (w) *w = wo; if (x) *x = xo;
  return c;
}
WRAP(int, select, (int nf, fd_set *r, fd_set *w, fd_set *x, struct timeval *t), (nf, r, w, x, t)) K k; ns_t dl = FOREVER; if (t) { if (t->tv_sec < 0 || t->tv_usec < 0) return k.ret(-EINVAL); dl = g_now + (ns_t)t->tv_sec * SEC + (ns_t)t->tv_usec * US; } int c = do_select(k, nf, r, w, x, dl); if (t && dl != FOREVER) { ns_t left = dl > g_now ? dl - g_now : 0; t->tv_sec = left / SEC; t->tv_usec = left % SEC / 1000; } return c; END
WRAP(int, pselect, (int nf, fd_set *r, fd_set *w, fd_set *x, const struct timespec *t, const sigset_t *s), (nf, r, w, x, t, s)) K k; return do_select(k, nf, r, w, x, t ? g_now + ts_ns(t) : FOREVER); END

// ---------------------------------------------------------------- sockets
WRAP(int, socket, (int d, int t, int p), (d, t, p)) K k; sys("socket"); if (d != AF_INET) return k.ret(-EAFNOSUPPORT); if (fault(FT_sock_fail)) return k.ret(draw(F, 2) ? -EMFILE : -ENOBUFS);
  FileObj *f; if ((t & 0xf) == SOCK_STREAM) f = new Tcp; else if ((t & 0xf) == SOCK_DGRAM) f = new Udp; else return k.ret(-EPROTONOSUPPORT);
  f->nonblock = t & SOCK_NONBLOCK; int fd = fd_alloc(f); if (fd < 0) fault_count(FT_fd_limit); ev("socket fd=%d", fd); return k.ret(fd); END
WRAP(int, bind, (int fd, const struct sockaddr *a, socklen_t l), (fd, a, l)) K k; FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF); return k.ret(sys_bind(f, fd, (const sockaddr_in *)a)); END
WRAP(int, listen, (int fd, int b), (fd, b)) K k; FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF); return sys_listen(f, b) ? 0 : k.ret(-EOPNOTSUPP); END
static int do_accept(K &k, int fd, struct sockaddr *a, socklen_t *l, int fl) {
  sockaddr_in sa; int r = do_io(k, fd, false, 0, 0, [&](FileObj *f) -> ssize_t { return sys_accept(f, &sa); });
  if (r < 0 && (k.e == EMFILE || k.e == ENFILE)) g_now += 100 * US; // a loop that finds no descriptor for a pending connection spins; let the time pass
  if (r >= 0) { sa.sin_family = AF_INET; memset(sa.sin_zero, 0, 8); if (a && l) { memcpy(a, &sa, std::min<size_t>(*l, sizeof sa)); *l = sizeof sa; } fd_get(r)->nonblock = fl & SOCK_NONBLOCK; }
  return r;
}
WRAP(int, accept, (int fd, struct sockaddr *a, socklen_t *l), (fd, a, l)) K k; return do_accept(k, fd, a, l, 0); END
WRAP(int, accept4, (int fd, struct sockaddr *a, socklen_t *l, int fl), (fd, a, l, fl)) K k; return do_accept(k, fd, a, l, fl); END
WRAP(int, connect, (int fd, const struct sockaddr *a, socklen_t l), (fd, a, l)) K k; sys("connect"); cancel_point(); FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF);
  int r = sys_connect(f, (const sockaddr_in *)a);
  ev("connect fd=%d port=%u -> %d", fd, ntohs(((const sockaddr_in *)a)->sin_port), r);
  if (r == -EINPROGRESS && !f->nonblock) { Tcp *t = (Tcp *)f; wait_io([t] { return t->st != Tcp::CONNECTING; }, t->sndtimeo ? g_now + t->sndtimeo : FOREVER); if (t->st == Tcp::ESTAB) return 0; if (t->st == Tcp::CONNECTING) return k.ret(-EINPROGRESS); int e = t->so_error ? t->so_error : ECONNREFUSED; t->so_error = 0; return k.ret(-e); }
  return k.ret(r); END
WRAP(int, shutdown, (int fd, int how), (fd, how)) K k; sys("shutdown"); FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF); if (f->kind != FileObj::TCP) return k.ret(-ENOTSOCK); if (((Tcp *)f)->st != Tcp::ESTAB) return k.ret(-ENOTCONN); tcp_shutdown((Tcp *)f, how); return 0; END
WRAP(int, setsockopt, (int fd, int lv, int o, const void *v, socklen_t l), (fd, lv, o, v, l)) K k; FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF);
  if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO)) { const struct timeval *t = (const struct timeval *)v; ns_t d = (ns_t)t->tv_sec * SEC + t->tv_usec * US; if (f->kind == FileObj::TCP) { if (o == SO_RCVTIMEO) ((Tcp *)f)->rcvtimeo = d; else ((Tcp *)f)->sndtimeo = d; } else if (f->kind == FileObj::UDP && o == SO_RCVTIMEO) ((Udp *)f)->rcvtimeo = d; }
  return 0; END
WRAP(int, getsockopt, (int fd, int lv, int o, void *v, socklen_t *l), (fd, lv, o, v, l)) K k; FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF); int val = 0;
  if (lv == SOL_SOCKET && o == SO_ERROR) { if (f->kind == FileObj::TCP) { val = ((Tcp *)f)->so_error; ((Tcp *)f)->so_error = 0; } else if (f->kind == FileObj::UDP) { val = ((Udp *)f)->so_error; ((Udp *)f)->so_error = 0; } }
  else if (lv == SOL_SOCKET && o == SO_TYPE) val = f->kind == FileObj::UDP ? SOCK_DGRAM : SOCK_STREAM; else if (lv == SOL_SOCKET && (o == SO_SNDBUF || o == SO_RCVBUF)) val = 65536;
  if (v && l && *l >= 4) { *(int *)v = val; *l = 4; } return 0; END
static int name_of(K &k, int fd, struct sockaddr *a, socklen_t *l, bool rem) { FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF); sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; if (f->kind == FileObj::TCP) { Tcp *t = (Tcp *)f; if (rem && t->st != Tcp::ESTAB) return k.ret(-ENOTCONN); s = rem ? t->raddr : t->laddr; } else if (f->kind == FileObj::LISTEN) s.sin_port = htons(((Listener *)f)->port); else if (f->kind == FileObj::UDP) { if (rem) { if (!((Udp *)f)->connected) return k.ret(-ENOTCONN); s = ((Udp *)f)->remote; } else s.sin_port = htons(((Udp *)f)->port); } s.sin_family = AF_INET; memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; return 0; }
WRAP(int, getsockname, (int fd, struct sockaddr *a, socklen_t *l), (fd, a, l)) K k; return name_of(k, fd, a, l, false); END
WRAP(int, getpeername, (int fd, struct sockaddr *a, socklen_t *l), (fd, a, l)) K k; return name_of(k, fd, a, l, true); END
WRAP(char *, inet_ntoa, (struct in_addr a), (a)) K k; inet_ntop(AF_INET, &a, g_cur->ntoa, sizeof g_cur->ntoa); return g_cur->ntoa; END

// ================================================================ files
struct SimFile { int fd; bool eof, err; std::string wb; };
static std::map<void *, SimFile *> g_files;
static SimFile *simf(FILE *f) { if (g_files.empty()) return nullptr; auto it = g_files.find((void *)f); return it == g_files.end() ? nullptr : it->second; }
static int mode_flags(const char *m) { int fl = 0; bool plus = strchr(m, '+'); switch (m[0]) { case 'r': fl = plus ? O_RDWR : O_RDONLY; break; case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break; default: fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; } return fl; }
static FILE *do_fopen(const char *p, const char *m) { K k; sys("fopen"); cancel_point(); int fd = fs_open(p, mode_flags(m)); if (fd < 0) { k.e = -fd; return nullptr; } SimFile *s = new SimFile{fd, false, false, ""}; g_files[s] = s; return (FILE *)s; }
WRAP(FILE *, fopen, (const char *p, const char *m), (p, m)) return do_fopen(p, m); END
WRAP(FILE *, fopen64, (const char *p, const char *m), (p, m)) return do_fopen(p, m); END
WRAP(FILE *, fdopen, (int fd, const char *m), (fd, m)) K k; if (!fd_get(fd)) { k.e = EBADF; return nullptr; } SimFile *s = new SimFile{fd, false, false, ""}; g_files[s] = s; return (FILE *)s; END
static int raw_write(K &k, SimFile *s, const char *b, size_t n) { size_t o = 0; FileObj *f = fd_get(s->fd); if (!f) { k.e = EBADF; s->err = true; return -1; } while (o < n) { ssize_t r = f->write(b + o, n - o, 0); if (r <= 0) { k.e = r ? -r : EIO; s->err = true; return -1; } o += r; } return 0; }
static int sflush(K &k, SimFile *s) { if (s->wb.empty()) return 0; std::string b; b.swap(s->wb); return raw_write(k, s, b.data(), b.size()); }
#define SFW(ret, name, params, call, fp) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params; extern "C" ret __wrap_##name params { SimFile *s = (g_active && !g_files.empty()) ? simf(fp) : nullptr; if (!s) return __real_##name call; K k;
SFW(int, fclose, (FILE * f), (f), f) sys("fclose"); int r = sflush(k, s); fd_close(s->fd); ev("fclose fd=%d", s->fd); g_files.erase((void *)s); delete s; return r ? EOF : 0; END
SFW(int, fflush, (FILE * f), (f), f) sys("fflush"); return sflush(k, s) ? EOF : 0; END
SFW(int, fileno, (FILE * f), (f), f) return s->fd; END
SFW(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f), f) h_check(p, a * b, false); sys("fwrite"); s->wb.append((const char *)p, a * b); if (s->wb.size() >= 4096 && sflush(k, s)) return 0; return b; END
SFW(int, fputs, (const char *p, FILE *f), (p, f), f) s->wb.append(p); if (s->wb.size() >= 4096 && sflush(k, s)) return EOF; return 1; END
SFW(int, fputc, (int c, FILE *f), (c, f), f) s->wb.push_back(c); return c; END
SFW(size_t, fread, (void *p, size_t a, size_t b, FILE *f), (p, a, b, f), f) sys("fread"); FileObj *o = fd_get(s->fd); size_t n = 0; while (n < a * b) { ssize_t r = o ? o->read((char *)p + n, a * b - n) : -EBADF; if (r <= 0) { if (r) { k.e = -r; s->err = true; } else s->eof = true; break; } n += r; } return n / (a ? a : 1); END
SFW(char *, fgets, (char *b, int n, FILE *f), (b, n, f), f) sys("fgets"); FileObj *o = fd_get(s->fd); int i = 0; while (i + 1 < n) { char c; ssize_t r = o->read(&c, 1); if (r < 0) { k.e = -r; s->err = true; return nullptr; } if (!r) { s->eof = true; break; } b[i++] = c; if (c == '\n') break; } if (!i) return nullptr; b[i] = 0; return b; END
static int sgetc(K &k, SimFile *s) { FileObj *o = fd_get(s->fd); unsigned char c; ssize_t r = o ? o->read((char *)&c, 1) : -EBADF; if (r < 0) { k.e = -r; s->err = true; return EOF; } if (!r) { s->eof = true; return EOF; } return c; }
SFW(int, fgetc, (FILE * f), (f), f) return sgetc(k, s); END
SFW(int, getc, (FILE * f), (f), f) return sgetc(k, s); END
static ssize_t sgetdelim(K &k, SimFile *s, char **b, size_t *n, int d) { std::string l; int c; while ((c = sgetc(k, s)) != EOF) { l += (char)c; if (c == d) break; } if (s->err || l.empty()) return -1; if (!*b || *n < l.size() + 1) { *b = (char *)realloc(*b, *n = l.size() + 1); } memcpy(*b, l.c_str(), l.size() + 1); return l.size(); }
SFW(ssize_t, getline, (char **b, size_t *n, FILE *f), (b, n, f), f) sys("fgets"); return sgetdelim(k, s, b, n, '\n'); END
SFW(ssize_t, getdelim, (char **b, size_t *n, int d, FILE *f), (b, n, d, f), f) sys("fgets"); return sgetdelim(k, s, b, n, d); END
SFW(ssize_t, __getdelim, (char **b, size_t *n, int d, FILE *f), (b, n, d, f), f) sys("fgets"); return sgetdelim(k, s, b, n, d); END
SFW(int, feof, (FILE * f), (f), f) return s->eof; END
SFW(int, ferror, (FILE * f), (f), f) return s->err; END
SFW(void, clearerr, (FILE * f), (f), f) s->err = s->eof = false; END
SFW(int, fseek, (FILE * f, long o, int w), (f, o, w), f) sflush(k, s); RegFile *r = (RegFile *)fd_get(s->fd); r->off = w == SEEK_SET ? o : w == SEEK_CUR ? r->off + o : r->in->d.size() + o; s->eof = false; return 0; END
SFW(long, ftell, (FILE * f), (f), f) RegFile *r = (RegFile *)fd_get(s->fd); return (r->append && !s->wb.empty() ? r->in->d.size() : r->off) + s->wb.size(); END
SFW(void, rewind, (FILE * f), (f), f) sflush(k, s); ((RegFile *)fd_get(s->fd))->off = 0; END
SFW(int, setvbuf, (FILE * f, char *b, int m, size_t n), (f, b, m, n), f) return 0; END
SFW(int, vfprintf, (FILE * f, const char *fmt, va_list ap), (f, fmt, ap), f) char b[8192]; int n = vsnprintf(b, sizeof b, fmt, ap); s->wb.append(b, std::min<int>(n, sizeof b - 1)); if (s->wb.size() >= 4096 && sflush(k, s)) return -1; return n; END
extern "C" int __wrap_fprintf(FILE *f, const char *fmt, ...); extern "C" int __wrap_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vfprintf(f, fmt, ap); va_end(ap); return r; }
extern "C" int __real_open(const char *, int, ...); extern "C" int __wrap_open(const char *p, int fl, ...);
static int do_open(const char *p, int fl) { K k; sys("open"); cancel_point(); return k.ret(fs_open(p, fl)); }
extern "C" int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (!user()) return __real_open(p, fl, m); return do_open(p, fl); }
extern "C" int __real_open64(const char *, int, ...); extern "C" int __wrap_open64(const char *p, int fl, ...);
extern "C" int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (!user()) return __real_open64(p, fl, m); return do_open(p, fl); }
static off_t do_lseek(int fd, off_t o, int w) { K k; FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF); if (f->kind != FileObj::REG) return k.ret(-ESPIPE); RegFile *r = (RegFile *)f; off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? r->off : r->in->d.size(); if (b + o < 0) return k.ret(-EINVAL); r->off = b + o; return r->off; }
WRAP(off_t, lseek, (int fd, off_t o, int w), (fd, o, w)) return do_lseek(fd, o, w); END
WRAP(off_t, lseek64, (int fd, off_t o, int w), (fd, o, w)) return do_lseek(fd, o, w); END
WRAP(int, fsync, (int fd), (fd)) K k; sys("fsync"); if (!g_fs_ok || fault(FT_disk_eio)) return k.ret(-EIO); return 0; END
WRAP(int, fdatasync, (int fd), (fd)) K k; sys("fsync"); if (!g_fs_ok || fault(FT_disk_eio)) return k.ret(-EIO); return 0; END
static int do_ftruncate(int fd, off_t n) { K k; FileObj *f = fd_get(fd); if (!f || f->kind != FileObj::REG) return k.ret(-EBADF); ((RegFile *)f)->in->d.resize(n); return 0; }
WRAP(int, ftruncate, (int fd, off_t n), (fd, n)) return do_ftruncate(fd, n); END
WRAP(int, ftruncate64, (int fd, off_t n), (fd, n)) return do_ftruncate(fd, n); END
static std::string npath(const char *p) { std::string r; for (; *p; p++) { if (*p == '/' && !r.empty() && r.back() == '/') continue; r += *p; } while (r.compare(0, 2, "./") == 0) r.erase(0, 2); return r; }
template <class ST> static int do_stat(K &k, const char *p, ST *st) { sys("stat"); auto it = g_fs.find(npath(p)); if (it == g_fs.end()) return k.ret(-ENOENT); memset(st, 0, sizeof *st); st->st_size = it->second->d.size(); st->st_mode = S_IFREG | 0644; st->st_ino = it->second->ino; st->st_nlink = 1; st->st_dev = 1; return 0; }
template <class ST> static int do_fstat(K &k, int fd, ST *st) { FileObj *f = fd_get(fd); if (!f) return k.ret(-EBADF); memset(st, 0, sizeof *st); if (f->kind == FileObj::REG) { RegFile *r = (RegFile *)f; st->st_size = r->in->d.size(); st->st_mode = S_IFREG | 0644; st->st_ino = r->in->ino; bool linked = false; for (auto &e : g_fs) if (e.second == r->in) linked = true; st->st_nlink = linked; st->st_dev = 1; } else st->st_mode = S_IFSOCK; return 0; }
WRAP(int, stat, (const char *p, struct stat *st), (p, st)) K k; return do_stat(k, p, st); END
WRAP(int, lstat, (const char *p, struct stat *st), (p, st)) K k; return do_stat(k, p, st); END
WRAP(int, stat64, (const char *p, struct stat64 *st), (p, st)) K k; return do_stat(k, p, st); END
WRAP(int, lstat64, (const char *p, struct stat64 *st), (p, st)) K k; return do_stat(k, p, st); END
WRAP(int, fstat, (int fd, struct stat *st), (fd, st)) K k; return do_fstat(k, fd, st); END
WRAP(int, fstat64, (int fd, struct stat64 *st), (fd, st)) K k; return do_fstat(k, fd, st); END
WRAP(int, access, (const char *p, int m), (p, m)) K k; sys("access"); return g_fs.count(npath(p)) ? 0 : k.ret(-ENOENT); END
static uint64_t g_fs_removed; namespace sim { uint64_t fs_removed() { return g_fs_removed; } }
static int do_unlink(const char *p) { K k; sys("unlink"); auto it = g_fs.find(npath(p)); if (it == g_fs.end()) return k.ret(-ENOENT); if (!g_fs_ok || fault(FT_remove_fail)) return k.ret(-EACCES); ev("unlink %s", p); g_fs.erase(it); g_fs_removed++; return 0; }
WRAP(int, unlink, (const char *p), (p)) return do_unlink(p); END
WRAP(int, remove, (const char *p), (p)) return do_unlink(p); END
WRAP(int, rename, (const char *a, const char *b), (a, b)) K k; sys("rename"); auto it = g_fs.find(npath(a)); if (it == g_fs.end()) return k.ret(-ENOENT); if (!g_fs_ok || fault(FT_rename_fail)) return k.ret(-EACCES); ev("rename %s %s", a, b); auto in = it->second; g_fs.erase(it); auto &to = g_fs[npath(b)]; if (to) g_fs_removed++; to = in; return 0; END
WRAP(int, mkdir, (const char *p, mode_t m), (p, m)) return 0; END

// ================================================================ shared memory
namespace { struct Seg { key_t key; int id; size_t size; int fd; int nattch; bool rm; }; std::vector<Seg *> g_segs; struct Att { void *p; Seg *s; size_t len; }; std::vector<Att> g_atts;
Seg *seg_key(key_t k) { for (auto *s : g_segs) if (s->key == k && !s->rm) return s; return nullptr; }
Seg *seg_id(int i) { for (auto *s : g_segs) if (s->id == i) return s; return nullptr; } }
namespace sim {
void shm_crash_detach() { Kern k; for (auto &a : g_atts) { h_map_region(a.p, a.len, false); a.s->nattch--; } g_atts.clear(); }
std::string shm_peek(int key) { Kern k; Seg *s = seg_key(key); if (!s) return ""; std::string r(s->size, 0); if (pread(s->fd, &r[0], s->size, 0) < 0) r.clear(); return r; }
int shm_count() { return g_segs.size(); }
}
WRAP(int, shmget, (key_t key, size_t n, int fl), (key, n, fl)) K k; sys("shmget"); Seg *s = key == IPC_PRIVATE ? nullptr : seg_key(key);
  if (s) { if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) return k.ret(-EEXIST); if (n > s->size) return k.ret(-EINVAL); return s->id; }
  if (!(fl & IPC_CREAT) && key != IPC_PRIVATE) return k.ret(-ENOENT); if (n == 0) return k.ret(-EINVAL);
  if (fault(FT_shm_fail)) return k.ret(draw(F, 2) ? -ENOSPC : -ENOMEM);
  s = new Seg{key, (int)g_segs.size() + 100, n, (int)syscall(SYS_memfd_create, "seg", 0), 0, false}; if (syscall(SYS_ftruncate, s->fd, n)) internal_error("memfd"); g_segs.push_back(s); return s->id; END
WRAP(void *, shmat, (int id, const void *addr, int fl), (id, addr, fl)) K k; sys("shmat"); Seg *s = seg_id(id); if (!s) { k.e = EINVAL; return (void *)-1; } if (fault(FT_shm_fail)) { k.e = ENOMEM; return (void *)-1; }
  size_t len = (s->size + 4095) & ~4095ull; void *p = h_reserve(len);
  if (mmap(p, len, (fl & SHM_RDONLY) ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, s->fd, 0) != p) internal_error("shmat mmap");
  h_map_region(p, s->size, true); s->nattch++; g_atts.push_back(Att{p, s, len}); ev("shmat id=%d", id); return p; END
WRAP(int, shmdt, (const void *p), (p)) K k; sys("shmdt"); for (size_t i = 0; i < g_atts.size(); i++) if (g_atts[i].p == p) { h_map_region(g_atts[i].p, g_atts[i].len, false); g_atts[i].s->nattch--; g_atts.erase(g_atts.begin() + i); return 0; } return k.ret(-EINVAL); END
WRAP(int, shmctl, (int id, int c, struct shmid_ds *d), (id, c, d)) K k; sys("shmctl"); Seg *s = seg_id(id); if (!s) return k.ret(-EINVAL); if (c == IPC_RMID) { s->rm = true; return 0; } if (c == IPC_STAT) { memset(d, 0, sizeof *d); d->shm_segsz = s->size; d->shm_nattch = s->nattch; return 0; } return 0; END

// ================================================================ misc
extern "C" long __real_syscall(long, ...); extern "C" long __wrap_syscall(long n, ...);
extern "C" long __wrap_syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (!user()) return __real_syscall(n, a, b, c, d, e, f);
  if (n == SYS_gettid) return 1000 + g_cur->id;
  K k; if (n == SYS_futex) violate("internal-futex", "raw futex call in code under test"); return k.ret(-ENOSYS);
}
WRAP(pid_t, getpid, (void), ()) return 1000; END
WRAP(pid_t, fork, (void), ()) K k; k.e = ENOSYS; return -1; END
// names are not resolved: only numeric addresses are known
WRAP(int, getaddrinfo, (const char *h, const char *s, const struct addrinfo *q, struct addrinfo **r), (h, s, q, r)) K k; sys("getaddrinfo"); struct addrinfo a; memset(&a, 0, sizeof a); if (q) { a.ai_socktype = q->ai_socktype; a.ai_protocol = q->ai_protocol; a.ai_flags = q->ai_flags & AI_PASSIVE; } a.ai_family = AF_INET; a.ai_flags |= AI_NUMERICHOST | AI_NUMERICSERV; return __real_getaddrinfo(h, s, &a, r); END
WRAP(void, freeaddrinfo, (struct addrinfo * r), (r)) K k; __real_freeaddrinfo(r); END
WRAP(struct servent *, getservbyname, (const char *n, const char *p), (n, p)) return nullptr; END
WRAP(char *, getlogin, (void), ()) return nullptr; END
WRAP(struct passwd *, getpwuid, (uid_t u), (u)) return nullptr; END
WRAP(char *, getenv, (const char *n), (n)) return nullptr; END
WRAP(void *, dlopen, (const char *n, int f), (n, f)) return nullptr; END
