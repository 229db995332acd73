// Deterministic simulator: public interface for the workloads (harness side).
// Everything that can differ between two runs is decided by draw(); see DESIGN.md.
#ifndef LCE_SIM_H
#define LCE_SIM_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <deque>

namespace sim {

// ---------------------------------------------------------------- choices
enum Stream { W = 0 /*workload*/, S /*schedule*/, N /*network+io*/, F /*faults*/, NSTREAM };
uint32_t draw(Stream s, uint32_t n);                 // uniform in [0,n); 0 is the simplest value
uint32_t pick(Stream s, std::initializer_list<int> weights);
bool chance(Stream s, uint32_t num, uint32_t den);   // false is the simplest value
inline uint32_t range(Stream s, uint32_t lo, uint32_t hi) { return lo + draw(s, hi - lo + 1); }

// ---------------------------------------------------------------- faults
#define SIM_FAULTS(X) \
  X(net_split) X(net_delay) X(net_reset) X(short_send) X(send_eagain) X(short_recv) X(recv_eintr) \
  X(conn_refused) X(conn_timeout) X(conn_immediate) X(accept_abort) X(accept_emfile) X(fd_limit) \
  X(epoll_ctl_fail) X(epoll_eintr) X(epoll_reorder) X(epoll_partial) X(pipe_small) X(sock_small) \
  X(cond_spurious) X(thread_stall) X(thread_create_fail) X(preempt) X(clock_forward) X(clock_back) X(clock_align) \
  X(disk_enospc) X(disk_eio) X(disk_short) X(open_fail) X(rename_fail) X(remove_fail) \
  X(udp_loss) X(udp_dup) X(udp_reorder) X(proc_crash) X(peer_reset) X(peer_close) X(peer_stall) \
  X(peer_badpkg) X(mysql_gone) X(mysql_error) X(mysql_connect_fail) X(mysql_slow) X(shm_fail) X(sock_fail) X(lock_contended) \
  X(getsockopt_fail) X(handler_close) X(signal_intr) X(read_eio) X(read_short) X(read_open_fail) X(signal) X(epoll_ctl_pipe_fail)
enum Fault {
#define X(n) FT_##n,
  SIM_FAULTS(X)
#undef X
  NFAULT
};
void fault_rate(Fault f, uint32_t num, uint32_t den); // probability in this run (0 disables)
void fault_swarm(std::initializer_list<Fault> fs, uint32_t den_hi = 8); // each kind: off / rare / frequent, by draw(W)
bool fault(Fault f);                                  // draws; counts when it fires
void fault_count(Fault f);                            // a fault injected by other means
void faults_off();                                    // all network/disk/schedule faults stop
bool fault_enabled(Fault f);
uint64_t faults_fired(Fault f);

// ---------------------------------------------------------------- verdicts
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void inconclusive(const char *why);
[[noreturn]] void internal_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char *name);                         // "this rare condition was reached"
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // event log (hashed; text only when tracing)
void state_mark(uint64_t h);                          // an abstract state reached (distinct states measure)
void op_done(uint64_t n = 1);                         // checked operation counter

// ---------------------------------------------------------------- time
typedef uint64_t ns_t;
const ns_t US = 1000, MS = 1000 * US, SEC = 1000 * MS;
ns_t now();                                           // simulated monotonic time
uint64_t step();                                      // global event sequence number
int64_t wall_us();                                    // simulated wall clock, without advancing
void clock_jump(int64_t delta_ns);                    // moves the wall clock only
void set_wall(int64_t unix_sec);
int64_t some_midnight();                              // seconds; drawn from W
void at(ns_t t, const std::function<void()> &f);      // kernel event

// ---------------------------------------------------------------- fibers (simulated threads)
typedef int Fid;
Fid spawn(const char *name, const std::function<void()> &f);     // harness fiber
bool block(const std::function<bool()> &pred, ns_t deadline);    // true if pred became true
const ns_t FOREVER = ~0ull;
void sleep_for(ns_t d);
void yield();                                         // scheduling point
bool fiber_done(Fid f);
void wait_all(const std::vector<Fid> &v);
Fid self();
const char *fiber_name();
void kill_user_fibers();                              // simulated process crash: every thread but harness ones vanish
void kill_fiber(Fid f);                                // simulated death of one thread or process, wherever it is
int user_fibers_alive();
void set_preempt(uint32_t mean);                      // 0: no preemption between synchronisation points
void default_schedule();                              // swarm over preemption granularity and stalls
bool fiber_blocked(Fid f);
int fiber_count();

// user mode: code under test runs with simulated heap, syscalls and preemption
struct User { int saved; User(); ~User(); };
struct Kern { int saved; Kern(); ~Kern(); };          // harness callbacks called from code under test
#define U(expr) ([&]{ sim::User u__; return expr; }())

// ---------------------------------------------------------------- heap
uint64_t heap_mark();                                 // allocation serial
uint64_t heap_live_since(uint64_t mark, uint64_t *bytes = nullptr);
uint64_t heap_live();
uint64_t heap_live_big(uint64_t mark, uint64_t min_size, std::string *desc = nullptr); // live blocks of at least min_size
std::string heap_describe_live(uint64_t mark, int max);
void heap_fill(uint8_t b);
bool heap_owns(const void *p);

// ---------------------------------------------------------------- network (harness side)
struct Tcp;
Tcp *peer_connect(uint16_t port, ns_t timeout, uint32_t src_ip = 0, uint16_t src_port = 0); // NULL when refused
bool peer_connected(Tcp *t);
size_t peer_send(Tcp *t, const char *p, size_t n);    // bytes accepted now (may be 0)
bool peer_send_all(Tcp *t, const std::string &s, ns_t deadline); // false if connection died
int peer_recv(Tcp *t, std::string &out, size_t max, ns_t deadline); // >0 bytes, 0 FIN, -1 reset, -2 timeout
size_t peer_readable(Tcp *t);
bool peer_eof(Tcp *t);
bool peer_reset_seen(Tcp *t);
void peer_close(Tcp *t);
void peer_shutdown_wr(Tcp *t);
void peer_reset(Tcp *t);
uint16_t peer_port(Tcp *t);                           // local port of the harness end
void tcp_caps(Tcp *t, size_t snd, size_t rcv);        // harness end's buffer capacities (both directions' windows)
struct Listener;
Listener *peer_listen(uint16_t port, uint32_t ip = 0); // 0: this machine
Tcp *peer_accept(Listener *l, ns_t deadline);
void listener_mode(Listener *l, int mode);            // 0 accept, 1 refuse, 2 blackhole
struct UdpPeer;
UdpPeer *udp_peer(uint16_t port, const char *ip = nullptr); // a harness host's UDP socket
void udp_peer_send(UdpPeer *u, uint16_t dport, const std::string &d, const char *dip = nullptr);
bool udp_peer_recv(UdpPeer *u, std::string &d, uint16_t &sport, ns_t deadline, std::string *sip = nullptr);
struct UdpArrival { std::string ip; uint16_t port; std::string data; };
size_t udp_arrivals(uint16_t port);                   // datagrams the kernel has queued for the socket bound to a port (since it was bound)
UdpArrival udp_arrival(uint16_t port, size_t i);
uint16_t udp_port_of(int fd);
uint16_t udp_bound_by(Fid f);                         // local port of the UDP socket a thread bound last
uint64_t udp_sent_count();                            // datagrams the calling thread has sent
struct NetCfg { size_t sndbuf, rcvbuf; ns_t lat_min, lat_jit; int fd_max; int fd_floor; std::vector<std::string> ifs; }; // fd_floor: as if all lower descriptors were in use; ifs: addresses of the machine's network interfaces (empty string: none assigned)
NetCfg &net();
int fds_open();                                       // descriptors open in the simulated process
std::string fds_describe();
void close_all_fds();                                 // process crash
bool fd_is_open(int fd);
uint64_t fd_generation(int fd);
int fd_of_peer(Tcp *t);                               // descriptor holding the other end, -1 if none
int listening_ports();
// the code-under-test end of the connection whose remote port is given (latest one)
struct TcpInfo { bool exists, estab, closed, rst; int fd; uint64_t sent, recv; };
TcpInfo tcp_info(uint16_t remote_port);
size_t tcp_queue_capacity();                          // upper bound of bytes on their way in one direction
// ---------------------------------------------------------------- shared memory
void shm_crash_detach();                              // the process's attachments vanish (contents stay)
std::string shm_peek(int key);
int shm_count();

// ---------------------------------------------------------------- disk
bool fs_exists(const std::string &p);
std::string fs_read(const std::string &p);
void fs_write(const std::string &p, const std::string &d); // as a new file, moved into place
void fs_delete(const std::string &p);
std::vector<std::string> fs_list(const std::string &prefix);
void fs_capacity(uint64_t bytes);                     // ENOSPC beyond
void run_limits(uint64_t accesses, int cpu_s);           // for runs that must be long
uint64_t calls();                                     // simulated calls made so far
uint64_t fs_used();
void fs_writable(bool ok);                            // false: every write/open fails (EIO)
uint64_t fs_removed();                                // files removed or overwritten by a rename so far
uint64_t fs_inode(const std::string &p);              // identity that survives rename
// ---------------------------------------------------------------- misc
int threads_created();
int threads_unreleased();                             // ended, neither joined nor detached
void sig_deliver(int sig);                            // pending signal for the simulated process, handled wherever it happens to be
void signal_source(const std::vector<int> &sigs);     // what the fault kind `signal` sends
uint64_t sig_handled(int sig);                        // calls of the process's handler so far
bool sig_is_pending(int sig);
bool sig_installed(int sig);                          // the process has a handler for it
uint64_t trace_hash();

// ---------------------------------------------------------------- scenario registry
struct Scenario { const char *name; const char *prop; int weight; std::function<void()> fn; };
void register_scenario(const Scenario &s);
struct Reg { Reg(const char *name, const char *prop, int w, const std::function<void()> &f) { register_scenario(Scenario{name, prop, w, f}); } };
#define SCENARIO(prop, name, w) static void scen_##name(); static sim::Reg reg_##name(#name, prop, w, scen_##name); static void scen_##name()

} // namespace sim
#endif
