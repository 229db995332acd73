#ifndef LCE_KERNEL_H
#define LCE_KERNEL_H
#include "simk.h"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <memory>
#include <set>

namespace sim {
struct FileObj {
  enum Kind { TCP, UDP, PIPE_R, PIPE_W, EVENTFD, EPOLL, REG, LISTEN, TIMERFD, NULLDEV } kind;
  int refs = 0; bool nonblock = false; bool append = false; bool can_rd = true, can_wr = true;
  uint64_t seq = 0; // bumped on state changes (edge triggering)
  virtual ~FileObj() {}
  virtual uint32_t poll() { return EPOLLIN | EPOLLOUT; }
  virtual ssize_t read(char *, size_t) { return -EINVAL; }   // negative errno; -EAGAIN means would block
  virtual ssize_t write(const char *, size_t, int flags) { return -EINVAL; }
  virtual void closed() {}                                    // last reference gone
};

struct Listener;
struct Tcp : FileObj {
  int id; Tcp *peer = nullptr;
  enum St { FRESH, CONNECTING, ESTAB, DEAD } st = FRESH;
  bool harness = false, app_closed = false, est_ever = false;
  std::string rx; bool rx_fin = false, rst = false, wr_shut = false, rd_shut = false; int so_error = 0;
  size_t inflight = 0;                 // bytes sent, not yet arrived at the peer
  size_t sndcap, rcvcap; ns_t last_arrival = 0; ns_t lat;
  uint64_t sent_total = 0, recv_total = 0;
  sockaddr_in laddr, raddr; bool bound = false;
  ns_t rcvtimeo = 0, sndtimeo = 0;
  Tcp();
  uint32_t poll() override; ssize_t read(char *, size_t) override; ssize_t write(const char *, size_t, int) override; void closed() override;
  size_t room();
  void abort_conn();
};
struct Listener : FileObj {
  uint16_t port = 0; uint32_t ip = 0; std::deque<Tcp *> q; bool harness = false; int mode = 0; size_t backlog = 128; bool open = true;
  Listener() { kind = LISTEN; }
  uint32_t poll() override; void closed() override;
};
struct Dgram { std::string d; sockaddr_in from; };
struct Udp : FileObj {
  uint16_t port = 0; uint32_t ip = 0; std::deque<Dgram> q; std::vector<Dgram> log; size_t qbytes = 0; sockaddr_in remote; bool connected = false, harness = false; int so_error = 0; ns_t rcvtimeo = 0;
  Udp() { kind = UDP; memset(&remote, 0, sizeof remote); }
  uint32_t poll() override; void closed() override;
  ssize_t sendto(const char *, size_t, const sockaddr_in *); ssize_t recvfrom(char *, size_t, sockaddr_in *, int flags);
  ssize_t read(char *b, size_t n) override { return recvfrom(b, n, nullptr, 0); }
  ssize_t write(const char *b, size_t n, int) override { return sendto(b, n, nullptr); }
};
struct UdpPeer { Udp u; };
struct Pipe { std::string buf; size_t cap; bool r_open = true, w_open = true; };
struct PipeEnd : FileObj { std::shared_ptr<Pipe> p; uint32_t poll() override; ssize_t read(char *, size_t) override; ssize_t write(const char *, size_t, int) override; void closed() override; };
struct EventFd : FileObj { uint64_t v = 0; bool sema = false; EventFd() { kind = EVENTFD; } uint32_t poll() override; ssize_t read(char *, size_t) override; ssize_t write(const char *, size_t, int) override; };
struct TimerFd : FileObj { ns_t next = 0, interval = 0; bool real = false; TimerFd() { kind = TIMERFD; } uint64_t expired(); uint32_t poll() override; ssize_t read(char *, size_t) override; };
struct Inode { uint64_t ino; std::string d; };
struct RegFile : FileObj { std::shared_ptr<Inode> in; size_t off = 0; std::string path; RegFile() { kind = REG; } uint32_t poll() override { return EPOLLIN | EPOLLOUT; } ssize_t read(char *, size_t) override; ssize_t write(const char *, size_t, int) override; };
struct NullDev : FileObj { NullDev() { kind = NULLDEV; } ssize_t read(char *, size_t) override { return 0; } ssize_t write(const char *, size_t n, int) override { return n; } };
struct Epoll : FileObj {
  struct R { FileObj *f; int fd; uint32_t events; epoll_data_t data; uint64_t seen; bool disabled; uint64_t order; };
  std::vector<R> regs; uint64_t ord = 0;
  Epoll() { kind = EPOLL; }
  uint32_t poll() override;
  int collect(struct epoll_event *out, int max, bool take);
};

struct FdEnt { FileObj *f = nullptr; uint64_t gen = 0; bool cloexec = false; };
extern std::vector<FdEnt> g_fds;
FileObj *fd_get(int fd);
int fd_alloc(FileObj *f);            // -EMFILE
int fd_close(int fd);
int fd_dup(int fd, int min);
extern std::map<std::string, std::shared_ptr<Inode>> g_fs;
extern uint64_t g_fs_cap; extern bool g_fs_ok;
int fs_open(const char *path, int flags);
Listener *find_listener(uint16_t port);
Listener *find_listener(uint16_t port, uint32_t ip);
int sys_connect(FileObj *f, const sockaddr_in *a);
int sys_accept(FileObj *f, sockaddr_in *a);
int sys_bind(FileObj *&f, int fd, const sockaddr_in *a);
FileObj *sys_listen(FileObj *f, int backlog);
int epoll_ctl_k(Epoll *e, int op, int fd, struct epoll_event *ev);
bool wait_io(const std::function<bool()> &pred, ns_t deadline); // with cancellation; false on timeout
void tcp_shutdown(Tcp *t, int how);
}
#endif
