// The simulated operating system: descriptors, TCP, UDP, epoll, pipes, eventfd, files.
#include "kernel.h"
#include <stdio.h>
#include <algorithm>
#include <limits.h>

namespace sim {
std::vector<FdEnt> g_fds;
static NetCfg g_net = {65536, 65536, 50 * US, 200 * US, 1024};
NetCfg &net() { return g_net; }
static uint64_t g_gen = 0;
static int g_tcp_id = 0;
static std::vector<Listener *> g_listeners;
static std::vector<Udp *> g_udps;
static std::vector<Epoll *> g_epolls;
static uint16_t g_eph = 40000;
static std::map<uint16_t, Tcp *> g_by_rport;

FileObj *fd_get(int fd) {
  if (fd < 0 || (size_t)fd >= g_fds.size()) return nullptr;
  return g_fds[fd].f;
}
static void init_std() { if (g_fds.empty()) for (int i = 0; i < 3; i++) { FdEnt e; e.f = new NullDev; e.f->refs = 1; e.gen = ++g_gen; g_fds.push_back(e); } }
static int fd_alloc_from(FileObj *f, int min) {
  init_std();
  int n = std::max(min, g_net.fd_floor);
  while (n < (int)g_fds.size() && g_fds[n].f) n++;
  if (n >= g_net.fd_max) return -EMFILE;
  if (n >= (int)g_fds.size()) g_fds.resize(n + 1);
  g_fds[n].f = f; g_fds[n].gen = ++g_gen; f->refs++;
  return n;
}
int fd_alloc(FileObj *f) { return fd_alloc_from(f, 0); }
int fd_dup(int fd, int min) { FileObj *f = fd_get(fd); if (!f) return -EBADF; return fd_alloc_from(f, min); }
static void unref(FileObj *f) {
  if (--f->refs == 0) {
    for (auto *e : g_epolls) for (size_t i = 0; i < e->regs.size();) if (e->regs[i].f == f) e->regs.erase(e->regs.begin() + i); else i++;
    f->closed();
  }
}
int fd_close(int fd) {
  FileObj *f = fd_get(fd);
  if (!f) return -EBADF;
  g_fds[fd].f = nullptr;
  unref(f);
  return 0;
}
int fds_open() { int n = 0; for (size_t i = 3; i < g_fds.size(); i++) if (g_fds[i].f) n++; return n; }
std::string fds_describe() {
  static const char *k[] = {"tcp", "udp", "pipe_r", "pipe_w", "eventfd", "epoll", "file", "listen", "timerfd", "null"};
  std::string s; char b[60];
  for (size_t i = 3; i < g_fds.size(); i++) if (g_fds[i].f) { snprintf(b, sizeof b, "%zu:%s ", i, k[g_fds[i].f->kind]); s += b; }
  return s;
}
bool fd_is_open(int fd) { return fd_get(fd) != nullptr; }
uint64_t fd_generation(int fd) { return fd_get(fd) ? g_fds[fd].gen : 0; }
void close_all_fds() { Kern k; for (size_t i = 3; i < g_fds.size(); i++) if (g_fds[i].f) fd_close(i); }
bool wait_io(const std::function<bool()> &pred, ns_t deadline) {
  cancel_point();
  Fiber *f = g_cur;
  bool r = block([&] { return pred() || (f->cancel_req && f->cancel_enabled && !f->canceling); }, deadline);
  cancel_point();
  return r;
}

// ------------------------------------------------------------------ TCP
static ns_t draw_lat() {
  if (!g_net.lat_jit) return g_net.lat_min;
  switch (pick(N, {3, 3, 1})) {
  case 0: return g_net.lat_min;
  case 1: return g_net.lat_min + draw(N, 1000) * (g_net.lat_jit / 1000 + 1);
  default:
    if (fault(FT_net_delay)) { static const ns_t d[] = {2 * MS, 30 * MS, 300 * MS, 2 * SEC}; return d[draw(F, 4)]; }
    return g_net.lat_min;
  }
}
Tcp::Tcp() {
  kind = TCP; id = ++g_tcp_id; memset(&laddr, 0, sizeof laddr); memset(&raddr, 0, sizeof raddr);
  laddr.sin_family = raddr.sin_family = AF_INET; sndcap = g_net.sndbuf; rcvcap = g_net.rcvbuf; lat = g_net.lat_min;
}
size_t Tcp::room() {
  if (!peer) return 0;
  size_t cap = sndcap + peer->rcvcap, used = inflight + peer->rx.size();
  return used < cap ? cap - used : 0;
}

uint32_t Tcp::poll() {
  uint32_t m = 0;
  switch (st) {
  case FRESH: return EPOLLOUT | EPOLLHUP;
  case CONNECTING: return 0;
  case DEAD: m = EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP; if (so_error) m |= EPOLLERR; return m;
  case ESTAB: break;
  }
  if (!rx.empty() || rx_fin || rd_shut || so_error || rst) m |= EPOLLIN;
  if (rx_fin || rst) m |= EPOLLRDHUP;
  if (rst || wr_shut || so_error) m |= EPOLLOUT;
  else { size_t r = room(); if (r > 0 && r * 3 >= sndcap / 1) m |= EPOLLOUT; else if (r > 0 && sndcap < 3) m |= EPOLLOUT; }
  if (so_error) m |= EPOLLERR;
  if (rst || (rx_fin && wr_shut)) m |= EPOLLHUP;
  return m;
}
static void deliver_rst(Tcp *t, int err) {
  if (t->st == Tcp::DEAD || t->rst) return;
  t->rst = true; t->so_error = err; t->seq++;
  if (t->harness) t->so_error = ECONNRESET;
  ev("conn %d: reset arrives", t->id);
}
static void send_fin(Tcp *t) {
  Tcp *p = t->peer; if (!p) return;
  ns_t a = std::max(t->last_arrival, g_now + draw_lat()); t->last_arrival = a;
  at(a, [p] { if (!p->rst && !p->rx_fin) { p->rx_fin = true; p->seq++; ev("conn %d: fin arrives", p->id); } });
}
static void send_rst(Tcp *t, bool after_data) {
  Tcp *p = t->peer; if (!p) return;
  ns_t a = g_now + draw_lat(); if (after_data) a = std::max(a, t->last_arrival);
  t->last_arrival = a;
  at(a, [p] { deliver_rst(p, p->rx_fin ? EPIPE : ECONNRESET); });
}
void Tcp::abort_conn() { wr_shut = true; app_closed = true; st = DEAD; send_rst(this, false); }
void Tcp::closed() {
  app_closed = true; seq++;
  if (st == ESTAB && !rst) {
    bool unread = !rx.empty();
    wr_shut = true;
    if (unread) { probe("close_with_unread_data"); send_rst(this, !fault(FT_net_reset)); }
    else send_fin(this);
  }
  st = DEAD;
}
ssize_t Tcp::write(const char *b, size_t n, int flags) {
  if (so_error) { int e = so_error; if (rst) e = EPIPE; so_error = 0; return e == ECONNRESET ? -ECONNRESET : -e; }
  if (st == CONNECTING) return -EAGAIN;
  if (st == FRESH) return -EPIPE; // Linux: EPIPE for an unconnected stream socket
  if (wr_shut || rst || st == DEAD) return -EPIPE;
  if (n == 0) return 0;
  size_t r = room(); if (r == 0) return -EAGAIN;
  if (!harness && fault(FT_send_eagain)) return -EAGAIN;
  size_t k = std::min(n, r);
  if (!harness && k > 1 && fault(FT_short_send)) k = 1 + draw(N, k - 1);
  Tcp *p = peer, *me = this;
  size_t off = 0;
  while (off < k) {
    size_t seg = k - off;
    if (seg > 1 && fault(FT_net_split)) seg = 1 + draw(N, seg - 1);
    ns_t a = std::max(last_arrival, g_now + draw_lat()); last_arrival = a;
    std::string d(b + off, seg);
    inflight += seg;
    at(a, [p, me, d] {
      me->inflight -= d.size(); me->seq++;
      if (p->app_closed) { // data for a closed socket: reset comes back
        if (!me->rst && !me->app_closed) at(g_now + 50 * US, [me] { if (!me->app_closed) deliver_rst(me, me->rx_fin ? EPIPE : ECONNRESET); });
        return;
      }
      if (p->rst || p->rd_shut) return;
      p->rx += d; p->seq++;
    });
    off += seg;
  }
  sent_total += k;
  return k;
}
ssize_t Tcp::read(char *b, size_t n) {
  if (st == FRESH) return -ENOTCONN;
  if (st == CONNECTING) return -EAGAIN;
  if (!harness && fault(FT_recv_eintr)) return draw(F, 2) ? -EINTR : -EAGAIN;
  if (!rx.empty()) {
    size_t k = std::min(n, rx.size());
    if (!harness && k > 1 && fault(FT_short_recv)) k = 1 + draw(N, k - 1);
    memcpy(b, rx.data(), k); rx.erase(0, k); recv_total += k; if (peer) peer->seq++;
    return k;
  }
  if (rx_fin) return 0; // Linux: a stream that saw its end keeps returning 0, even after a reset
  if (so_error) { int e = so_error; so_error = 0; return -e; }
  if (rst) return 0;
  if (rx_fin || rd_shut || st == DEAD) return 0;
  return -EAGAIN;
}
void tcp_shutdown(Tcp *t, int how) {
  if ((how == SHUT_WR || how == SHUT_RDWR) && !t->wr_shut) { t->wr_shut = true; if (t->st == Tcp::ESTAB) send_fin(t); }
  if (how == SHUT_RD || how == SHUT_RDWR) t->rd_shut = true;
  t->seq++;
}
uint32_t Listener::poll() { return q.empty() ? 0 : EPOLLIN; }
void Listener::closed() {
  open = false;
  for (auto *t : q) { t->abort_conn(); }
  q.clear();
  g_listeners.erase(std::remove(g_listeners.begin(), g_listeners.end(), this), g_listeners.end());
}
Listener *find_listener(uint16_t port) { for (auto *l : g_listeners) if (l->port == port && l->open) return l; return nullptr; }
// ip (network order) is where the caller connects to: 0.0.0.0 and 127.x.x.x are this machine
Listener *find_listener(uint16_t port, uint32_t ip) {
  bool here = ip == 0 || (ntohl(ip) >> 24) == 127;
  for (auto *l : g_listeners) if (l->port == port && l->open && (l->ip ? l->ip == ip : here)) return l;
  return nullptr;
}
int listening_ports() { int n = 0; for (auto *l : g_listeners) if (!l->harness) n++; return n; }
static void do_connect(Tcp *t, uint16_t port, ns_t delay, int tries) {
  at(g_now + delay, [t, port, tries] {
    if (t->st != Tcp::CONNECTING) return;
    Listener *l = t->harness ? find_listener(port) : find_listener(port, t->raddr.sin_addr.s_addr);
    if (l && l->mode == 2) { at(g_now + 127 * SEC, [t] { if (t->st == Tcp::CONNECTING) { t->st = Tcp::DEAD; t->so_error = ETIMEDOUT; t->seq++; } }); return; }
    if (!l || l->mode == 1) { t->st = Tcp::DEAD; t->so_error = ECONNREFUSED; t->seq++; ev("conn %d: refused", t->id); return; }
    if (l->q.size() > l->backlog) { if (tries > 5) { t->st = Tcp::DEAD; t->so_error = ETIMEDOUT; t->seq++; } else do_connect(t, port, (1u << tries) * SEC, tries + 1); return; }
    Tcp *s = new Tcp; s->harness = l->harness; s->st = Tcp::ESTAB; s->peer = t; t->peer = s; t->st = Tcp::ESTAB; t->seq++;
    s->laddr = t->raddr; s->raddr = t->laddr; s->est_ever = t->est_ever = true;
    if (!s->harness) g_by_rport[ntohs(s->raddr.sin_port)] = s;
    l->q.push_back(s); l->seq++;
    ev("conn %d-%d: established to port %u", t->id, s->id, port);
  });
}
int sys_connect(FileObj *f, const sockaddr_in *a) {
  if (f->kind == FileObj::UDP) { Udp *u = (Udp *)f; u->remote = *a; u->connected = true; return 0; }
  if (f->kind != FileObj::TCP) return -EOPNOTSUPP;
  Tcp *t = (Tcp *)f;
  if (t->st == Tcp::CONNECTING) return -EALREADY;
  if (t->st == Tcp::ESTAB) return -EISCONN;
  if (t->st == Tcp::DEAD && t->so_error) { int e = t->so_error; t->so_error = 0; return -e; }
  if (t->st == Tcp::DEAD) return -ECONNABORTED;
  t->raddr = *a; g_by_rport[ntohs(a->sin_port)] = t;
  if (!t->laddr.sin_port) { t->laddr.sin_port = htons(g_eph++); t->laddr.sin_addr.s_addr = htonl(0x7f000001); }
  uint16_t port = ntohs(a->sin_port);
  t->st = Tcp::CONNECTING;
  if (fault(FT_conn_refused)) {
    if (draw(F, 2)) { t->st = Tcp::DEAD; return -ECONNREFUSED; }
    at(g_now + draw_lat(), [t] { if (t->st == Tcp::CONNECTING) { t->st = Tcp::DEAD; t->so_error = ECONNREFUSED; t->seq++; } });
  } else if (fault(FT_conn_timeout)) {
    at(g_now + 127 * SEC, [t] { if (t->st == Tcp::CONNECTING) { t->st = Tcp::DEAD; t->so_error = ETIMEDOUT; t->seq++; } });
  } else if (fault(FT_conn_immediate)) {
    do_connect(t, port, 0, 0); reeval();
    if (t->st == Tcp::ESTAB) return 0;
    if (t->st == Tcp::DEAD) { int e = t->so_error; t->so_error = 0; return -e; }
  } else do_connect(t, port, draw_lat(), 0);
  return -EINPROGRESS;
}
int sys_accept(FileObj *f, sockaddr_in *a) {
  if (f->kind != FileObj::LISTEN) return -EINVAL;
  Listener *l = (Listener *)f;
  if (l->q.empty()) return -EAGAIN;
  if (fault(FT_accept_abort)) { Tcp *t = l->q.front(); l->q.pop_front(); t->abort_conn(); return -ECONNABORTED; }
  if (fault(FT_accept_emfile)) return draw(F, 2) ? -EMFILE : -ENFILE;
  if (fault(FT_signal_intr)) return -EINTR;
  Tcp *t = l->q.front();
  int fd = fd_alloc(t);
  if (fd < 0) { fault_count(FT_fd_limit); return fd; }
  l->q.pop_front();
  *a = t->raddr;
  ev("accept fd=%d conn %d", fd, t->id);
  return fd;
}
static std::map<Fid, uint16_t> g_udp_bound;
uint16_t udp_bound_by(Fid f) { auto it = g_udp_bound.find(f); return it == g_udp_bound.end() ? 0 : it->second; }
int sys_bind(FileObj *&f, int fd, const sockaddr_in *a) {
  uint16_t port = ntohs(a->sin_port);
  if (f->kind == FileObj::UDP) {
    if (((Udp *)f)->port) return -EINVAL;
    uint32_t ip = a->sin_addr.s_addr; bool local = ip == 0 || (ntohl(ip) >> 24) == 127 || g_net.ifs.empty(); for (auto &s : g_net.ifs) if (!s.empty() && inet_addr(s.c_str()) == ip) local = true;
    if (!local || ip == INADDR_NONE) return -EADDRNOTAVAIL;
    if (port) for (auto *u : g_udps) if (u->port == port && u != f && !u->harness) return -EADDRINUSE;
    ((Udp *)f)->port = port ? port : g_eph++; ((Udp *)f)->ip = ip; bool reg = false; for (auto *u : g_udps) if (u == f) reg = true; if (!reg) g_udps.push_back((Udp *)f); g_udp_bound[self()] = ((Udp *)f)->port; return 0;
  }
  if (f->kind != FileObj::TCP) return -EINVAL;
  if (port && find_listener(port)) return -EADDRINUSE;
  ((Tcp *)f)->laddr = *a; ((Tcp *)f)->bound = true;
  return 0;
}
FileObj *sys_listen(FileObj *f, int backlog) {
  if (f->kind != FileObj::TCP) return nullptr;
  Tcp *t = (Tcp *)f;
  Listener *l = new Listener; l->port = ntohs(t->laddr.sin_port); l->refs = t->refs; l->nonblock = t->nonblock;
  l->backlog = backlog < 1 ? 1 : backlog;
  for (auto &e : g_fds) if (e.f == f) e.f = l;
  for (auto *e : g_epolls) for (auto &r : e->regs) if (r.f == f) r.f = l;
  g_listeners.push_back(l);
  return l;
}

// harness side ------------------------------------------------------
Tcp *peer_connect(uint16_t port, ns_t timeout, uint32_t sip, uint16_t sport) {
  Kern k;
  Tcp *t = new Tcp; t->harness = true; t->st = Tcp::CONNECTING;
  t->laddr.sin_addr.s_addr = htonl(sip ? sip : 0x0a000000 + t->id); t->laddr.sin_port = htons(sport ? sport : g_eph++);
  t->raddr.sin_addr.s_addr = htonl(0x7f000001); t->raddr.sin_port = htons(port);
  do_connect(t, port, draw_lat(), 0);
  block([t] { return t->st != Tcp::CONNECTING; }, timeout == FOREVER ? FOREVER : g_now + timeout);
  return t->st == Tcp::ESTAB ? t : nullptr;
}
bool peer_connected(Tcp *t) { return t->st == Tcp::ESTAB && !t->rst; }
size_t peer_send(Tcp *t, const char *p, size_t n) { Kern k; ssize_t r = t->write(p, n, 0); return r < 0 ? 0 : r; }
bool peer_send_all(Tcp *t, const std::string &s, ns_t dl) {
  size_t o = 0;
  while (o < s.size()) {
    if (t->rst || t->wr_shut || t->st != Tcp::ESTAB) return false;
    size_t r = peer_send(t, s.data() + o, s.size() - o); o += r;
    if (o < s.size() && !r) if (!block([t] { return t->room() > 0 || t->rst; }, dl)) return false;
  }
  return true;
}
int peer_recv(Tcp *t, std::string &out, size_t max, ns_t dl) {
  block([t] { return !t->rx.empty() || t->rx_fin || t->rst; }, dl);
  if (!t->rx.empty()) { size_t k = std::min(max, t->rx.size()); out.append(t->rx, 0, k); t->rx.erase(0, k); t->recv_total += k; if (t->peer) t->peer->seq++; return k; }
  if (t->rst) return -1;
  if (t->rx_fin) return 0;
  return -2;
}
size_t peer_readable(Tcp *t) { return t->rx.size(); }
bool peer_eof(Tcp *t) { return t->rx.empty() && (t->rx_fin || t->rst); }
bool peer_reset_seen(Tcp *t) { return t->rst; }
void peer_close(Tcp *t) { Kern k; ev("peer %d closes", t->id); if (t->st == Tcp::ESTAB) t->closed(); }
void peer_shutdown_wr(Tcp *t) { Kern k; tcp_shutdown(t, SHUT_WR); }
void peer_reset(Tcp *t) { Kern k; ev("peer %d resets", t->id); if (t->st == Tcp::ESTAB && !t->rst) { t->st = Tcp::DEAD; t->app_closed = true; t->wr_shut = true; send_rst(t, !draw(N, 2)); } }
uint16_t peer_port(Tcp *t) { return ntohs(t->laddr.sin_port); }
void tcp_caps(Tcp *t, size_t s, size_t r) { t->sndcap = s; t->rcvcap = r; }
int fd_of_peer(Tcp *t) { if (!t->peer) return -1; for (size_t i = 0; i < g_fds.size(); i++) if (g_fds[i].f == t->peer) return i; return -1; }
TcpInfo tcp_info(uint16_t p) {
  TcpInfo r; memset(&r, 0, sizeof r); r.fd = -1;
  auto it = g_by_rport.find(p); if (it == g_by_rport.end()) return r;
  Tcp *t = it->second; r.exists = true; r.estab = t->est_ever; r.closed = t->app_closed; r.rst = t->rst; r.sent = t->sent_total; r.recv = t->recv_total;
  for (size_t i = 0; i < g_fds.size(); i++) if (g_fds[i].f == t) { r.fd = i; break; }
  return r;
}
size_t tcp_queue_capacity() { return g_net.sndbuf + g_net.rcvbuf; }
Listener *peer_listen(uint16_t port, uint32_t ip) { Kern k; Listener *l = new Listener; l->harness = true; l->port = port; l->ip = ip == 0x7f000001 ? 0 : htonl(ip); l->refs = 1; g_listeners.push_back(l); return l; }
Tcp *peer_accept(Listener *l, ns_t dl) {
  while (l->q.empty()) if (!block([l] { return !l->q.empty(); }, dl)) return nullptr;
  Tcp *t = l->q.front(); l->q.pop_front(); return t;
}
void listener_mode(Listener *l, int m) { l->mode = m; }

// ------------------------------------------------------------------ UDP
static std::map<Fid, uint64_t> g_udp_sent;
uint64_t udp_sent_count() { return g_udp_sent[self()]; }
uint32_t Udp::poll() { return (q.empty() ? 0 : EPOLLIN) | EPOLLOUT | (so_error ? EPOLLERR : 0); }
void Udp::closed() { g_udps.erase(std::remove(g_udps.begin(), g_udps.end(), this), g_udps.end()); }
ssize_t Udp::sendto(const char *b, size_t n, const sockaddr_in *to) {
  if (!harness && fault(FT_send_eagain)) return -EAGAIN;
  if (so_error) { int e = so_error; so_error = 0; return -e; }
  sockaddr_in dst; if (to) dst = *to; else { if (!connected) return -EDESTADDRREQ; dst = remote; }
  if (n > 65507) return -EMSGSIZE;
  if (!port) port = g_eph++;
  bool reg = false; for (auto *u : g_udps) if (u == this) reg = true; if (!reg) g_udps.push_back(this);
  if (dst.sin_addr.s_addr == INADDR_NONE) return -EACCES; // broadcast without permission
  if (!dst.sin_port) return -EINVAL;
  Dgram d; d.d.assign(b, n); memset(&d.from, 0, sizeof d.from); d.from.sin_family = AF_INET; d.from.sin_port = htons(port); d.from.sin_addr.s_addr = ip ? ip : htonl(0x7f000001);
  uint16_t dp = ntohs(dst.sin_port); uint32_t dip = dst.sin_addr.s_addr;
  g_udp_sent[self()]++;
  int copies = 1; if (fault(FT_udp_loss)) copies = 0; else if (fault(FT_udp_dup)) copies = 2;
  for (int i = 0; i < copies; i++) {
    ns_t lat = draw_lat(); if (fault(FT_udp_reorder)) lat += (1 + draw(F, 40)) * MS;
    Udp *me = this;
    at(g_now + lat, [d, dp, dip, me] {
      for (auto *u : g_udps) if (u->port == dp && (!u->ip || u->ip == dip)) { if (u->connected && (u->remote.sin_port != d.from.sin_port || u->remote.sin_addr.s_addr != d.from.sin_addr.s_addr)) continue; if (u->q.size() < 4096) { u->q.push_back(d); if (!u->harness) u->log.push_back(d); u->seq++; } return; }
      if (me->connected) { me->so_error = ECONNREFUSED; me->seq++; }
    });
  }
  return n;
}
ssize_t Udp::recvfrom(char *b, size_t n, sockaddr_in *from, int flags) {
  if (!harness && fault(FT_recv_eintr)) return draw(F, 2) ? -EINTR : -EAGAIN;
  if (so_error) { int e = so_error; so_error = 0; return -e; }
  if (q.empty()) return -EAGAIN;
  Dgram &d = q.front(); size_t k = std::min(n, d.d.size()); memcpy(b, d.d.data(), k); if (from) *from = d.from;
  ssize_t r = (flags & MSG_TRUNC) ? (ssize_t)d.d.size() : (ssize_t)k;
  if (!(flags & MSG_PEEK)) q.pop_front();
  return r;
}
UdpPeer *udp_peer(uint16_t port, const char *ip) { Kern k; UdpPeer *p = new UdpPeer; p->u.harness = true; p->u.port = port; p->u.ip = ip ? inet_addr(ip) : 0; p->u.refs = 1; g_udps.push_back(&p->u); return p; }
void udp_peer_send(UdpPeer *p, uint16_t dp, const std::string &d, const char *dip) { Kern k; sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(dp); a.sin_addr.s_addr = dip ? inet_addr(dip) : htonl(0x7f000001); p->u.sendto(d.data(), d.size(), &a); }
static std::string ip_str(uint32_t a) { char b[20]; const uint8_t *p = (const uint8_t *)&a; snprintf(b, sizeof b, "%u.%u.%u.%u", p[0], p[1], p[2], p[3]); return b; }
static Udp *udp_by_port(uint16_t port) { for (auto *u : g_udps) if (u->port == port && !u->harness) return u; return nullptr; }
size_t udp_arrivals(uint16_t port) { Udp *u = udp_by_port(port); return u ? u->log.size() : 0; }
UdpArrival udp_arrival(uint16_t port, size_t i) { Dgram &d = udp_by_port(port)->log[i]; return UdpArrival{ip_str(d.from.sin_addr.s_addr), ntohs(d.from.sin_port), d.d}; }
uint16_t udp_port_of(int fd) { FileObj *f = fd_get(fd); return f && f->kind == FileObj::UDP ? ((Udp *)f)->port : 0; }
bool udp_peer_recv(UdpPeer *p, std::string &d, uint16_t &sp, ns_t dl, std::string *sip) {
  while (p->u.q.empty()) if (!block([p] { return !p->u.q.empty(); }, dl)) return false;
  d = p->u.q.front().d; sp = ntohs(p->u.q.front().from.sin_port); if (sip) *sip = ip_str(p->u.q.front().from.sin_addr.s_addr); p->u.q.pop_front(); return true;
}

// ------------------------------------------------------------------ pipe, eventfd, timerfd
uint32_t PipeEnd::poll() {
  if (kind == PIPE_R) return (p->buf.empty() ? 0 : EPOLLIN) | (p->w_open ? 0 : EPOLLHUP);
  return (p->buf.size() < p->cap ? EPOLLOUT : 0) | (p->r_open ? 0 : EPOLLERR);
}
ssize_t PipeEnd::read(char *b, size_t n) {
  if (kind != PIPE_R) return -EBADF;
  if (p->buf.empty()) return p->w_open ? -EAGAIN : 0;
  if (fault(FT_recv_eintr)) return nonblock ? -EAGAIN : -EINTR;
  size_t k = std::min(n, p->buf.size()); memcpy(b, p->buf.data(), k); p->buf.erase(0, k); return k;
}
ssize_t PipeEnd::write(const char *b, size_t n, int) {
  if (kind != PIPE_W) return -EBADF;
  if (!p->r_open) return -EPIPE;
  size_t room = p->cap - p->buf.size(); if (!room || (n <= 4096 && room < n)) { probe("pipe_full"); return -EAGAIN; }
  size_t k = std::min(n, room); p->buf.append(b, k); return k;
}
void PipeEnd::closed() { if (kind == PIPE_R) p->r_open = false; else p->w_open = false; }
uint32_t EventFd::poll() { return (v ? EPOLLIN : 0) | (v < ~0ull - 1 ? EPOLLOUT : 0); }
ssize_t EventFd::read(char *b, size_t n) { if (n < 8) return -EINVAL; if (!v) return -EAGAIN; uint64_t r = sema ? 1 : v; v -= r; memcpy(b, &r, 8); return 8; }
ssize_t EventFd::write(const char *b, size_t n, int) { if (n < 8) return -EINVAL; uint64_t a; memcpy(&a, b, 8); if (a == ~0ull) return -EINVAL; if (v > ~0ull - 1 - a) return -EAGAIN; v += a; seq++; return 8; }
uint64_t TimerFd::expired() { if (!next || next > g_now) return 0; uint64_t n = 1; if (interval) { n += (g_now - next) / interval; } return n; }
uint32_t TimerFd::poll() { return expired() ? EPOLLIN : 0; }
ssize_t TimerFd::read(char *b, size_t n) { if (n < 8) return -EINVAL; uint64_t e = expired(); if (!e) return -EAGAIN; if (interval) next += e * interval; else next = 0; memcpy(b, &e, 8); return 8; }

// ------------------------------------------------------------------ epoll
uint32_t Epoll::poll() { return collect(nullptr, 1, false) ? EPOLLIN : 0; }
int Epoll::collect(struct epoll_event *out, int max, bool take) {
  int n = 0;
  std::vector<size_t> idx;
  for (size_t i = 0; i < regs.size(); i++) {
    R &r = regs[i]; if (r.disabled) continue;
    uint32_t m = r.f->poll() & (r.events | EPOLLERR | EPOLLHUP);
    if (!m) continue;
    if ((r.events & EPOLLET) && r.seen == r.f->seq + 1) continue;
    idx.push_back(i);
    if (!take) return 1;
  }
  std::sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return regs[a].order < regs[b].order; });
  if (idx.size() > 1 && fault(FT_epoll_reorder)) for (size_t i = idx.size() - 1; i > 0; i--) std::swap(idx[i], idx[draw(N, i + 1)]);
  if (idx.size() > 1 && fault(FT_epoll_partial)) idx.resize(1 + draw(N, idx.size() - 1));
  for (size_t i : idx) {
    if (n >= max) break;
    R &r = regs[i]; uint32_t m = r.f->poll() & (r.events | EPOLLERR | EPOLLHUP);
    out[n].events = m & ~(EPOLLET | EPOLLONESHOT); out[n].data = r.data; n++;
    r.order = ++ord; r.seen = r.f->seq + 1;
    if (r.events & EPOLLONESHOT) r.disabled = true;
  }
  if (n > 1) probe("epoll_batch_gt1");
  return n;
}
int epoll_ctl_k(Epoll *e, int op, int fd, struct epoll_event *evp) {
  FileObj *f = fd_get(fd);
  if (!f) return -EBADF;
  if (f->kind == FileObj::REG) return -EPERM;
  if (f == e) return -EINVAL;
  bool known = false; for (auto *x : g_epolls) if (x == e) known = true; if (!known) g_epolls.push_back(e);
  size_t i = 0; for (; i < e->regs.size(); i++) if (e->regs[i].f == f && e->regs[i].fd == fd) break;
  if (op == EPOLL_CTL_ADD) {
    if (i < e->regs.size()) return -EEXIST;
    if (f->kind == FileObj::TCP ? fault(FT_epoll_ctl_fail) : (f->kind == FileObj::PIPE_R || f->kind == FileObj::PIPE_W) && fault(FT_epoll_ctl_pipe_fail)) return draw(F, 2) ? -ENOSPC : -ENOMEM;
    Epoll::R r; r.f = f; r.fd = fd; r.events = evp->events; r.data = evp->data; r.seen = 0; r.disabled = false; r.order = ++e->ord; e->regs.push_back(r);
    return 0;
  }
  if (i == e->regs.size()) return -ENOENT;
  if (op == EPOLL_CTL_MOD) { e->regs[i].events = evp->events; e->regs[i].data = evp->data; e->regs[i].seen = 0; e->regs[i].disabled = false; return 0; }
  if (op == EPOLL_CTL_DEL) { e->regs.erase(e->regs.begin() + i); return 0; }
  return -EINVAL;
}

// ------------------------------------------------------------------ files
std::map<std::string, std::shared_ptr<Inode>> g_fs;
uint64_t g_fs_cap = ~0ull; bool g_fs_ok = true; static uint64_t g_ino = 0;
static std::string norm(const std::string &p) {
  std::string r; for (size_t i = 0; i < p.size(); i++) { if (p[i] == '/' && !r.empty() && r.back() == '/') continue; r += p[i]; }
  while (r.compare(0, 2, "./") == 0) r.erase(0, 2);
  return r;
}
uint64_t fs_used() { uint64_t n = 0; std::set<Inode *> s; for (auto &e : g_fs) if (s.insert(e.second.get()).second) n += e.second->d.size(); return n; }
uint64_t calls() { return g_syscalls; }
void fs_capacity(uint64_t b) { g_fs_cap = b; }
void fs_writable(bool ok) { g_fs_ok = ok; }
bool fs_exists(const std::string &p) { return g_fs.count(norm(p)); }
std::string fs_read(const std::string &p) { auto it = g_fs.find(norm(p)); return it == g_fs.end() ? "" : it->second->d; }
void fs_write(const std::string &p, const std::string &d) { Kern k; auto in = std::make_shared<Inode>(); in->ino = ++g_ino; in->d = d; g_fs[norm(p)] = in; }
void fs_delete(const std::string &p) { Kern k; g_fs.erase(norm(p)); }
uint64_t fs_inode(const std::string &p) { auto it = g_fs.find(norm(p)); return it == g_fs.end() ? 0 : it->second->ino; }
std::vector<std::string> fs_list(const std::string &prefix) { std::vector<std::string> v; for (auto &e : g_fs) if (e.first.compare(0, prefix.size(), prefix) == 0) v.push_back(e.first); return v; }
int fs_open(const char *path, int flags) {
  std::string p = norm(path);
  auto it = g_fs.find(p);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (it == g_fs.end() && !(flags & O_CREAT)) return -ENOENT;
  if (wr && !g_fs_ok) { fault_count(FT_open_fail); return -EIO; }
  if (wr && fault(FT_open_fail)) { static const int e[] = {EMFILE, ENOSPC, EACCES}; return -e[draw(F, 3)]; }
  if (!wr && fault(FT_read_open_fail)) { static const int e[] = {EMFILE, EIO, EACCES}; return -e[draw(F, 3)]; }
  if (it == g_fs.end()) { auto in = std::make_shared<Inode>(); in->ino = ++g_ino; it = g_fs.emplace(p, in).first; }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
  if (flags & O_TRUNC) it->second->d.clear();
  RegFile *f = new RegFile; f->in = it->second; f->path = p; f->append = flags & O_APPEND; f->can_wr = wr; f->can_rd = (flags & O_ACCMODE) != O_WRONLY;
  int fd = fd_alloc(f);
  ev("open %s fd=%d", p.c_str(), fd);
  return fd;
}
ssize_t RegFile::read(char *b, size_t n) { if (!can_rd) return -EBADF; if (fault(FT_read_eio)) return -EIO; if (off >= in->d.size()) return 0; size_t k = std::min(n, in->d.size() - off); if (k > 1 && fault(FT_read_short)) k = 1 + draw(N, k - 1); memcpy(b, in->d.data() + off, k); off += k; return k; }
ssize_t RegFile::write(const char *b, size_t n, int) {
  if (!can_wr) return -EBADF;
  if (n == 0) return 0;
  if (!g_fs_ok) { fault_count(FT_disk_eio); return -EIO; }
  if (fault(FT_disk_enospc)) return -ENOSPC;
  if (fault(FT_disk_eio)) return -EIO;
  size_t k = n;
  if (k > 1 && fault(FT_disk_short)) k = 1 + draw(N, k - 1);
  uint64_t used = fs_used(); if (used >= g_fs_cap) { fault_count(FT_disk_enospc); return -ENOSPC; }
  if (used + k > g_fs_cap) { k = g_fs_cap - used; fault_count(FT_disk_short); }
  if (append) off = in->d.size();
  if (off > in->d.size()) in->d.resize(off, 0);
  in->d.replace(off, std::min(k, in->d.size() - off), b, k); off += k;
  return k;
}
} // namespace sim
