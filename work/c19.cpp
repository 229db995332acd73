// C19: UDP server datagrams and the UDP client.
#include "net.h"
#include "CUdpConnector.h"
using namespace nw;
namespace {
struct Dg { int outcome; std::string pkg, extra; }; // outcome 0: delivered as pkg (then maybe extra), 1: one error
struct Peer { sim::UdpPeer *u; std::string ip; uint16_t port; std::map<std::string, int> expect; std::map<std::string, uint16_t> from; };
struct Usrv : CProcessor {
  int id; uint16_t port; Kind kind; uint32_t ri, rm; size_t next, extra_left; std::string extra; uint64_t errs, oks;
  void onRead(StSession &s, const char *d, const int n); void onError(StSession &s, const char *m, int e);
  void onClose(StSession &) { sim::Kern k; sim::violate("udp-close", "onClose for a UDP server"); }
  void onConnect(StSession &, bool, void *) { sim::Kern k; sim::violate("udp-connect", "onConnect for a UDP server"); }
  void onTimer(int, void *) { sim::Kern k; act(nullptr); }
  void onMessage(int, void *) { sim::Kern k; act(nullptr); }
  void act(StSession *s);
};
struct T19 { std::vector<Usrv *> srv; std::vector<Peer *> peers; std::map<std::string, Dg> sent; bool over; int budget; uint64_t seq, intr_seen; } *t;
uint64_t intr() { return sim::faults_fired(sim::FT_recv_eintr); }
Peer *peer_of(const std::string &ip, uint16_t port) { for (auto *p : t->peers) if (p->ip == ip && p->port == port) return p; return nullptr; }
std::string key(const std::string &d) { return d.empty() ? std::string("<empty>") : d; }
void reply(const std::string &ip, uint16_t port, Usrv *u, const std::string &d, bool to_valid) {
  char *b; UR(b = new char[d.size() ? d.size() : 1]); memcpy(b, d.data(), d.size()); int r, n = d.size(), id = u->id; std::string sip = ip; uint64_t c0 = sim::udp_sent_count();
  { sim::User uu; r = comm->writeTo(id, sip, port, b, n); delete[] b; }
  uint64_t c1 = sim::udp_sent_count(); sim::op_done();
  if (r != 0 && r != -1) sim::violate("bad-result", "writeTo returned %d", r);
  if (r == 0 && c1 != c0 + 1) sim::violate("send-lost", "writeTo of %d bytes reported success and sent %llu datagrams", n, (unsigned long long)(c1 - c0));
  if (r == -1 && c1 != c0) sim::violate("send-despite-error", "writeTo of %d bytes reported failure and sent %llu datagrams", n, (unsigned long long)(c1 - c0));
  if (r == -1 && n <= 65507 && to_valid && !sim::fault_enabled(sim::FT_send_eagain)) sim::violate("false-failure", "writeTo of %d bytes to %s:%u failed without a reason: %s", n, ip.c_str(), port, comm->getErrMsg());
  if (r == 0 && to_valid) { Peer *p = peer_of(ip, port); if (p) { p->expect[key(d)]++; p->from[key(d)] = u->port; } }
  if (n > 65507) sim::probe("too_long_send");
}
void Usrv::act(StSession *s) {
  while (t->budget > 0 && sim::chance(W, 1, 2)) {
    t->budget--;
    Usrv *u = sim::chance(W, 2, 3) ? this : t->srv[sim::draw(W, t->srv.size())];
    char h[40]; snprintf(h, sizeof h, "r%llu:", (unsigned long long)t->seq++); std::string d = std::string(h) + rnd_bytes(sim::pick(W, {5, 1, 1}) == 0 ? sim::draw(W, 60) : sim::draw(W, 5000));
    if (sim::chance(W, 1, 20)) d.resize(65500 + sim::draw(W, 16), 'x');
    if (s && sim::chance(W, 1, 2)) { std::string ip; uint16_t port; { sim::User uu; std::string x = s->getStrIp(); port = s->getPort(); sim::Kern k; ip = x; } reply(ip, port, u, d, true); }
    else if (sim::chance(W, 1, 12)) reply("not an address", 41000, u, d, false);
    else { Peer *p = t->peers[sim::draw(W, t->peers.size())]; reply(p->ip, p->port, u, d, true); }
  }
  if (sim::chance(W, 1, 10) && t->budget > 0) { int ms = sim::draw(W, 50), tid = 1 + sim::draw(W, 4); CProcessor *me = this; t->budget--; sim::User uu; comm->addTimer(tid, ms, me, NULL); }
}
void Usrv::onRead(StSession &s, const char *d, const int n) {
  sim::Kern k; std::string x(d, n < 0 ? 0 : n); sim::op_done();
  if (s.iSvrId != id) sim::violate("wrong-server", "a datagram of server %d is reported with server id %d", id, s.iSvrId);
  std::string ip; uint16_t port; { sim::User uu; std::string y = s.getStrIp(); port = s.getPort(); sim::Kern kk; ip = y; }
  if (!extra.empty() && x == extra) { extra.clear(); return; } extra.clear();
  if (next >= sim::udp_arrivals(this->port)) sim::violate("datagram-invented", "server on port %u reports %d bytes, but every datagram it received had been reported already", this->port, n);
  sim::UdpArrival a = sim::udp_arrival(this->port, next++); auto it = t->sent.find(a.data); if (it == t->sent.end()) sim::internal_error("unknown datagram");
  if (it->second.outcome) sim::violate("bad-datagram-delivered", "a datagram of %zu bytes that the framing does not accept (or beyond the limit of %u) was delivered as %d bytes", a.data.size(), rm, n);
  if (x != it->second.pkg) sim::violate("datagram-altered", "a datagram of %zu bytes (buffer %u to %u) was delivered as %d other bytes", a.data.size(), ri, rm, n);
  if (ip != a.ip || port != a.port) sim::violate("wrong-sender", "the datagram came from %s:%u, the session says %s:%u", a.ip.c_str(), a.port, ip.c_str(), port);
  extra = it->second.extra; oks++; sim::state_mark(kind * 1000000 + std::min<size_t>(a.data.size() / 16, 5000) * 16 + (errs > 0) * 2 + (next > 1));
  if (a.data.size() > ri) sim::probe("longer_than_initial_buffer");
  act(&s);
}
void Usrv::onError(StSession &s, const char *m, int e) {
  sim::Kern k; extra.clear(); sim::op_done();
  if (e == ERR_SOCKET && intr() > t->intr_seen) { t->intr_seen++; sim::probe("interrupted_receive"); return; }
  if (next >= sim::udp_arrivals(port)) sim::violate("error-invented", "server on port %u reports error %d (%s) without a datagram", port, e, m);
  sim::UdpArrival a = sim::udp_arrival(port, next++); auto it = t->sent.find(a.data); if (it == t->sent.end()) sim::internal_error("unknown datagram");
  if (!it->second.outcome) sim::violate("datagram-refused", "a valid datagram of %zu bytes (buffer %u to %u) was reported as error %d: %s", a.data.size(), ri, rm, e, m);
  if (s.iSvrId != id) sim::violate("wrong-server", "an error of server %d is reported with server id %d", id, s.iSvrId);
  errs++; sim::probe("refused_datagram"); act(nullptr);
}
void make_dgram(Usrv *u, std::string &d, Dg &g) {
  g.outcome = 0; size_t n = sim::pick(W, {4, 2, 2, 1}); n = n == 0 ? 8 + sim::draw(W, 40) : n == 1 ? u->ri - 4 + sim::draw(W, 12) : n == 2 ? u->rm - 60 + sim::draw(W, 60) : u->ri + sim::draw(W, u->rm - u->ri + 1);
  if (n < 8) n = 8; if (n > u->rm) n = u->rm;
  switch (sim::pick(W, {8, 2, 2, 1, 1})) {
  case 0: d = make_pkg(u->kind, n); g.pkg = d; break;
  case 1: d = make_invalid(u->kind, u->rm); if (d.empty()) { d = make_pkg(u->kind, n); g.pkg = d; } else { g.outcome = 1; if (u->kind == LINE) { g.outcome = 1; } } break;
  case 2: d = make_pkg(u->kind, n); if (u->kind == RAW) { g.pkg = d; break; } d.resize(u->kind == HTTP ? std::min<size_t>(d.size(), 5 + sim::draw(W, 12)) : 1 + sim::draw(W, d.size() - 1)); g.outcome = 1; break;
  case 3: d = make_pkg(u->kind, u->rm + 1 + sim::draw(W, 2000)); if (d.size() > 65000 || d.size() <= u->rm) { d = make_pkg(u->kind, n); g.pkg = d; break; } g.outcome = 1; break;
  case 4: if (u->kind == RAW) { d = ""; g.outcome = 1; break; } g.pkg = make_pkg(u->kind, 8 + sim::draw(W, 30)); if (u->kind == HTTP) { d = g.pkg; break; } g.extra = make_pkg(u->kind, 8 + sim::draw(W, 30)); d = g.pkg + g.extra; if (d.size() > u->rm) { d = g.pkg; g.extra = ""; } if (d.size() > u->rm) g.outcome = 1; break;
  }
  if (d.size() > u->rm) g.outcome = 1;
}
void drain_peer(Peer *p) {
  while (!t->over) {
    std::string d, ip; uint16_t sp; if (!sim::udp_peer_recv(p->u, d, sp, in(500 * MS), &ip)) continue;
    auto it = p->expect.find(key(d)); if (it == p->expect.end()) sim::violate("send-altered", "%s:%u received %zu bytes from port %u that nobody sent to it", p->ip.c_str(), p->port, d.size(), sp);
    if (--it->second < 0 && !sim::fault_enabled(sim::FT_udp_dup) && !sim::faults_fired(sim::FT_udp_dup)) sim::violate("send-twice", "%s:%u received a datagram twice", p->ip.c_str(), p->port);
    if (p->from[key(d)] != sp) sim::violate("wrong-source", "a datagram written to server port %u's socket arrived from port %u", p->from[key(d)], sp);
    sim::probe("reply_received");
  }
}
}
SCENARIO("C19", udp_server, 3) {
  sim::default_schedule(); net_params(); w = new World; t = new T19(); t->over = false; t->seq = t->intr_seen = 0; t->budget = sim::draw(W, 40);
  sim::fault_swarm({sim::FT_udp_loss, sim::FT_udp_dup, sim::FT_udp_reorder, sim::FT_recv_eintr, sim::FT_send_eagain, sim::FT_epoll_eintr, sim::FT_epoll_reorder, sim::FT_epoll_partial, sim::FT_net_delay}, 4);
  int maxc = sim::range(W, 3, 60); if (sim::chance(W, 1, 4)) { sim::net().fd_floor = sim::draw(W, 400); sim::probe("high_fd"); }
  UR(comm = &CCommMgr::getInstance(); if (comm->init(maxc) != 0) sim::violate("setup-failed", "initialising failed although no fault was injected"));
  int ns = sim::range(W, 1, 3);
  for (int i = 0; i < ns; i++) {
    Usrv *u = new Usrv(); u->kind = (Kind)sim::pick(W, {3, 2, 2, 1, 1}); u->port = 9000 + i; u->ri = 16 + sim::draw(W, 600); u->rm = u->ri + (sim::chance(W, 1, 3) ? 0 : sim::draw(W, 4000)); u->next = 0; u->errs = u->oks = 0; if (u->kind == HTTP && u->rm < 120) u->rm = 120;
    int r = 0; { sim::User uu; u->id = comm->createSrv(SRV_UDP, "0.0.0.0", u->port, u->ri, u->rm, 1000, 1000); if (u->id >= 0) { r = comm->setProcessor(u->id, u, pkg_type(u->kind)); if (u->kind == LINE) comm->setPkgFilter(u->id, new LineFilter); } }
    if (u->id < 0) { if (sim::net().fd_floor + 12 > maxc) { sim::probe("no_room"); return; } sim::violate("create-failed", "createSrv failed: %s", comm->getErrMsg()); } if (r) sim::violate("setup-failed", "setProcessor failed");
    t->srv.push_back(u);
  }
  loop_fid = sim::spawn("loop", [] { sim::User u; comm->start(); });
  int np = sim::range(W, 1, 4); std::vector<sim::Fid> fs;
  for (int i = 0; i < np; i++) { Peer *p = new Peer(); char b[20]; snprintf(b, sizeof b, "10.%d.0.%d", (int)sim::draw(W, 200), 1 + i); p->ip = b; p->port = sim::chance(W, 1, 2) ? 40000 : 40000 + i; p->u = sim::udp_peer(p->port, b); t->peers.push_back(p); }
  // one intr counter serves all servers' sockets: with several, faults are attributed per event
  for (auto *p : t->peers) { sim::spawn("peer-recv", [p] { drain_peer(p); });
    fs.push_back(sim::spawn("peer", [p] {
      int n = sim::draw(W, 16);
      for (int i = 0; i < n; i++) {
        Usrv *u = t->srv[sim::draw(W, t->srv.size())]; std::string d; Dg g; make_dgram(u, d, g); auto it = t->sent.find(d); if (it != t->sent.end() && (it->second.outcome != g.outcome || it->second.pkg != g.pkg)) continue; t->sent[d] = g;
        if (sim::chance(W, 1, 12)) for (int j = 0; j < 3; j++) sim::udp_peer_send(p->u, u->port, d);
        sim::udp_peer_send(p->u, u->port, d); if (sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 40) * MS);
      }
    })); }
  sim::wait_all(fs); sim::sleep_for(3 * SEC); sim::faults_off();
  for (auto *u : t->srv) {
    bool ok = sim::block([u] { return u->next >= sim::udp_arrivals(u->port); }, in(20 * SEC));
    if (!ok) sim::violate("datagram-lost", "the server on port %u received %zu datagrams and reported %zu", u->port, sim::udp_arrivals(u->port), u->next);
  }
  sim::sleep_for(3 * SEC);
  // a healthy network: one more datagram each, answered
  t->budget = 0; for (auto *u : t->srv) { Peer *p = t->peers[0]; std::string d = make_pkg(u->kind, 20); if (d.size() > u->rm) continue; Dg g; g.outcome = 0; g.pkg = d; if (t->sent.count(d) && t->sent[d].outcome) continue; t->sent[d] = g; size_t k = u->next; sim::udp_peer_send(p->u, u->port, d); if (!sim::block([u, k] { return u->next > k; }, in(5 * SEC))) sim::violate("datagram-lost", "a datagram sent to an idle server was not reported within 5 s"); }
  bool lossless = !sim::faults_fired(sim::FT_udp_loss); for (auto *p : t->peers) for (auto &e : p->expect) if (lossless && e.second > 0) sim::violate("send-lost", "%s:%u did not receive a datagram of %zu bytes that writeTo accepted, on a network that lost nothing", p->ip.c_str(), p->port, e.first.size());
  t->over = true;
}
namespace {
struct Svr { std::vector<Peer *> hosts; bool over; uint64_t seq; } *sv;
struct Cu { CUdpConnector *c; bool conn; std::string sip; uint16_t sport; std::string lip; std::set<std::string> written; std::map<std::string, std::pair<std::string, uint16_t>> writes; uint16_t lport; };
std::map<uint16_t, int> replies;
}
SCENARIO("C19", udp_client, 3) {
  sim::default_schedule(); sim::net().lat_min = sim::chance(W, 1, 2) ? 50 * US : (1 + sim::draw(W, 30)) * MS; sim::net().lat_jit = sim::chance(W, 1, 2) ? 0 : sim::draw(W, 5) * MS;
  bool loss = sim::chance(W, 1, 3), faulty = sim::chance(W, 1, 3); if (loss) sim::fault_swarm({sim::FT_udp_loss, sim::FT_udp_dup, sim::FT_udp_reorder}, 4); if (faulty) sim::fault_swarm({sim::FT_recv_eintr, sim::FT_send_eagain, sim::FT_sock_fail}, 6);
  // interfaces: none, loopback only, public, private, without address
  int ni = sim::draw(W, 4); std::string priv; for (int i = 0; i < ni; i++) { int k = sim::pick(W, {2, 2, 2, 1}); std::string a = k == 0 ? "127.0.0.1" : k == 1 ? "8.8.4." + std::to_string(4 + i) : k == 2 ? (sim::chance(W, 1, 2) ? "10.1.2." : "192.168.1.") + std::to_string(3 + i) : ""; sim::net().ifs.push_back(a); if (k == 2 && priv.empty()) priv = a; }
  if (!ni) sim::net().ifs.push_back("127.0.0.1");
  sv = new Svr(); sv->over = false; sv->seq = 0; int base = sim::fds_open(); int nc = sim::pick(W, {3, 2, 1}) + 1; bool several = nc > 1, lock = sim::chance(W, 1, 2); std::vector<sim::Fid> fs;
  static std::vector<std::vector<std::string>> rx; rx.clear(); // datagrams the harness hosts received
  for (int i = 0; i < 2; i++) { Peer *p = new Peer(); p->ip = i ? "10.9.9.9" : "127.0.0.1"; p->port = 7000 + (int)sim::draw(W, 2) * i; p->u = sim::udp_peer(p->port, p->ip.c_str()); sv->hosts.push_back(p); }
  static int live; live = nc; static std::vector<Cu *> cus; cus.clear();
  for (int ci = 0; ci < nc; ci++) {
    Cu *c = new Cu(); c->conn = false; cus.push_back(c); UR(c->c = new CUdpConnector);
    fs.push_back(sim::spawn("udp-client", [=] {
      int n = sim::range(W, 1, 16); std::deque<std::string> fromhost; size_t arr = 0; uint16_t lport = 0; int fd = -1; std::string lip; sim::UdpPeer *talk = nullptr; std::string talkip; bool dup = false; (void)dup;
      for (int i = 0; i < n; i++) {
        int op = several && lock && i == 0 ? 0 : sim::pick(W, {c->conn ? 1 : 4, 4, 4, 3, 1});
        if (op == 0) {
          bool withip = !(several && lock) && sim::chance(W, 1, 3); std::string l = withip ? (sim::chance(W, 1, 6) ? "8.1.1.1" : "127.0.0.1") : ""; uint16_t lp = sim::chance(W, 1, 2) ? 0 : 6000 + ci; Peer *h = sv->hosts[sim::draw(W, 2)]; bool ok; std::string hip = h->ip; uint64_t sf = sim::faults_fired(sim::FT_sock_fail);
          int before = sim::fds_open(); bool had = c->conn; bool openfd = fd >= 0 && had; (void)openfd;
          { sim::User u; ok = c->c->connect(hip, h->port, l, lp); }
          bool mustfail = l == "8.1.1.1", mustok = !mustfail && sim::faults_fired(sim::FT_sock_fail) == sf;
          if (ok && mustfail) sim::violate("false-success", "connect with a local address this machine does not have succeeded");
          if (!ok && mustok) sim::violate("false-failure", "UDP connect failed without a reason: %s", c->c->getErrMsg());
          if (!several && sim::fds_open() != base + (ok ? 1 : 0)) sim::violate("fd-leak", "UDP connect (%s, was %sconnected) leaves %d descriptors open, %d before: %s", ok ? "succeeded" : "failed", had ? "" : "not ", sim::fds_open() - base, before - base, sim::fds_describe().c_str());
          c->conn = ok; sim::op_done(); if (!ok) continue; sim::probe("udp_connected");
          c->sip = hip; c->sport = h->port; c->lip = withip ? l : sim::faults_fired(sim::FT_sock_fail) != sf ? "" : priv; lport = lp; arr = 0; fromhost.clear(); talk = h->u; talkip = h->ip; if (had) sim::probe("reconnected");
          c->lport = sim::udp_bound_by(sim::self()); if (lp && c->lport != lp) sim::violate("wrong-source", "a UDP client asked to use port %u uses %u", lp, c->lport);
        } else if (op == 1) {
          char hd[40]; snprintf(hd, sizeof hd, "c%d:%llu:", ci, (unsigned long long)sv->seq++); std::string d = std::string(hd) + rnd_bytes(sim::draw(W, sim::chance(W, 1, 4) ? 3000 : 50)); if (sim::chance(W, 1, 15)) d.resize(65500 + sim::draw(W, 16), 'z');
          char *b; UR(b = new char[d.size()]); memcpy(b, d.data(), d.size()); int r, nn = d.size(); uint64_t c0 = sim::udp_sent_count();
          Peer *h = nullptr; for (auto *x : sv->hosts) if (x->ip == c->sip) h = x; if (c->conn) h->expect[d]++; c->written.insert(d); c->writes[d] = {c->lip.empty() ? "0.0.0.0" : c->lip, c->lport};
          { sim::User u; r = c->c->write(b, nn); delete[] b; }
          uint64_t c1 = sim::udp_sent_count(); sim::op_done();
          if (!c->conn) { if (r >= 0) sim::violate("false-success", "write without a connect returned %d", r); continue; }
          if (r < 0) { if (c1 != c0) sim::violate("send-despite-error", "a failed write sent a datagram"); h->expect[d]--; if (nn <= 65507 && !sim::faults_fired(sim::FT_send_eagain) && !sim::faults_fired(sim::FT_recv_eintr)) sim::violate("false-failure", "writing a datagram of %d bytes failed without a reason: %s", nn, c->c->getErrMsg()); if (r != -1) sim::violate("bad-result", "write returned %d", r); continue; }
          if (r != nn) sim::violate("bad-result", "writing a datagram of %d bytes returned %d: %s", nn, r, c->c->getErrMsg());
          if (c1 != c0 + 1) sim::violate("send-lost", "write of %d bytes reported success and sent %llu datagrams", nn, (unsigned long long)(c1 - c0));
          // the host learns the client's address from it
          Peer *hh = h; sim::sleep_for(1 * MS); (void)hh;
        } else if (op == 2 || op == 3) {
          ns_t lim = (1 + sim::draw(W, sim::chance(W, 1, 3) ? 1500 : 60)) * MS; time_t ms = lim / MS; int kind = op - 2; size_t n2 = 1 + sim::draw(W, sim::chance(W, 1, 3) ? 30 : 4000); int nn = n2, r; char *b = nullptr; std::string *str = nullptr, got; { sim::User u; if (kind) str = new std::string("old"); else b = new char[n2]; }
          ns_t t0 = sim::now(); uint64_t i0 = intr();
          { sim::User u; r = kind ? c->c->read(*str, ms) : c->c->read(b, nn, ms); }
          ns_t el = sim::now() - t0; sim::op_done(); if (kind) got = *str; else if (r > 0 && r <= nn) got.assign(b, r); { sim::User u; delete str; delete[] b; }
          if (r < -1 || (kind == 0 && r > nn)) sim::violate("bad-result", "read into %zu bytes returned %d", n2, r);
          if (el > lim + 8 * MS) sim::violate("limit-exceeded", "a UDP read took %.1f ms, its limit is %.1f ms", el / 1e6, lim / 1e6);
          if (r > 0) {
            if (!c->conn) sim::violate("data-invented", "a read without a connect returned %d bytes", r); if (kind && got.size() != (size_t)r) sim::violate("bad-result", "read returned %d and %zu bytes", r, got.size());
            if (arr >= sim::udp_arrivals(c->lport)) sim::violate("data-invented", "a read returned %d bytes, but no datagram had arrived", r);
            std::string a = sim::udp_arrival(c->lport, arr++).data; if (kind == 0 && a.size() > n2) a.resize(n2);
            if (a != got) sim::violate("datagram-altered", "a read returned %d bytes that are not the next datagram (%zu bytes)", r, a.size()); sim::probe("datagram_read");
          } else {
            if (kind && c->conn && !got.empty() ) sim::violate("data-invented", "a failed read left %zu bytes in the string", got.size());
            if (c->conn) { size_t av = c->lport ? sim::udp_arrivals(c->lport) : 0; if (av > arr && intr() == i0) sim::violate("false-failure", "a UDP read failed after %.1f ms although a datagram had arrived", el / 1e6); if (el + MS < lim && intr() == i0 && !several) sim::violate("false-failure", "a UDP read failed after %.1f ms, its limit is %.1f ms", el / 1e6, lim / 1e6); if (intr() == i0 && r == 0) sim::violate("bad-result", "a read that failed returned 0"); sim::probe("udp_read_failed"); }
            else if (r >= 0 && c->conn == false && r > 0) sim::violate("data-invented", "a read without a connect returned %d", r);
          }
        } else { UR(c->c->close()); c->conn = false; if (!several && sim::fds_open() != base) sim::violate("fd-leak", "close() leaves a descriptor open"); }
        // the hosts answer what they got
        for (auto *h : sv->hosts) { std::string d, ip; uint16_t sp; while (sim::udp_peer_recv(h->u, d, sp, sim::now(), &ip)) {
          auto it = h->expect.find(d); if (it == h->expect.end()) sim::violate("send-altered", "%s received %zu bytes nobody wrote to it", h->ip.c_str(), d.size());
          if (--it->second < 0 && !sim::faults_fired(sim::FT_udp_dup)) sim::violate("send-twice", "%s received a datagram twice", h->ip.c_str());
          Cu *o = nullptr; for (auto *x : cus) if (x->writes.count(d)) o = x;
          if (o && o->writes[d].first != "0.0.0.0" && ip != o->writes[d].first) sim::violate("wrong-source", "a datagram of a client bound to %s arrived from %s", o->writes[d].first.c_str(), ip.c_str());
          if (o && sp != o->writes[d].second) sim::violate("wrong-source", "a datagram of a client bound to port %u arrived from %u", o->writes[d].second, sp);
          int k = sim::pick(W, {2, 4, 1}); for (int j = 0; j < k; j++) { char hd[40]; snprintf(hd, sizeof hd, "s%llu:", (unsigned long long)sv->seq++); sim::udp_peer_send(h->u, sp, std::string(hd) + rnd_bytes(sim::chance(W, 1, 8) ? 1 + sim::draw(W, 65000) : sim::draw(W, 200)), ip.c_str()); } } }
        sim::state_mark(ci * 100 + op * 20 + c->conn * 10 + std::min(i, 9)); sim::state_mark(1000 + arr * 16 + op * 2 + c->conn);
      }
      live--;
    }));
  }
  sim::wait_all(fs); sim::sleep_for(500 * MS);
  for (auto *h : sv->hosts) { std::string d, ip; uint16_t sp; while (sim::udp_peer_recv(h->u, d, sp, sim::now(), &ip)) { auto it = h->expect.find(d); if (it == h->expect.end()) sim::violate("send-altered", "%s received %zu bytes nobody wrote to it", h->ip.c_str(), d.size()); if (--it->second < 0 && !sim::faults_fired(sim::FT_udp_dup)) sim::violate("send-twice", "%s received a datagram twice", h->ip.c_str()); }
    if (!sim::faults_fired(sim::FT_udp_loss)) for (auto &e : h->expect) if (e.second > 0) sim::violate("send-lost", "a written datagram of %zu bytes did not reach %s on a network that lost nothing", e.first.size(), h->ip.c_str()); }
  for (auto *c : cus) UR(delete c->c);
  if (sim::fds_open() != base) sim::violate("fd-leak", "destroyed UDP clients left descriptors open: %s", sim::fds_describe().c_str());
}
