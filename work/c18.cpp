// C18: the blocking TCP client against servers that accept, refuse, stay silent, split, delay, stall, reset and close.
#include "common.h"
#include <unistd.h>
#include <sys/socket.h>
#include "CTcpConnector.h"
using namespace lce;
namespace {
struct Sv { sim::Tcp *t; int id; std::string sent, rcvd; std::vector<std::pair<ns_t, size_t>> sends; bool fin, rst_by_us, gone, reading, script_over; int dead; ns_t fin_at; };
std::vector<std::unique_ptr<Sv>> *svs; sim::Listener *lis; int g_mode; std::string g_ip; int by_fd; bool g_faulty; ns_t g_latmax; bool g_over, g_final; size_t g_known;
const ns_t SLACK = 8 * MS;
char byte_of(int id, size_t off) { uint64_t h = (uint64_t)id * 0x9E3779B97F4A7C15ull + off * 0xC2B2AE3D27D4EB4Full; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return (char)h; }
void server_conn(Sv *s) {
  sim::spawn("srv-read", [s] { // the receiving half: may pause
    while (!g_over) {
      if (!s->reading) { if (!sim::block([s] { return s->reading || g_over || s->gone; }, in(300 * SEC))) return; }
      if (s->gone) return;
      size_t max = sim::chance(W, 1, 2) ? 1 + sim::draw(W, 50) : 100000; int r = sim::peer_recv(s->t, s->rcvd, max, in(200 * MS));
      if (r == 0 || r == -1) { s->dead = r == 0 ? 1 : 2; if (r == 0) return; return; }
      if (r > 0 && sim::chance(W, 1, 4)) sim::sleep_for(sim::draw(W, 30) * MS);
    }
  });
  int n = sim::draw(W, 12); bool polite = sim::chance(W, 1, 2);
  for (int i = 0; i < n && !g_over && !s->gone; i++) {
    switch (sim::pick(W, {6, 3, 1, 1, 1, polite ? 0 : 1, polite ? 0 : 1})) {
    case 0: { size_t k = 1 + sim::draw(W, sim::chance(W, 1, 5) ? 5000 : 40); std::string d; for (size_t j = 0; j < k; j++) d += byte_of(s->id, s->sent.size() + j);
      size_t done = sim::peer_send(s->t, d.data(), k); if (done) { s->sent.append(d, 0, done); s->sends.push_back({sim::now(), s->sent.size()}); } break; }
    case 1: sim::sleep_for(sim::draw(W, 60) * MS); break;
    case 2: sim::sleep_for(sim::draw(W, 2000) * MS); break;
    case 3: if (!g_final) s->reading = false; break;
    case 4: s->reading = true; break;
    case 5: sim::fault_count(sim::FT_peer_close); s->fin = true; s->fin_at = sim::now(); if (sim::chance(W, 1, 2)) sim::peer_shutdown_wr(s->t); else { s->gone = true; sim::peer_close(s->t); } i = n; break;
    case 6: sim::fault_count(sim::FT_peer_reset); s->rst_by_us = true; s->gone = true; sim::peer_reset(s->t); i = n; break;
    }
  }
  if (!s->gone && sim::chance(W, 2, 3)) s->reading = true;
  s->script_over = true;
}
void server() {
  while (!g_over) {
    sim::Tcp *t = sim::peer_accept(lis, in(100 * MS)); if (!t) continue;
    Sv *s = new Sv(); s->t = t; s->id = svs->size() + 1; s->fin = s->rst_by_us = s->gone = s->script_over = false; s->reading = true; s->dead = 0; s->fin_at = 0; svs->emplace_back(s);
    sim::spawn("srv-conn", [s] { server_conn(s); });
  }
}
struct Cl { CTcpConnector *c; Sv *cur; std::vector<size_t> offs; std::string wrote; bool ever, conn; ns_t ctmo; uint16_t port; int base; uint64_t seq; bool so_lost; } *cl;
uint64_t intr() { return sim::faults_fired(sim::FT_signal_intr); }
uint64_t rintr() { return sim::faults_fired(sim::FT_recv_eintr); }
uint64_t hard() { return sim::faults_fired(sim::FT_sock_fail) + sim::faults_fired(sim::FT_conn_refused) + sim::faults_fired(sim::FT_conn_timeout) + sim::faults_fired(sim::FT_fd_limit) + intr(); }
void drop_cur() { cl->cur = nullptr; cl->conn = false; cl->offs.clear(); cl->wrote.clear(); }
bool usable(Sv *s) { return s && !s->fin && !s->gone && !s->rst_by_us; }
void check_prefix(const char *op) {
  Sv *s = cl->cur; if (!s) return;
  if (s->rcvd.size() > cl->wrote.size() || cl->wrote.compare(0, s->rcvd.size(), s->rcvd)) sim::violate("bytes-sent-wrong", "%s: the server received %zu bytes that are not the %zu bytes reported as written", op, s->rcvd.size(), cl->wrote.size());
}
// one (re)connect happened inside the call that started at t0; ok: its outcome
void after_connect(const char *op, bool ok, ns_t t0, uint64_t h0, int mode0, uint64_t d0, ns_t extra) {
  ns_t el = sim::now() - t0; bool delayed = sim::faults_fired(sim::FT_net_delay) != d0;
  if (el > cl->ctmo + extra + SLACK) sim::violate("limit-exceeded", "%s took %.1f ms, its limit is %.1f ms", op, el / 1e6, (cl->ctmo + extra) / 1e6);
  if (ok) {
    Sv *f = nullptr; size_t known = g_known;
    sim::block([&] { for (size_t i = known; i < svs->size(); i++) if (sim::fd_of_peer((*svs)[i]->t) >= 0) { f = (*svs)[i].get(); return true; } return false; }, in(20 * MS));
    if (!f) sim::violate("false-connect", "%s reported success, but no server accepted a connection", op);
    if (sim::fds_open() != cl->base + 1) sim::violate("fd-leak", "%s: %d descriptors open after it, %d expected: %s", op, sim::fds_open(), cl->base + 1, sim::fds_describe().c_str());
    g_known = svs->size(); cl->cur = f; cl->conn = true; cl->ever = true; cl->offs.assign(1, 0); cl->wrote.clear(); sim::probe("connected");
    return;
  }
  drop_cur(); sim::probe("connect_failed"); sim::block([] { return false; }, in(1)); 
  if (sim::fds_open() != cl->base) sim::violate("fd-leak", "%s failed and left %d descriptors open, %d before: %s", op, sim::fds_open(), cl->base, sim::fds_describe().c_str());
  if (hard() == h0 && mode0 == 0 && g_mode == 0 && !delayed && cl->port == 5000 && g_latmax * 5 / 4 + 3 * MS < cl->ctmo) sim::violate("false-failure", "%s failed after %.1f ms although the server accepts within %.1f ms and the limit is %.1f ms: %s", op, el / 1e6, g_latmax / 1e6, cl->ctmo / 1e6, cl->c->getErrMsg());
  g_known = svs->size();
}
void op_connect() {
  cl->port = sim::chance(W, 1, 8) ? 5001 : 5000;
  switch (sim::pick(W, {4, 2, 1})) { case 0: cl->ctmo = (20 + sim::draw(W, 200)) * MS; break; case 1: cl->ctmo = (1 + sim::draw(W, 20)) * MS; break; default: cl->ctmo = (900 + sim::draw(W, 3000)) * MS; }
  ns_t t0 = sim::now(); uint64_t h0 = hard(), d0 = sim::faults_fired(sim::FT_net_delay); int m0 = g_mode; bool ok; std::string ip = g_ip; uint16_t port = cl->port; time_t ms = cl->ctmo / MS;
  drop_cur();
  { sim::User u; ok = cl->c->connect(ip, port, ms); }
  after_connect("connect", ok, t0, h0, m0, d0, 0); cl->ever = true;
}
void op_write() {
  size_t n = 1 + sim::draw(W, sim::chance(W, 1, 3) ? sim::chance(W, 1, 8) ? 300000 : 20000 : 60); std::string d; for (size_t i = 0; i < n; i++) d += (char)(cl->seq * 31 + (cl->seq++ >> 8) * 17);
  ns_t lim = (sim::chance(W, 1, 3) ? 1 + sim::draw(W, 30) : 50 + sim::draw(W, 3000)) * MS; ns_t t0 = sim::now(); uint64_t h0 = hard(), d0 = sim::faults_fired(sim::FT_net_delay); int m0 = g_mode; int r; bool had = cl->conn; Sv *s0 = cl->cur; bool us0 = usable(s0) && s0->reading; char *b; UR(b = new char[n]); memcpy(b, d.data(), n); int ni = n; time_t ms = lim / MS;
  if (had) sim::block([] { return false; }, in(1));
  check_prefix("write");
  { sim::User u; r = cl->c->write(b, ni, ms); delete[] b; }
  ns_t el = sim::now() - t0; if (el > lim + (had ? 0 : cl->ctmo) + SLACK) sim::violate("limit-exceeded", "write of %zu bytes took %.1f ms with a limit of %.1f ms", n, el / 1e6, lim / 1e6);
  if (r == 0 || r < -1 || r > (int)n) sim::violate("bad-result", "write of %zu bytes returned %d", n, r);
  sim::ev("write %zu -> %d", n, r);
  if (!had) {
    if (!cl->ever) { if (r > 0) sim::violate("data-invented", "a write before any connect reported %d bytes written", r); if (sim::fds_open() != cl->base) sim::violate("fd-leak", "a write before any connect left a descriptor open"); sim::probe("write_before_connect"); return; }
    if (r > 0) { after_connect("reconnecting write", true, t0, h0, m0, d0, lim); sim::probe("write_reconnected"); }
    else {
      bool accepted = svs->size() > g_known;
      if (!accepted) after_connect("reconnecting write", false, t0, h0, m0, d0, lim); else { drop_cur(); g_known = svs->size(); }
      if (sim::fds_open() != cl->base) sim::violate("fd-leak", "a failed write left %d descriptors open, %d before", sim::fds_open(), cl->base);
      return;
    }
  }
  if (r > 0) { cl->wrote.append(d, 0, r); if (r < (int)n) sim::probe("partial_write"); sim::op_done(); return; }
  if (had) {
    Sv *s = s0;
    if (us0 && usable(s) && s->reading && sim::faults_fired(sim::FT_net_delay) == 0 && lim > 4000 * MS) sim::violate("false-failure", "write failed after %.1f ms (limit %.1f ms) to a server that is reading: %s", el / 1e6, lim / 1e6, cl->c->getErrMsg());
    if (usable(s) && el + MS < lim) sim::violate("false-failure", "write failed after %.1f ms, its limit is %.1f ms and the connection is intact: %s", el / 1e6, lim / 1e6, cl->c->getErrMsg());
    if (sim::fds_open() != cl->base) sim::violate("fd-leak", "a failed write left %d descriptors open, %d before", sim::fds_open(), cl->base);
    // bytes of earlier writes may still arrive; nothing of the failed write may
    sim::probe("write_failed"); drop_cur();
  }
}
void match(const char *op, const char *p, size_t n) {
  Sv *s = cl->cur; std::vector<size_t> nx;
  for (size_t o : cl->offs) if (o + n <= s->sent.size() && !memcmp(s->sent.data() + o, p, n)) nx.push_back(o + n);
  if (nx.empty()) sim::violate("bytes-read-wrong", "%s returned %zu bytes that the server did not send next (position %zu%s of %zu sent)", op, n, cl->offs.empty() ? 0 : cl->offs.front(), cl->offs.size() > 1 ? "+" : "", s->sent.size());
  cl->offs = nx;
}
void op_read() {
  int kind = sim::pick(W, {3, 2, 3}); size_t n = kind == 1 ? 65535 : 1 + sim::draw(W, sim::chance(W, 1, 4) ? 6000 : 60);
  ns_t lim = (sim::chance(W, 1, 3) ? 1 + sim::draw(W, 20) : 20 + sim::draw(W, 1500)) * MS; time_t ms = lim / MS; int ni = n; int r; char *b = nullptr; std::string *str = nullptr, got;
  { sim::User u; if (kind == 1) str = new std::string("old"); else b = new char[n]; }
  ns_t t0 = sim::now(); uint64_t i0 = rintr(); const char *op = kind == 0 ? "read" : kind == 1 ? "read(string)" : "readn"; bool had = cl->conn; uint64_t sp0 = sim::faults_fired(sim::FT_net_split);
  { sim::User u; r = kind == 0 ? cl->c->read(b, ni, ms) : kind == 1 ? cl->c->read(*str, ms) : cl->c->readn(b, ni, ms); }
  ns_t el = sim::now() - t0; sim::ev("%s %zu -> %d", op, n, r); (void)sp0;
  if (r < -1 || r > (int)n) sim::violate("bad-result", "%s of %zu bytes returned %d", op, n, r);
  if (kind == 1) { got = *str; if (r >= 0 && got.size() != (size_t)r) sim::violate("bad-result", "read(string) returned %d and left %zu bytes in the string", r, got.size()); if (r < 0 && had && !got.empty()) sim::violate("data-invented", "read(string) failed and left %zu bytes in the string", got.size()); }
  else if (r > 0) got.assign(b, r);
  { sim::User u; delete[] b; delete str; }
  Sv *s = cl->cur;
  if (!had) { if (r >= 0) sim::violate("data-invented", "%s without a connection returned %d", op, r); if (el > SLACK) sim::violate("limit-exceeded", "%s without a connection took %.1f ms", op, el / 1e6); sim::probe("read_unconnected"); return; }
  size_t segs = 1; if (kind == 2) { size_t lo = cl->offs.front(); for (auto &x : s->sends) if (x.second > lo) segs++; segs += sim::faults_fired(sim::FT_net_split) + sim::faults_fired(sim::FT_short_recv); }
  if (el > lim * segs + SLACK) sim::violate("limit-exceeded", "%s took %.1f ms, its limit is %.1f ms (data arrived at most %zu times)", op, el / 1e6, lim / 1e6, segs - 1);
  if (r > 0) { match(op, got.data(), r); sim::op_done(); sim::probe(kind == 2 ? "readn_data" : "read_data"); }
  bool ended = s->fin || s->rst_by_us || s->dead == 2 || s->gone;
  if (r == 0 || (kind == 2 && r >= 0 && r < (int)n)) { // the server's end of the stream
    if (!ended) sim::violate("data-invented", "%s reported the end of the stream (%d) but the server did not close", op, r);
    bool rst = s->rst_by_us || s->gone; // a closing server answers later writes with a reset, which overtakes its data
    if (!rst) { bool all = false; for (size_t o : cl->offs) if (o == s->sent.size()) all = true; if (!all) sim::violate("bytes-lost", "%s reported the end of the stream after %zu of %zu bytes", op, cl->offs.front(), s->sent.size()); }
    sim::probe("read_end"); drop_cur();
    if (sim::fds_open() > cl->base + 1) sim::violate("fd-leak", "descriptors left open after the stream's end"); cl->base = cl->base; return;
  }
  if (r == -1) {
    if (kind == 2 && n > 1) { std::vector<size_t> nx; size_t next = 0; for (size_t o : cl->offs) for (size_t j = std::max(o, next); j < o + n && j <= s->sent.size(); j++) { nx.push_back(j); next = j + 1; } cl->offs = nx; }
    bool intr_ = rintr() != i0 || s->rst_by_us || s->dead == 2 || s->gone || sim::faults_fired(sim::FT_net_delay); // the plain end of the stream is no failure
    if (!intr_) {
      if (el + MS < lim) sim::violate("false-failure", "%s failed after %.1f ms, its limit is %.1f ms and the connection is intact: %s", op, el / 1e6, lim / 1e6, cl->c->getErrMsg());
      if (kind != 2) { size_t av = 0; for (auto &x : s->sends) if (x.first + g_latmax + 3 * MS < sim::now()) av = x.second; if (av > cl->offs.back()) sim::violate("false-failure", "%s reported failure although %zu bytes had arrived before its time limit: %s", op, av - cl->offs.back(), cl->c->getErrMsg()); }
    }
    sim::probe("read_failed");
  }
}
void op_close() { check_prefix("close"); UR(cl->c->close()); drop_cur(); if (sim::fds_open() != cl->base) sim::violate("fd-leak", "close() left %d descriptors open, %d before connecting", sim::fds_open(), cl->base); }
// another part of the program opens and closes a descriptor of its own
void bystander() {
  if (by_fd >= 0) { int r; UR(r = ::close(by_fd)); by_fd = -1; if (r < 0) sim::violate("foreign-close", "the connector closed a descriptor that is not its own"); cl->base--; return; }
  UR(by_fd = ::socket(AF_INET, SOCK_DGRAM, 0)); if (by_fd >= 0) { cl->base++; sim::probe("bystander"); }
}
void run(bool highfd) {
  sim::net().lat_min = sim::chance(W, 1, 3) ? 20 * US : (1 + sim::draw(W, 60)) * MS; sim::net().lat_jit = sim::chance(W, 1, 2) ? 0 : sim::draw(W, 10) * MS + 1;
  if (sim::chance(W, 1, 6)) sim::net().lat_min = (200 + sim::draw(W, 3000)) * MS;
  g_latmax = sim::net().lat_min + sim::net().lat_jit + 1000; g_over = g_final = false; g_mode = 0; g_known = 0; g_faulty = sim::chance(W, 1, 2);
  if (sim::chance(W, 1, 2)) { sim::net().sndbuf = 200 + sim::draw(W, 4000); sim::net().rcvbuf = 200 + sim::draw(W, 4000); }
  if (sim::chance(W, 2, 3)) sim::fault_swarm({sim::FT_net_split, sim::FT_short_recv}, 4);
  if (g_faulty) { sim::fault_swarm({sim::FT_conn_refused, sim::FT_conn_timeout, sim::FT_recv_eintr, sim::FT_signal_intr, sim::FT_sock_fail, sim::FT_net_reset, sim::FT_short_send}, 6); if (sim::chance(W, 1, 3)) sim::fault_rate(sim::FT_net_delay, 1, 6); }
  if (sim::chance(W, 1, 2)) sim::fault_rate(sim::FT_conn_immediate, 1, 2);
  if (highfd) { sim::net().fd_max = 5000; sim::net().fd_floor = sim::pick(W, {1, 2, 1}) == 1 ? 1015 + sim::draw(W, 30) : 300 + sim::draw(W, 4000); sim::probe("high_fd"); }
  svs = new std::vector<std::unique_ptr<Sv>>; { uint32_t a = sim::chance(W, 1, 2) ? 0x7f000001 : 0x0a141e00 + sim::draw(W, 200); char b[20]; snprintf(b, sizeof b, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); g_ip = b; lis = sim::peer_listen(5000, a); } by_fd = -1; sim::spawn("server", server);
  cl = new Cl(); cl->cur = nullptr; cl->ever = cl->conn = false; cl->ctmo = 3 * SEC; cl->port = 5000; cl->seq = sim::draw(W, 1000); cl->base = sim::fds_open(); UR(cl->c = new CTcpConnector);
  if (highfd) cl->base = sim::fds_open();
  sim::Fid f = sim::spawn("client", [] {
    int n = sim::range(W, 2, 25); std::string hist;
    for (int i = 0; i < n; i++) {
      if (sim::chance(W, 1, 8)) { g_mode = sim::pick(W, {4, 1, 1}); sim::listener_mode(lis, g_mode); if (g_mode) sim::probe(g_mode == 1 ? "refusing" : "blackhole"); }
      if (sim::chance(W, 1, 8)) { int m = sim::net().fd_max; sim::net().fd_max = sim::chance(W, 1, 2) ? m : m; }
      if (sim::chance(W, 1, 6)) bystander();
      int op = sim::pick(W, {cl->conn ? 2 : 6, 5, 6, 1, 1}); sim::step();
      switch (op) { case 0: op_connect(); break; case 1: op_write(); break; case 2: op_read(); break; case 3: op_close(); break; default: sim::sleep_for(sim::draw(W, 200) * MS); }
      hist += "cwrx."[op]; hist += cl->conn ? '1' : '0'; if (hist.size() > 8) hist.erase(0, 2); sim::state_mark(std::hash<std::string>()(hist));
    }
  });
  sim::wait_all({f}); g_final = true;
  if (cl->conn && usable(cl->cur)) { // nothing disturbs any more: everything reported as written arrives
    sim::faults_off(); Sv *s = cl->cur; s->reading = true; 
    bool got = sim::block([s] { return s->rcvd.size() >= cl->wrote.size() || !usable(s) || s->dead; }, in(120 * SEC)); check_prefix("end");
    if (usable(s) && s->dead != 2 && (!got || s->rcvd.size() != cl->wrote.size())) sim::violate("bytes-lost", "%zu bytes were reported as written, the server received %zu", cl->wrote.size(), s->rcvd.size());
  }
  if (by_fd >= 0) bystander();
  // reconnecting to a healthy server yields a clean connection
  sim::faults_off(); g_mode = 0; sim::listener_mode(lis, 0); sim::net().lat_min = 1 * MS; sim::net().lat_jit = 0; g_latmax = MS; drop_cur(); cl->port = 5000; cl->ctmo = 200 * MS; sim::sleep_for(5 * SEC);
  ns_t t0 = sim::now(); uint64_t h0 = hard(), d0 = sim::faults_fired(sim::FT_net_delay); bool ok; std::string ip = g_ip; { sim::User u; ok = cl->c->connect(ip, 5000, 200); } after_connect("last connect", ok, t0, h0, 0, d0, 0);
  Sv *s = cl->cur; std::string m = "final message"; int r; { sim::User u; r = cl->c->write(m.data(), 13, 1000); }
  if (usable(s)) { if (r != 13) sim::violate("false-failure", "writing 13 bytes on a new connection returned %d: %s", r, cl->c->getErrMsg()); s->reading = true; cl->wrote = m; sim::block([s] { return s->rcvd.size() >= 13 || !usable(s); }, in(20 * SEC)); check_prefix("last write"); if (usable(s) && s->rcvd != m) sim::violate("bytes-lost", "the last message did not arrive (%zu of 13 bytes, conn %d, reading %d, readable %zu)", s->rcvd.size(), s->id, s->reading, sim::peer_readable(s->t)); }
  for (int i = 0; i < 40 && cl->conn; i++) op_read();
  { sim::User u; delete cl->c; } g_over = true;
  if (sim::fds_open() != cl->base) sim::violate("fd-leak", "the destroyed connector left a descriptor open: %s", sim::fds_describe().c_str());
  if (sim::heap_live()) { }
}
}
SCENARIO("C18", connector, 4) { run(false); }
SCENARIO("C18", connector_high_fd, 1) { run(true); }
