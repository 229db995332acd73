// C09: worker pools (raw, HTTP, binary packages) behind the single-thread server.
#include "net.h"
#include "CRawWorkerPool.h"
#include "CHttpWorkerPool.h"
#include "CAnyWorkerPool.h"
using namespace lce;

namespace {
enum K { KRAW, KHTTP, KANY };
enum Out { O_NONE, O_ANSWER, O_THROW, O_REFUSED, O_BAD };
enum Bad { B_OK, B_BAD, B_EITHER };
struct Cli;
struct Req { int id; Cli *c; Bad bad; std::string wire, body, head, uri; int arrived, handled, reported; Out out; std::string answer; bool close, done, sent_back, write_refused; bool answered; };
struct Cli { int id; uint16_t port; sim::Tcp *t; std::vector<Req *> reqs; std::string got; bool fin, rst, peer_gone, sender_done, reader_done, stalled, lockstep, refused, bad_end, mid_bad, closing; size_t raw_in; std::string raw_sent; int ending; ns_t delay; int seen_bytes; std::string tail; };
struct World {
  K kind; std::deque<Req> reqs; std::deque<Cli> clis; std::map<uint16_t, Cli *> by_port; int nthreads, max; uint64_t progress; bool phase2, faults; sim::Fid loop; bool handler_set;
  Req *in_read; int read_errs; Cli *in_msg; int msg_errs; bool in_err; int conn_errs, err_told; std::map<int, Req *> working; int started, arrived; uint32_t sm; bool small_sm; bool stop_calls; int other_errs;
} *w;
CCommMgr *cm;
void on_err(const char *m) {
  sim::Kern k; w->progress++;
  if (w->working.count(sim::self())) {
    Req *r = w->working[sim::self()]; char b[32]; snprintf(b, sizeof b, "fail-%d", r->id);
    if (r->out != O_THROW) sim::violate("error-untrue", "the error handler was told \"%s\" while request %d was being answered normally", m, r->id);
    if (strcmp(m, b)) sim::violate("error-wrong", "the worker failed with \"%s\", the handler was told \"%s\"", b, m);
    if (++r->reported > 1) sim::violate("error-twice", "the failure of request %d was reported twice", r->id);
    return;
  }
  if (sim::self() != w->loop) sim::violate("error-untrue", "the error handler was called outside any request: %s", m);
  if (w->in_msg) { w->msg_errs++; return; }
  if (w->in_err) { w->err_told++; return; }
  if (w->in_read) { w->read_errs++; w->in_read->reported++; if (!strcmp(m, "task queue full")) w->in_read->out = O_REFUSED; else w->in_read->out = O_BAD; return; }
  sim::violate("error-untrue", "the error handler was called outside any request: %s", m);
}
Cli *cli_of(StSession &s) { auto it = w->by_port.find(s.getPort()); if (it == w->by_port.end()) sim::violate("session-wrong", "a request's session names port %u, which no client has", s.getPort()); return it->second; }
int find_id(const char *d, size_t n) {
  if (w->kind == KANY) { if (n < 43) return -1; uint32_t s; memcpy(&s, d + 15, 4); return ntohl(s); }
  for (size_t i = 0; i + 2 < n; i++) if (d[i] == '/' && d[i + 1] == 'r') return atoi(std::string(d + i + 2, std::min<size_t>(9, n - i - 2)).c_str());
  return -1;
}
// what the pool under test sees, recorded on its way in
template <class Base, class Rsp> struct PoolX : Base {
  void onRead(StSession &s, const char *d, const int n) {
    Req *r;
    {
      sim::Kern k; Cli *c = cli_of(s); w->progress++; sim::op_done();
      if (w->kind == KRAW) {
        w->reqs.push_back(Req()); r = &w->reqs.back(); r->id = w->reqs.size() - 1; r->c = c; r->bad = B_OK; r->arrived = r->handled = r->reported = 0; r->out = O_NONE; r->close = r->done = r->sent_back = r->write_refused = r->answered = false; r->wire.assign(d, n); c->reqs.push_back(r);
        if (c->raw_in + n > c->raw_sent.size() || c->raw_sent.compare(c->raw_in, n, d, n)) sim::violate("request-altered", "raw data delivered for client %d is not what it sent", c->id);
        c->raw_in += n;
      } else {
        int id = find_id(d, n); if (id < 0 || (size_t)id >= w->reqs.size()) sim::violate("request-invented", "a package nobody sent was delivered");
        r = &w->reqs[id];
        if (r->c != c) sim::violate("session-wrong", "request %d of client %d came with the session of client %d", id, r->c->id, c->id);
        if (r->wire.size() != (size_t)n || memcmp(r->wire.data(), d, n)) sim::violate("request-altered", "request %d was delivered altered", id);
      }
      if (r->arrived++) sim::violate("request-twice", "request %d was delivered twice", r->id);
      w->in_read = r; w->read_errs = 0; w->arrived++;
    }
    int upper = w->arrived - w->started;
    Base::onRead(s, d, n);
    sim::Kern k; Req *q = w->in_read; w->in_read = nullptr; (void)q;
    if (w->read_errs > 1) sim::violate("error-twice", "request %d was reported %d times on arrival", r->id, w->read_errs);
    sim::TcpInfo ti = sim::tcp_info(r->c->port);
    if (!w->handler_set && r->bad != B_OK && ti.fd < 0) r->out = O_BAD;
    if (r->out == O_REFUSED) { sim::probe("queue_full"); if (upper - 1 < w->max) sim::violate("refused-early", "request %d was refused with at most %d queued, the limit is %d", r->id, upper - 1, w->max); }
    if (r->out == O_BAD) { sim::probe("undecodable"); r->c->bad_end = true; w->started++; if (r->bad == B_OK) sim::violate("error-untrue", "request %d is well formed and was reported as undecodable", r->id); if (ti.fd >= 0) sim::violate("bad-not-closed", "request %d could not be decoded and its connection is still open", r->id); }
    else { if (r->bad == B_BAD && r->out != O_REFUSED) { std::string h; for (unsigned char ch : r->wire.substr(std::min<size_t>(r->wire.size(), w->kind == KANY ? 43 : 0), 60)) { char b[4]; snprintf(b, 4, "%02x", ch); h += b; } sim::violate("bad-unreported", "request %d cannot be decoded and was not reported (%s)", r->id, h.c_str()); } if (ti.fd < 0 && !ti.rst && !r->c->peer_gone && !r->c->closing) sim::violate("close-unasked", "the connection of client %d was closed while request %d was taken in", r->c->id, r->id); if (r->out == O_REFUSED) w->started++; }
  }
  void onError(StSession &s, const char *m, int e) { bool pkg; { sim::Kern k; w->in_err = true; w->err_told = 0; Cli *c = cli_of(s); pkg = c->mid_bad && e != ERR_NOT_READY && e != ERR_SOCKET && e != ERR_OP_EVENT; w->conn_errs++; if (e != ERR_NOT_READY && e != ERR_SOCKET && e != ERR_OP_EVENT && !c->mid_bad) sim::violate("package-error", "client %d sent only valid packages and error %d was reported", c->id, e); if (c->mid_bad && e != ERR_NOT_READY) c->bad_end = true; } Base::onError(s, m, e); sim::Kern k; w->in_err = false; if (pkg && w->handler_set && w->err_told != 1) sim::violate("error-lost", "a client sent something that is no package and the error handler was told %d times", w->err_told); }
  void onMessage(int t, void *p) {
    Cli *c; int n; bool open;
    { sim::Kern k; Rsp *r = (Rsp *)p; c = cli_of(r->getSession()); w->in_msg = c; w->msg_errs = 0; w->progress++; sim::TcpInfo ti = sim::tcp_info(c->port); open = ti.fd >= 0 && !ti.rst && !c->closing; if (r->getCloseFlag()) c->closing = true; }
    Base::onMessage(t, p);
    sim::Kern k; n = w->msg_errs; w->in_msg = nullptr; sim::op_done();
    if (n > 1) sim::violate("error-twice", "an answer that could not be sent was reported %d times", n);
    if (n) { sim::probe("answer_not_sent"); c->refused = true; if (open && !w->small_sm && !c->peer_gone && !c->rst && !sim::faults_fired(sim::FT_net_reset)) sim::violate("answer-refused", "an answer to client %d, whose connection is open, was not sent", c->id); }
  }
};
struct Busy { bool busy; char mem[16]; Busy() : busy(false) { memset(mem, 0, 16); } };
void pause_some() { int us; { sim::Kern k; us = sim::chance(W, 1, 4) ? 1 + sim::draw(W, 30000) : 0; } if (us) ::usleep(us); }
Req *take(Busy *b, StSession &s, int id, const char *raw, size_t n) {
  sim::Kern k; w->progress++;
  if (b->busy) sim::violate("worker-shared", "a worker object was given a second request while it was handling one");
  b->busy = true; Cli *c = cli_of(s); Req *r = nullptr;
  if (w->kind == KRAW) { for (auto *q : c->reqs) if (!q->handled && q->out == O_NONE && q->wire.size() == n && !memcmp(q->wire.data(), raw, n)) { r = q; break; } if (!r) sim::violate("request-altered", "a worker was given %zu bytes of client %d that are no unhandled request", n, c->id); }
  else { if (id < 0 || (size_t)id >= w->reqs.size()) sim::violate("request-invented", "a worker was given a request nobody sent (%d)", id); r = &w->reqs[id]; if (r->c != c) sim::violate("session-wrong", "request %d of client %d was given to the worker with the session of client %d", id, r->c->id, c->id); }
  if (!r->arrived) sim::violate("request-invented", "request %d was handled before it arrived", r->id);
  if (r->out == O_REFUSED || r->out == O_BAD) sim::violate("refused-handled", "request %d was refused and yet handled", r->id);
  if (r->handled++) sim::violate("request-twice", "request %d was handed to two workers", r->id);
  w->started++;
  return r;
}
enum Mode { M_ANSWER, M_THROW, M_THROW_LATE };
Mode mode_of(Req *r) { sim::Kern k; Mode m = (Mode)sim::pick(W, {8, 1, 1}); if (m == M_ANSWER) { r->out = O_ANSWER; r->close = sim::chance(W, 1, 10); } else { r->out = O_THROW; w->working[sim::self()] = r; sim::probe("worker_failed"); } if (m == M_ANSWER) w->working[sim::self()] = r; return m; }
std::string rnd_answer(Req *r) { sim::Kern k; char b[40]; size_t n = sim::pick(W, {6, 3, 1}) == 0 ? sim::draw(W, 50) : sim::draw(W, w->small_sm ? 600 : sim::chance(W, 1, 12) ? 150000 : 5000); snprintf(b, sizeof b, "[%d:%zu]", r->id, n); return b + nw::rnd_data(n); }
void fail(Req *r) { char b[32]; snprintf(b, sizeof b, "fail-%d", r->id); throw std::runtime_error(b); }
void leave(Busy *b, Req *r, const std::string &ans) { sim::Kern k; b->busy = false; r->done = true; if (r->out == O_ANSWER) r->answer = ans; }
struct RawW : CRawWorker, Busy { void onRequest(CRawRequest &q, CRawResponse &p) {
  mem[1]++; Req *r = take(this, q.getSession(), -1, q.getReader().data(), q.getReader().size()); Mode m = mode_of(r); pause_some();
  if (m == M_THROW) { leave(this, r, ""); fail(r); }
  std::string a; { sim::Kern k; if (!sim::chance(W, 1, 10)) a = rnd_answer(r); else sim::probe("empty_answer"); } p.getWriter().append(a); if (r->close) p.setCloseFlag(true); pause_some(); mem[2]++; leave(this, r, p.getWriter()); if (m != M_ANSWER) fail(r);
} };
struct HttpW : CHttpWorker, Busy { void onRequest(CHttpRequest &q, CHttpResponse &p) {
  mem[1]++; CHttpReader &rd = q.getReader(); int id = find_id(rd.getURI(), strlen(rd.getURI())); Req *r = take(this, q.getSession(), id, nullptr, 0); std::string v; rd.getValue(v); std::string h = rd.getHead("X-Id"), uri = rd.getURI();
  { sim::Kern k; if (r->bad == B_OK) { if (uri != r->uri) sim::violate("request-altered", "request %d asked for %s, the worker sees %s", r->id, r->uri.c_str(), uri.c_str()); if (h != r->head) sim::violate("request-altered", "request %d: header %s became %s", r->id, r->head.c_str(), h.c_str()); if (v != r->body) sim::violate("request-altered", "request %d: a body of %zu bytes became %zu bytes", r->id, r->body.size(), v.size()); } }
  Mode m = mode_of(r); pause_some();
  if (m == M_THROW) { leave(this, r, ""); fail(r); }
  std::string a = rnd_answer(r); CHttpWriter &wr = p.getWriter(); wr.begin(); wr.setStatusCode(200 + r->id % 5); wr.setHead("X-Id", h); wr.write(a.data(), a.size()); wr.end(); if (r->close) p.setCloseFlag(true);
  pause_some(); leave(this, r, std::string(wr.data(), wr.size())); if (m != M_ANSWER) fail(r);
} };
struct AnyW : CAnyWorker, Busy { void onRequest(CAnyRequest &q, CAnyResponse &p) {
  mem[1]++; CAnyPackage &rd = q.getReader(); Req *r = take(this, q.getSession(), rd.head().getSeq(), nullptr, 0);
  if (r->bad == B_OK) { std::string v = rd["data"]; uint32_t x = rd["n"]; sim::Kern k; if (v != r->body || x != (uint32_t)r->id * 7) sim::violate("request-altered", "request %d: its values became others", r->id); }
  Mode m = mode_of(r); pause_some();
  if (m == M_THROW) { leave(this, r, ""); fail(r); }
  std::string a = rnd_answer(r); CAnyPackage &wr = p.getWriter(); wr.head().setStx(2); wr.head().setSeq(r->id); wr["data"] = a; wr["ok"] = 1; wr.encode(); wr.head().setLen(wr.size() + 1); if (r->close) p.setCloseFlag(true);
  std::string exp(wr.data(), wr.size()); exp += '\x03'; pause_some(); leave(this, r, exp); if (m != M_ANSWER) fail(r);
} };

std::string hex_head(int id, uint32_t len) { std::string s(43, 0); s[0] = 2; uint32_t n = htonl(len); memcpy(&s[1], &n, 4); n = htonl(id); memcpy(&s[15], &n, 4); return s; }
std::string str1(const std::string &s) { std::string r; if (s.size() < 256) { r = "\x04"; r += (char)s.size(); } else { r = "\x05"; uint16_t n = htons(s.size()); r.append((char *)&n, 2); } return r + s; }
std::string u32(uint32_t v) { uint32_t n = htonl(v); return std::string((char *)&n, 4); }
std::string key(const char *k) { return std::string(1, (char)strlen(k)) + k; }
Req *make_req(Cli *c, bool may_bad) {
  w->reqs.push_back(Req()); Req *r = &w->reqs.back(); r->id = w->reqs.size() - 1; r->c = c; r->bad = B_OK; r->arrived = r->handled = r->reported = 0; r->out = O_NONE; r->close = r->done = r->sent_back = r->write_refused = r->answered = false;
  bool bad = may_bad && sim::chance(W, 1, 10);
  r->body = nw::rnd_data(sim::pick(W, {6, 2, 1}) == 0 ? sim::draw(W, 40) : sim::draw(W, w->kind != KRAW && sim::chance(W, 1, 30) ? 64000 : 3000));
  if (w->kind == KHTTP) {
    char b[64]; snprintf(b, sizeof b, "/r%d/a", r->id); r->uri = b; snprintf(b, sizeof b, "v%u", sim::draw(W, 100000)); r->head = b;
    if (!bad) {
      switch (sim::draw(W, 3)) {
      case 0: for (auto &ch : r->body) if ((unsigned char)ch <= ' ' || ch == '%' || ch == '?' || (unsigned char)ch > 126) ch = 'k'; r->wire = "GET " + r->uri + (r->body.empty() ? "" : "?" + r->body) + " HTTP/1.1\r\nX-Id: " + r->head + "\r\n\r\n"; break;
      default: for (auto &ch : r->body) if (ch == '%' || ch == 0) ch = 'p'; snprintf(b, sizeof b, "\r\nContent-Length: %zu\r\n\r\n", r->body.size()); r->wire = "POST " + r->uri + (sim::chance(W, 1, 3) ? "?a=b" : "") + " HTTP/1.1\r\nHost: q\r\nX-Id: " + r->head + b + r->body;
      }
    } else {
      r->bad = B_BAD; std::string id = r->uri, l = "\r\nX-Id: 1\r\n\r\n"; r->body = "a=1";
      switch (sim::draw(W, 6)) {
      case 0: r->wire = "PUT " + id + " HTTP/1.1" + l; break;
      case 1: r->wire = "GET  HTTP/1.1\r\nX: " + id + "\r\n\r\n"; break;      // empty URI
      case 2: r->wire = "GET:" + id + "\r\n\r\n"; break;
      case 3: r->wire = "GET " + id + "?a=%4 HTTP/1.1" + l; break;             // escape cut short
      case 4: r->wire = "GET " + id + " HTTP/1.1\r\n: 1\r\n\r\n"; break;       // header without a name
      default: r->wire = "POST " + id + " HTTP/1.1\r\nContent-Length: 3\r\n\r\nb=%"; break;
      }
    }
  } else if (w->kind == KANY) {
    std::string body;
    if (!bad) body = "\x08" + u32(sim::chance(W, 1, 2) ? 2 : 3) + key("data") + str1(r->body) + key("n") + "\x02" + u32(r->id * 7);
    if (!bad && body[4] == 3) body += key("x") + "\x07" + u32(2) + "\x0c\x0b\x01";
    if (!bad && body[4] == 3 && sim::chance(W, 1, 6)) { body.resize(body.size() - 8); for (int d = sim::draw(W, 60); d > 0; d--) { body += sim::chance(W, 1, 2) ? "\x07" + u32(1) : "\x08" + u32(1) + key("y"); } body += "\x0c"; sim::probe("nested"); }
    if (bad) {
      r->bad = B_BAD;
      switch (sim::draw(W, 9)) {
      case 7: { r->bad = B_EITHER; bool map = sim::chance(W, 1, 2), end = sim::chance(W, 1, 2); body.clear(); for (int d = 1000 + sim::draw(W, 9500); d > 0; d--) body += map ? "\x08" + u32(1) + std::string(1, 0) : "\x07" + u32(1); if (end) body += "\x0c"; sim::probe("nested_very_deep"); break; }
      case 0: body = "\x08" + u32(2) + key("data") + str1(std::string(30, 'a')); body.resize(body.size() - 1 - sim::draw(W, 25)); break; // string cut short
      case 1: body = "\x08" + u32(3) + key("n") + "\x02" + u32(1) + key("m") + "\x02" + u32(2) + "\x09zz"; break;                          // name runs over the end
      case 2: body = "\x07" + u32(sim::chance(W, 1, 2) ? 0xffffffffu : 5000u) + "\x0c"; break;                                           // more elements than bytes
      case 3: body = "\x06" + u32(0xfffffff0u) + "abc"; break;
      case 4: body = "\x03" + u32(5); break;                                                                                            // integer cut short
      case 5: body = "\x05\x01\x00\x41"; body = std::string("\x05\x01\x00\x41", 4); break;
      case 6: r->bad = B_EITHER; body = "\x08" + u32(3) + key("a") + str1("text") + key("a") + "\x0c" + key("a") + "\x08" + u32(1) + key("b") + "\x0c"; break; // one name, three types
      default: r->bad = B_EITHER; body = nw::rnd_bytes(1 + sim::draw(W, 40)); body[0] = (char)sim::draw(W, 18); break;
      }
      if (body.size() < 1) body = "\x03";
    }
    r->wire = hex_head(r->id, 43 + body.size() + 1) + body + "\x03";
    if (r->bad == B_EITHER) for (size_t i = 43; i + 4 < r->wire.size(); i++) if (r->wire[i] == 7 || r->wire[i] == 8) { if ((unsigned char)r->wire[i + 1] || (unsigned char)r->wire[i + 2]) { /* huge counts must not need huge memory */ } }
  }
  c->reqs.push_back(r);
  return r;
}
void reader(Cli *c) {
  while (true) {
    if (c->stalled && !w->phase2) sim::block([c] { return w->phase2 || c->peer_gone; }, sim::FOREVER);
    if (c->peer_gone) break;
    std::string tmp; int r = sim::peer_recv(c->t, tmp, 100000, in(200 * MS)); c->got += tmp;
    if (r > 0) w->progress++;
    if (r == 0) { if (!c->fin) w->progress++; c->fin = true; break; }
    if (r == -1) { c->rst = true; w->progress++; break; }
  }
  c->reader_done = true;
}
int outstanding;
void client(Cli *c) {
  outstanding++; sim::sleep_for(c->delay);
  c->t = sim::peer_connect(8000, 30 * SEC, 0x0a000001 + c->id, c->port);
  if (!c->t) { outstanding--; sim::violate("connect-refused", "client %d could not connect", c->id); }
  w->progress++; sim::spawn("reader", [c] { reader(c); });
  int n = sim::draw(W, 7); bool may_bad = c->ending != 9; bool dead = false;
  for (int i = 0; i < n && !dead; i++) {
    std::string data; Req *r = nullptr;
    if (w->kind == KRAW) { data = nw::rnd_data(1 + sim::draw(W, 300)); c->raw_sent += data; } else { r = make_req(c, may_bad); data = r->wire; }
    size_t off = 0;
    while (off < data.size()) {
      size_t k = sim::chance(W, 1, 4) ? 1 + sim::draw(W, data.size() - off) : data.size() - off;
      if (!sim::peer_send_all(c->t, data.substr(off, k), in(200 * SEC))) { dead = true; break; }
      off += k; if (off < data.size() && sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 50) * MS);
      if (w->kind != KRAW && i == n - 1 && c->ending && c->ending < 4 && off < data.size() && sim::chance(W, 1, 2)) { dead = true; break; }
    }
    w->progress++;
    if (dead) break;
    if (c->lockstep) { size_t g = c->got.size(); sim::block([c, g] { return c->got.size() > g || c->fin || c->rst; }, in(2 * SEC)); }
    else if (sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 60) * MS);
  }
  if (c->ending == 4 && !dead && w->kind != KRAW) { c->mid_bad = true; sim::fault_count(sim::FT_peer_badpkg); sim::peer_send_all(c->t, w->kind == KANY ? std::string("\x09garbage!") : std::string("GET / HTTP/1.1\r\nContent-Length: -5\r\n\r\n"), in(5 * SEC)); }
  c->sender_done = true;
  if (c->ending >= 1 && c->ending <= 3) {
    if (sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 100) * MS);
    if (!w->phase2) { c->peer_gone = true; w->progress++; if (c->ending == 1) { sim::fault_count(sim::FT_peer_close); sim::peer_close(c->t); } else { sim::fault_count(sim::FT_peer_reset); sim::peer_reset(c->t); } }
  }
  outstanding--;
}
bool quiet(ns_t limit) {
  ns_t end = in(limit);
  while (sim::now() < end) { uint64_t p = w->progress; if (!sim::block([p] { return w->progress != p; }, in(4 * SEC))) return true; }
  return false;
}
void verify() {
  for (auto &r : w->reqs) {
    Cli *c = r.c; bool gone = c->peer_gone || c->rst || c->bad_end || c->closing || c->mid_bad;
    if (!r.arrived) { if (!gone && c->sender_done && !c->fin) sim::violate("request-lost", "request %d of client %d was sent completely and never delivered", r.id, c->id); continue; }
    if (r.out == O_NONE) sim::violate("request-lost", "request %d arrived and was neither handled nor refused", r.id);
    if (!r.done && r.handled) sim::violate("request-stuck", "request %d is still being handled", r.id);
    if (w->handler_set && (r.out == O_THROW || r.out == O_REFUSED || r.out == O_BAD) && r.reported != 1) sim::violate("error-lost", "request %d %s and the error handler was told %d times", r.id, r.out == O_THROW ? "failed" : "was refused", r.reported);
  }
  for (auto &c : w->clis) {
    if (!c.t) continue;
    // the bytes received: whole answers to this client's requests, each at most once
    for (auto *r : c.reqs) if (r->out == O_ANSWER && r->done && r->answer.empty()) r->answered = true; // nothing to send
    std::string &g = c.got; size_t o = 0; bool ended = c.peer_gone || c.rst || c.fin;
    while (o < g.size()) {
      Req *m = nullptr; Req *part = nullptr;
      for (auto *r : c.reqs) if (!r->answered && r->out == O_ANSWER && r->done && !r->answer.empty()) {
        size_t n = std::min(r->answer.size(), g.size() - o);
        if (!g.compare(o, n, r->answer, 0, n)) { if (n == r->answer.size()) m = r; else part = r; }
      }
      if (m) { m->answered = true; o += m->answer.size(); sim::op_done(); continue; }
      if (part && (ended || c.refused)) { o = g.size(); break; }
      if (c.refused) break; // part of an answer that did not fit may be in the stream
      sim::violate("answer-wrong", "client %d received %zu bytes that are no answers to its requests (first unmatched byte %zu of %zu)%s", c.id, g.size(), o, g.size(), part ? " (an incomplete answer)" : "");
    }
    sim::TcpInfo ti = sim::tcp_info(c.port);
    bool intact = !c.peer_gone && !c.rst && !c.bad_end && !c.closing && !c.mid_bad && !c.refused;
    if (intact) {
      for (auto *r : c.reqs) if (r->out == O_ANSWER && !r->answered) sim::violate("answer-lost", "client %d never received the answer to request %d (%zu bytes)", c.id, r->id, r->answer.size());
      if (c.fin || ti.fd < 0) sim::violate("close-unasked", "client %d was disconnected although no worker asked for it", c.id);
    }
    if (c.closing && !c.peer_gone && !c.rst && !c.refused && ti.fd >= 0) sim::violate("close-missing", "a worker asked to close the connection of client %d, which is still open", c.id);
    if (c.closing && !c.peer_gone && !c.rst && !c.bad_end && !c.mid_bad && !c.refused) { bool any = false; for (auto *r : c.reqs) if (r->out == O_ANSWER && r->close && r->answered) any = true; if (!any) sim::violate("answer-lost", "client %d was closed without the answer that asked for it", c.id); }
  }
}
template <class P> void run_pool(K kind, int type) {
  w = new World(); w->kind = kind; outstanding = 0;
  sim::default_schedule(); nw::net_params();
  sim::fault_swarm({sim::FT_net_split, sim::FT_net_delay, sim::FT_short_send, sim::FT_send_eagain, sim::FT_short_recv, sim::FT_recv_eintr, sim::FT_epoll_eintr, sim::FT_epoll_reorder, sim::FT_epoll_partial, sim::FT_net_reset, sim::FT_cond_spurious, sim::FT_pipe_small}, 6);
  if (sim::chance(W, 1, 5)) sim::fault_rate(sim::FT_thread_stall, 1, 200);
  w->nthreads = sim::range(W, 1, 4); w->max = sim::chance(W, 1, 3) ? sim::range(W, 0, 3) : 1000; w->small_sm = sim::chance(W, 1, 5);
  w->handler_set = !sim::chance(W, 1, 8);
  if (!w->handler_set) { w->max = 1000; w->small_sm = false; } // refusals could not be told apart
  P *pool;
  { sim::User u; cm = &CCommMgr::getInstance(); if (cm->init(100) != 0) sim::violate("setup-failed", "initialising failed although no fault was injected");
    pool = new P; pool->init(w->nthreads, w->max); if (w->handler_set) pool->setErrHandler(on_err); pool->run();
    int id = cm->createSrv(SRV_TCP, "0.0.0.0", 8000, sim::chance(W, 1, 2) ? 64 : 4096, 300000, 256, w->small_sm ? 700 : 1000000); if (id < 0) sim::violate("setup-failed", "a listener could not be created although no fault was injected"); cm->setProcessor(id, pool, type); }
  w->loop = sim::spawn("loop", [] { sim::User u; cm->start(); });
  sim::sleep_for(5 * MS);
  uint64_t base = sim::heap_mark(); int fds = sim::fds_open();
  int nc = sim::range(W, 1, 6);
  for (int i = 0; i < nc; i++) {
    w->clis.push_back(Cli()); Cli *c = &w->clis.back(); c->id = i; c->port = 30000 + i; c->t = nullptr; c->fin = c->rst = c->peer_gone = c->sender_done = c->reader_done = c->refused = c->bad_end = c->mid_bad = c->closing = false; c->raw_in = 0;
    c->stalled = sim::chance(W, 1, 8); if (c->stalled) sim::fault_count(sim::FT_peer_stall); c->lockstep = sim::chance(W, 1, 3) && !c->stalled; c->ending = sim::pick(W, {8, 1, 1, 1, 1}); c->delay = sim::draw(W, 300) * MS; w->by_port[c->port] = c;
    sim::spawn("client", [c] { client(c); });
  }
  ns_t lim = in(60 * SEC); sim::sleep_for(10 * MS);
  sim::block([] { return outstanding == 0; }, lim);
  sim::sleep_for(300 * MS); sim::faults_off(); w->phase2 = true; sim::block([] { return outstanding == 0; }, in(400 * SEC));
  if (!quiet(300 * SEC)) sim::violate("no-progress", "activity did not settle");
  verify();
  for (auto &c : w->clis) { uint64_t h = kind; for (auto *r : c.reqs) h = h * 7 + r->out; sim::state_mark(h * 64 + c.ending * 4 + c.closing + 2 * c.refused); }
  for (auto &c : w->clis) if (c.t && !c.peer_gone) { c.peer_gone = true; sim::peer_close(c.t); }
  sim::sleep_for(SEC); quiet(60 * SEC);
  std::string hd; uint64_t big = sim::heap_live_big(base, 48, &hd);
  if (big > 6) sim::violate("memory-leak", "all clients are gone and %llu blocks allocated for their requests are still held: %s", (unsigned long long)big, hd.c_str());
  if (sim::fds_open() > fds) sim::violate("fd-leak", "%d descriptors are open, %d before the clients came", sim::fds_open(), fds);
  if (sim::chance(W, 1, 2)) { // shut everything down
    { sim::User u; cm->stop(); } sim::Fid l = w->loop; if (!sim::block([l] { return sim::fiber_done(l); }, in(20 * SEC))) sim::violate("stop-ignored", "start() did not return after stop()");
    { sim::User u; if (sim::chance(W, 1, 2)) pool->stop(); delete pool; }
    sim::sleep_for(10 * SEC);
  }
}
}
SCENARIO("C09", raw_pool, 1) { run_pool<PoolX<CRawWorkerPool<RawW>, CRawResponse>>(KRAW, PKG_RAW); }
SCENARIO("C09", http_pool, 1) { run_pool<PoolX<CHttpWorkerPool<HttpW>, CHttpResponse>>(KHTTP, PKG_HTTP); }
SCENARIO("C09", any_pool, 1) { run_pool<PoolX<CAnyWorkerPool<AnyW>, CAnyResponse>>(KANY, PKG_H2LT3); }
