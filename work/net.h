// A world of clients, servers and an application around the real network code (CCommMgr, CNetWorkerMgr).
// The application is driven by a seeded script; everything it observes is checked against the connection
// model below, and everything the clients receive is checked against the writes the application issued.
#ifndef WORK_NET_H
#define WORK_NET_H
#include "common.h"
#include "CCommMgr.h"
#include "CNetWorkerMgr.h"
#include <arpa/inet.h>
using namespace lce;

namespace nw {
enum Kind { RAW, SHORT3, LONG3, HTTP, LINE };
static const char *const kind_name[] = {"raw", "h2s", "h2l", "http", "ext"};
static inline int pkg_type(Kind k) { static const int t[] = {PKG_RAW, PKG_H2ST3, PKG_H2LT3, PKG_HTTP, PKG_EXT}; return t[k]; }

// user-supplied filter: a package ends with '\n'; the byte 0xFF makes it invalid
class LineFilter : public CPackageFilter {
public:
  int isWholePkg(const char *d, const int n, int &real, int &pkg) {
    sim::Kern k; for (int i = 0; i < n; i++) { if (d[i] == '\n') { pkg = i + 1; real = i; return 0; } if ((unsigned char)d[i] == 0xFF) return -2; }
    return -1;
  }
  const char *getRealPkgData(const char *d, const int) { return d; }
};

static inline std::string rnd_bytes(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)sim::draw(W, 256); return s; }
// cheap to draw, still unlikely to match anything else: a random base and step
static inline std::string rnd_data(size_t n) {
  if (n <= 8) return rnd_bytes(n);
  std::string s(n, 0); uint32_t x = 1 + sim::draw(W, 1 << 30);
  for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; s[i] = (char)(x >> 24); }
  return s;
}
static inline std::string make_pkg(Kind k, size_t total) { // a valid package of about `total` bytes (exactly for SHORT3, LONG3, LINE, RAW)
  std::string s;
  switch (k) {
  case RAW: return rnd_data(total ? total : 1);
  case SHORT3: { if (total < 4) total = 4; uint16_t n = htons(total); s = "\x02"; s.append((char *)&n, 2); s += rnd_data(total - 4); s += "\x03"; return s; }
  case LONG3: { if (total < 6) total = 6; uint32_t n = htonl(total); s = "\x02"; s.append((char *)&n, 4); s += rnd_data(total - 6); s += "\x03"; return s; }
  case HTTP: {
    size_t body = 0; std::string h = "POST /a HTTP/1.1\r\n"; int v = sim::draw(W, 4);
    if (v == 1) h += "Host: x\r\n"; if (v == 2) h += "X-A: " + std::string(1 + sim::draw(W, 9), 'q') + "\r\n";
    bool cl = v == 3 ? false : true; std::string tail = "\r\n";
    if (sim::chance(W, 1, 8)) h = "POST /a?Content-Length:%20" + std::to_string(sim::draw(W, 50)) + " HTTP/1.1\r\nX-Content-Length: " + std::to_string(sim::draw(W, 50)) + "\r\n"; // mean nothing
    if (cl) { static const char *names[] = {"Content-Length: ", "content-length: ", "Content-Length:", "CONTENT-LENGTH:  ", "Content-length:\t"}; size_t fixed = h.size() + 16 + 4 + 4; body = total > fixed ? total - fixed : 0; h += names[sim::pick(W, {8, 1, 1, 1, 1})] + std::to_string(body) + "\r\n"; }
    s = h + tail; if (cl) { std::string bd = rnd_data(body); if (body > 6 && sim::chance(W, 1, 3)) bd.replace(1, 4, "\r\n\r\n"); s += bd; }
    return s; }
  case LINE: { if (total < 1) total = 1; s = rnd_data(total - 1); for (auto &c : s) if (c == '\n' || (unsigned char)c == 0xFF) c = 'z'; s += '\n'; return s; }
  }
  return s;
}
static inline std::string make_invalid(Kind k, size_t max) {
  std::string s;
  switch (k) {
  case SHORT3: case LONG3:
    switch (sim::draw(W, 3)) {
    case 0: s = rnd_data(1 + sim::draw(W, 12)); if (s[0] == 2) s[0] = 9; return s;
    case 1: s = make_pkg(k, std::min<size_t>(max, 6 + sim::draw(W, 30))); s[s.size() - 1] = 'x'; return s;
    default: if (k == SHORT3) { uint16_t n = htons(sim::draw(W, 4)); s = "\x02"; s.append((char *)&n, 2); s += "abcdef"; } else { uint32_t n = sim::draw(W, 2) ? htonl(sim::draw(W, 6)) : htonl(0x80000000u + sim::draw(W, 1000)); s = "\x02"; s.append((char *)&n, 4); s += "abcdef"; } return s;
    }
  case HTTP: return sim::chance(W, 1, 4) ? "GET / HTTP/1.1\r\ncontent-length:-5\r\n\r\n" : "GET / HTTP/1.1\r\nContent-Length: -5\r\n\r\n";
  case LINE: s = make_pkg(LINE, std::min<size_t>(max - 1, 1 + sim::draw(W, 20))); s[s.size() - 1] = (char)0xFF; return s + "q";
  default: return "";
  }
}
static inline std::string make_oversize(Kind k, size_t max) { // more than max bytes and still not a whole package
  size_t n = max + 1 + sim::draw(W, 40); std::string s;
  switch (k) {
  case SHORT3: if (max + 50 > 65000) return ""; s = make_pkg(k, n); break;
  case LONG3: s = make_pkg(k, n + (sim::draw(W, 2) ? 100000 : 0)); s.resize(n); break;
  case HTTP: s = "POST / HTTP/1.1\r\nX-L: " + std::string(n, 'h'); break;
  case LINE: s = std::string(n, 'l'); break;
  default: return "";
  }
  return s;
}
static inline bool has_frames(Kind k) { return k != RAW; }

struct SrvCfg { Kind kind; uint32_t ri, rm, si, sm; uint16_t port; int id; };
struct Write { std::string data; int st; bool close; }; // st 0 in progress, 1 accepted, 2 refused

enum Ending { STAY, CLOSE, RESET, HALF };
enum Term { T_NONE, T_INVALID, T_OVERSIZE, T_INCOMPLETE };
enum End { E_NONE, E_CLOSED, E_ERROR, E_FAILED };

struct Conn {
  int id; bool inbound; uint16_t key; uint32_t ip; SrvCfg *srv; bool wave2;
  // plan
  std::string stream; std::vector<size_t> ends; Term term; Ending ending; int rd_mode; // 0 eager 1 slow 2 stalled
  size_t valid_bytes; int lmode; // outgoing: listener mode
  ns_t start_delay;
  // truth
  sim::Tcp *t; size_t sent; bool sender_done, peer_closed, peer_reset, peer_half, peer_refused, sent_all; std::string got; bool fin, rst; bool reader_done;
  // application view
  int connects; bool ok; StSession s; size_t consumed, npk; End end; int err; bool app_closed, closing, maybe_close; int eng; int fiber; bool started, pending_ret; int ret;
  bool in_close_cb; std::vector<Write> writes; size_t acc_bytes, ref_bytes; ns_t app_closed_at; uint64_t handed; bool gone_by_rm;
  bool stale_checked, priv; // priv: other connections' handlers leave it alone
  Conn() : id(0), inbound(true), key(0), ip(0), srv(nullptr), wave2(false), term(T_NONE), ending(STAY), rd_mode(0), valid_bytes(0), lmode(0), start_delay(0), t(nullptr), sent(0), sender_done(false), peer_closed(false), peer_reset(false), peer_half(false), peer_refused(false), sent_all(false), fin(false), rst(false), reader_done(false), connects(0), ok(false), consumed(0), npk(0), end(E_NONE), err(0), app_closed(false), closing(false), maybe_close(false), eng(-1), fiber(-1), started(false), pending_ret(false), ret(-2), in_close_cb(false), acc_bytes(0), ref_bytes(0), app_closed_at(0), handed(0), gone_by_rm(false), stale_checked(false), priv(false) {}
  bool seen() const { return connects > 0; }
  bool live() const { return connects == 1 && ok && end == E_NONE && !app_closed && !gone_by_rm; }
  bool over() const { return app_closed || end != E_NONE || gone_by_rm; }
  const char *name() const { static char b[4][80]; static int i; i = (i + 1) & 3; snprintf(b[i], 80, "conn %d (%s %s, port %u)", id, inbound ? "client" : "outgoing", kind_name[srv->kind], key); return b[i]; }
};

struct Eng {
  int idx; int fiber; int accepted; std::vector<SrvCfg *> groups;
  Eng() : idx(0), fiber(-1), accepted(0) {}
  virtual ~Eng() {}
  virtual int write(const StSession &s, const char *d, int n, bool c) = 0;
  virtual int close(const StSession &s) = 0;
  virtual int connect(SrvCfg *g, const std::string &ip, uint16_t port, void *p) = 0;
  virtual int timer(int id, uint32_t ms, void *p) = 0;
  virtual int msg(int type, void *p) = 0;
};
struct Op { int kind; int conn; std::string data; bool close; bool done; std::function<void()> fn; }; // kind 0 write 1 close 2 connect 3 multi 4 custom
struct Script { // weights of what the application does in a handler
  int none, echo, multi, wclose, close, defer, connect, other; bool end_actions, connect_actions; int big; bool reply_once;
  Script() : none(3), echo(4), multi(2), wclose(0), close(0), defer(0), connect(0), other(0), end_actions(false), connect_actions(false), big(0), reply_once(false) {}
};

struct World {
  std::deque<Conn> conns; std::map<uint16_t, Conn *> by_key; std::deque<SrvCfg> srvs; std::deque<SrvCfg> groups; std::vector<Eng *> engs; std::deque<Op> ops;
  Script sc; bool worker; uint64_t progress; int phase; int errs_max, errs_accept, errs_mgr, pend_ops; uint16_t next_in, next_out; int max_client; bool limits; int timer_ids; int out_left; bool closing_all; int outstanding_senders; int heap_slack; ns_t poll = 200 * MS; bool hold; /* stalled peers stay stalled */ bool huge = false; /* packages and writes of hundreds of kilobytes */
  std::function<void(Eng *, Conn *, int)> after_event; std::function<bool(Eng *, Conn *, const char *, int)> custom_read; std::function<bool(Eng *, Conn *)> custom_connect;
  std::set<int> removed_srvs; std::function<void()> before_loop, run_loop;
  World() : worker(false), progress(0), phase(0), errs_max(0), errs_accept(0), errs_mgr(0), pend_ops(0), next_in(30000), next_out(20000), max_client(200), limits(false), timer_ids(1000), out_left(0), closing_all(false), outstanding_senders(0), heap_slack(0), hold(false) {}
};
static World *w;

static inline Conn *find(StSession &s, const char *what) {
  uint16_t p = s.getPort(); auto it = w->by_key.find(p);
  if (it == w->by_key.end()) sim::violate("session-wrong", "%s with a session naming remote port %u, which no connection has", what, p);
  return it->second;
}
// every connection the application still holds must really be open on the descriptor of its session
static inline void check_live(const char *after, int eng = -1) {
  for (auto &c : w->conns) if (c.live() && (eng < 0 || c.eng == eng) && !c.closing && !c.maybe_close && !c.in_close_cb) {
    sim::TcpInfo ti = sim::tcp_info(c.key);
    if (ti.fd != c.s.iFd) sim::violate("foreign-close", "%s: %s is no longer open on descriptor %d (now %d) although nothing ended it", after, c.name(), c.s.iFd, ti.fd);
  }
}
static inline void bind_eng(Eng *e, Conn *c, const char *what) {
  if (e->fiber < 0) { e->fiber = sim::self(); for (auto *o : w->engs) if (o != e && o->fiber == e->fiber) sim::violate("wrong-thread", "two workers run their callbacks in one thread"); }
  if (e->fiber != sim::self()) sim::violate("wrong-thread", "%s callback of engine %d outside its loop thread", what, e->idx);
  if (!c) return;
  if (c->eng < 0) c->eng = e->idx;
  if (c->eng != e->idx) sim::violate("wrong-worker", "%s of %s delivered to worker %d, connected by worker %d", what, c->name(), e->idx, c->eng);
}
static inline bool lossy(Conn &c) { return c.peer_reset || c.peer_closed || c.rst || c.peer_half; }

static void app_write(Eng *e, Conn &c, const std::string &d, bool close) {
  if (!c.seen()) return;
  if (c.in_close_cb) return;
  bool over = c.over();
  sim::TcpInfo t0 = sim::tcp_info(c.key);
  bool lib_closed = t0.closed;
  StSession s = c.s; size_t idx = c.writes.size();
  if (!over) { Write wr; wr.data = d; wr.st = 0; wr.close = close; c.writes.push_back(wr); if (close) c.maybe_close = true; }
  size_t pend_max = c.acc_bytes + c.ref_bytes > c.got.size() ? c.acc_bytes + c.ref_bytes - c.got.size() : 0;
  int r; { sim::User u; r = e->write(s, d.data(), d.size(), close); }
  sim::op_done();
  if (over || lib_closed) {
    if (r == 0) sim::violate("stale-write-accepted", "a write of %zu bytes on the saved session of %s was accepted although that connection had ended (fd %d)", d.size(), c.name(), s.iFd);
    sim::probe("stale_write_refused"); check_live("a write on a stale session", e->idx);
    if (!over) c.writes[idx].st = 2;
    return;
  }
  Write &wr = c.writes[idx]; wr.st = r == 0 ? 1 : 2;
  if (r == 0) {
    c.acc_bytes += d.size(); if (close) c.closing = true;
    // the part not yet handed to the network is held in a buffer of limited size
    sim::TcpInfo ti = sim::tcp_info(c.key);
    if (c.acc_bytes > ti.sent + c.srv->sm) sim::violate("send-limit", "%s: %zu bytes accepted, %llu handed to the network: more than the configured %u are held", c.name(), c.acc_bytes, (unsigned long long)ti.sent, c.srv->sm);
  } else {
    c.ref_bytes += d.size();
    bool reason = lossy(c) || sim::fault_enabled(sim::FT_epoll_ctl_fail) || sim::faults_fired(sim::FT_epoll_ctl_fail) || sim::tcp_info(c.key).rst || pend_max + d.size() > c.srv->sm;
    if (!reason) sim::violate("write-refused", "%s: a write of %zu bytes was refused although at most %zu bytes were pending and the limit is %u", c.name(), d.size(), pend_max, c.srv->sm);
    sim::probe("write_refused_full");
  }
  check_live("a write", e->idx);
}
static void app_close(Eng *e, Conn &c) {
  if (!c.seen()) return;
  bool over = c.over(); StSession s = c.s;
  if (!over) { c.app_closed = true; c.app_closed_at = sim::now(); }
  { sim::User u; e->close(s); }
  sim::op_done();
  if (over) sim::probe("stale_close");
  else { sim::TcpInfo ti = sim::tcp_info(c.key); if (ti.fd >= 0) sim::violate("close-ineffective", "close() returned and the descriptor %d of %s is still open", ti.fd, c.name()); }
  check_live(over ? "a close on a stale session" : "a close", e->idx);
}
static void new_outgoing(Eng *e);
static std::string some_data(Conn &c) {
  size_t n;
  switch (sim::pick(W, {6, 3, 1 + w->sc.big, 1 + w->sc.big})) {
  case 0: n = 1 + sim::draw(W, 40); break;
  case 1: n = 1 + sim::draw(W, 400); break;
  case 2: n = 1 + sim::draw(W, c.srv->sm < 3000 ? c.srv->sm + 200 : 3000); break;
  default: n = c.srv->sm > 20000 ? 1 + sim::draw(W, 9000) : c.srv->sm - (c.srv->sm > 3 ? sim::draw(W, 3) : 0) + sim::draw(W, 3) ; break;
  }
  if (w->huge && sim::chance(W, 1, 3)) n = 1 + sim::draw(W, c.srv->sm + c.srv->sm / 8);
  if (sim::chance(W, 1, 16)) n = 0; // an empty write still carries its request to close
  return rnd_data(n);
}
static Conn *random_conn(Eng *e, Conn *pref) {
  std::vector<Conn *> v; for (auto &c : w->conns) if (c.seen() && c.eng == e->idx && !c.priv) v.push_back(&c);
  if (v.empty()) return nullptr;
  if (pref && sim::chance(W, 1, 2)) return pref;
  return v[sim::draw(W, v.size())];
}
static void exec(Eng *e, Op &o);
static void defer(Eng *e, Conn *c, bool foreign = false) { // foreign: called outside the loop's thread
  Op o; o.kind = (int)sim::pick(W, {4, 1, 1, 1}); o.conn = c ? c->id : -1; o.close = sim::chance(W, 1, 3); o.done = false;
  if (!w->sc.connect && o.kind == 2) o.kind = 0;
  if (!w->sc.close && o.kind == 1) o.kind = 0;
  if (!w->sc.wclose) o.close = false;
  if (c && (o.kind == 0 || o.kind == 3)) o.data = some_data(*c);
  w->ops.push_back(o); size_t i = w->ops.size() - 1; w->pend_ops++;
  if (!foreign && sim::chance(W, 1, 2)) { uint32_t d = sim::draw(W, 300); int r, id = w->timer_ids++; { sim::User u; r = e->timer(id, d, (void *)(i + 1)); } if (r != 0) sim::violate("timer-refused", "addTimer failed"); }
  else { int r; { sim::User u; r = e->msg(77, (void *)(i + 1)); } if (r != 0) sim::violate("message-refused", "sendMessage failed"); }
}
static void in_loop(Eng *e, const std::function<void()> &f) { // runs f as a message handler
  Op o; o.kind = -1; o.conn = -1; o.close = o.done = false; o.fn = f;
  w->ops.push_back(o); size_t i = w->ops.size(); w->pend_ops++;
  int r; { sim::User u; r = e->msg(77, (void *)i); } if (r != 0) sim::violate("message-refused", "sendMessage failed");
}
static void act(Eng *e, Conn &c, const char *d, int n) {
  Script &s = w->sc;
  if (w->closing_all) return;
  switch (sim::pick(W, {s.none, s.echo, s.multi, s.wclose, s.close, s.defer, s.connect, s.other})) {
  case 0: break;
  case 1: app_write(e, c, d && n > 0 ? std::string(d, n) : some_data(c), false); break;
  case 2: { int k = 1 + sim::draw(W, 4); while (k-- > 0 && c.live()) app_write(e, c, some_data(c), false); break; }
  case 3: { int k = sim::draw(W, 3); while (k-- > 0 && c.live()) app_write(e, c, some_data(c), false); app_write(e, c, some_data(c), true); if (s.connect && sim::chance(W, 1, 4)) new_outgoing(e); break; }
  case 4: app_close(e, c); if (sim::chance(W, 1, 2)) app_write(e, c, some_data(c), sim::chance(W, 1, 2)); if (s.connect && sim::chance(W, 1, 2)) new_outgoing(e); break; // which gets the descriptor just closed
  case 5: { int k = 1 + sim::draw(W, 2); while (k-- > 0) defer(e, random_conn(e, &c)); break; }
  case 6: new_outgoing(e); break;
  default: { Conn *o = random_conn(e, nullptr); if (o) { if (s.close && sim::chance(W, 1, 4)) app_close(e, *o); else app_write(e, *o, some_data(*o), s.wclose && sim::chance(W, 1, 5)); } break; }
  }
}
static void exec(Eng *e, Op &o) {
  if (o.done) sim::violate("op-twice", "a timer or message of the application was delivered twice");
  o.done = true; w->pend_ops--; w->progress++;
  if (o.fn) { o.fn(); return; }
  if (w->closing_all) return;
  Conn *c = o.conn >= 0 ? &w->conns[o.conn] : nullptr;
  if (c && c->in_close_cb) return;
  switch (o.kind) {
  case 0: if (c) app_write(e, *c, o.data, o.close); break;
  case 1: if (c) app_close(e, *c); break;
  case 2: new_outgoing(e); break;
  default: if (c) { app_write(e, *c, o.data, false); if (sim::chance(W, 1, 2)) app_write(e, *c, some_data(*c), o.close); } break;
  }
}

// ------------------------------------------------------------------ callbacks
static inline void after(Eng *e, Conn *c, int what) { if (w->after_event) w->after_event(e, c, what); }
static void cb_connect(Eng *e, StSession &s, bool ok, void *p) {
  sim::Kern k; w->progress++;
  Conn *c = find(s, "onConnect"); bind_eng(e, c, "onConnect");
  if (c->connects) sim::violate("connect-twice", "%s was reported connected twice", c->name());
  if (c->inbound && !ok) sim::violate("connect-false", "%s reported as a failed connect", c->name());
  if (!c->inbound && !c->started) sim::violate("session-wrong", "onConnect for an attempt that was not made");
  if (s.stClientAddr.sin_addr.s_addr != htonl(c->ip)) sim::violate("session-wrong", "onConnect of %s with a wrong remote address %s", c->name(), s.getStrIp().c_str());
  c->connects = 1; c->ok = ok; c->s = s; c->fiber = sim::self();
  sim::TcpInfo ti = sim::tcp_info(c->key);
  if (c->inbound) { e->accepted++;
    if (!ti.estab) sim::internal_error("inbound connect without connection"); }
  else {
    if (p != c) sim::violate("connect-data", "onConnect of %s carries another attempt's data pointer", c->name());
    if (ok && !ti.estab) sim::violate("connect-untrue", "%s reported as established although the peer did not accept", c->name());
    if (!ok && ti.estab && !ti.rst && !lossy(*c)) sim::violate("connect-untrue", "%s reported as failed although the peer accepted", c->name());
    if (!ok) sim::probe("connect_failed_reported"); else sim::probe("connect_ok_reported");
  }
  if (ok && ti.fd != s.iFd) sim::violate("session-wrong", "onConnect of %s names descriptor %d, the connection is on %d", c->name(), s.iFd, ti.fd);
  if (!w->removed_srvs.empty() && w->removed_srvs.count(s.iSvrId)) sim::violate("removed-server", "%s connected on a removed server", c->name());
  if (!ok) { c->end = E_FAILED; if (w->sc.end_actions && sim::chance(W, 1, 3)) app_close(e, *c); after(e, c, 1); return; }
  if (w->custom_connect && w->custom_connect(e, c)) return;
  if (w->sc.connect_actions && sim::chance(W, 1, 4)) act(e, *c, nullptr, 0);
  after(e, c, 0);
}
static void cb_read(Eng *e, StSession &s, const char *d, int n) {
  sim::Kern k; w->progress++;
  Conn *c = find(s, "onRead"); bind_eng(e, c, "onRead");
  sim::op_done();
  if (!c->connects || !c->ok) sim::violate("read-before-connect", "data of %s delivered before it was reported connected", c->name());
  if (c->over()) sim::violate("read-after-end", "%d bytes of %s delivered after the connection had ended (%s)", n, c->name(), c->app_closed ? "closed by the application" : "end notice given");
  sim::TcpInfo ti = sim::tcp_info(c->key);
  if (ti.fd != s.iFd || s.iFd != c->s.iFd) sim::violate("session-wrong", "onRead of %s names descriptor %d, the connection is on %d", c->name(), s.iFd, ti.fd);
  if (n <= 0) sim::violate("package-wrong", "package of %d bytes on %s", n, c->name());
  if (has_frames(c->srv->kind)) {
    if (c->npk >= c->ends.size()) sim::violate("package-invented", "%s: a package of %d bytes was delivered, all %zu whole packages sent were delivered before (terminal %d)", c->name(), n, c->ends.size(), c->term);
    size_t b = c->consumed, en = c->ends[c->npk];
    if ((size_t)n != en - b || memcmp(d, c->stream.data() + b, n)) sim::violate("package-wrong", "%s: package %zu differs from what was sent (%d bytes delivered, %zu sent)", c->name(), c->npk, n, en - b);
    if (en > c->sent) sim::violate("package-invented", "%s: package delivered before it was sent", c->name());
    c->consumed = en; c->npk++;
  } else {
    if (c->consumed + n > c->sent) sim::violate("package-invented", "%s: %d bytes delivered, only %zu were outstanding", c->name(), n, c->sent - c->consumed);
    if (memcmp(d, c->stream.data() + c->consumed, n)) sim::violate("package-wrong", "%s: bytes at offset %zu differ from what was sent", c->name(), c->consumed);
    c->consumed += n; c->npk++;
  }
  std::string copy(d, n);
  if (w->custom_read && w->custom_read(e, c, copy.data(), n)) return;
  act(e, *c, copy.data(), n);
  after(e, c, 2);
}
static void end_common(Eng *e, Conn *c, StSession &s, const char *what) {
  bind_eng(e, c, what);
  if (!c->connects || !c->ok) sim::violate("end-before-connect", "%s of %s before it was reported connected", what, c->name());
  if (c->app_closed) sim::violate("end-after-close", "%s of %s after the application had closed it", what, c->name());
  if (c->gone_by_rm) sim::violate("end-after-close", "%s of %s after its server was removed", what, c->name());
  if (c->end != E_NONE) sim::violate("end-twice", "%s: a second end notification (%s)", c->name(), what);
}
static void cb_close(Eng *e, StSession &s) {
  sim::Kern k; w->progress++;
  Conn *c = find(s, "onClose"); end_common(e, c, s, "onClose");
  sim::TcpInfo ti = sim::tcp_info(c->key);
  if (!(c->peer_closed || c->peer_half || c->peer_reset || ti.rst)) sim::violate("close-untrue", "%s reported closed although its peer did nothing of the kind", c->name());
  if (!c->peer_reset && !ti.rst && c->sent_all && !c->closing && c->consumed < c->valid_bytes)
    sim::violate("package-lost", "%s: the peer closed after sending %zu bytes of whole packages, but only %zu were delivered before the close", c->name(), c->valid_bytes, c->consumed);
  c->end = E_CLOSED; c->in_close_cb = true;
  if (w->sc.end_actions && !w->closing_all && sim::chance(W, 1, 3)) { if (sim::chance(W, 1, 2)) { StSession q = c->s; UR(e->close(q)); } if (w->sc.connect && sim::chance(W, 1, 2)) new_outgoing(e); Conn *o = random_conn(e, nullptr); if (o && o != c) app_write(e, *o, some_data(*o), false); }
  c->in_close_cb = false;
  after(e, c, 3);
}
static const char *err_name(int i) { static const char *n[] = {"?", "SOCKET", "INVALID_PACKAGE", "MAX_CLIENT", "NO_BUFFER", "NOT_READY", "SYSTEM", "PKG_FILTER", "OP_EVENT"}; return i >= 0 && i < 9 ? n[i] : "?"; }
static void cb_error(Eng *e, StSession &s, const char *msg, int err) {
  sim::Kern k; w->progress++;
  if (s.getPort() == 0 || err == ERR_MAX_CLIENT) { // about the listener, no connection exists
    if (err == ERR_MAX_CLIENT) { w->errs_max++; if (!w->limits) sim::violate("error-untrue", "a client was turned away (MAX_CLIENT) although the server was far from its limits"); }
    else { w->errs_accept++; if (!sim::faults_fired(sim::FT_accept_abort) && !sim::faults_fired(sim::FT_accept_emfile) && !sim::faults_fired(sim::FT_fd_limit)) sim::violate("error-untrue", "listener error %s reported without cause (%s)", err_name(err), msg); }
    return;
  }
  Conn *c = find(s, "onError");
  if (err == ERR_NOT_READY) { bind_eng(e, c, "onError"); if (c->over()) sim::violate("end-twice", "%s: NOT_READY reported after the end", c->name()); if (!sim::faults_fired(sim::FT_recv_eintr)) sim::violate("error-untrue", "%s: NOT_READY reported although no read was disturbed", c->name()); return; }
  end_common(e, c, s, "onError");
  sim::TcpInfo ti = sim::tcp_info(c->key);
  switch (err) {
  case ERR_INVALID_PACKAGE:
    if (c->term != T_INVALID || c->consumed != c->valid_bytes || c->sent <= c->valid_bytes) sim::violate("error-untrue", "%s: INVALID_PACKAGE reported after %zu of %zu valid bytes, terminal %d", c->name(), c->consumed, c->valid_bytes, c->term);
    sim::probe("invalid_reported"); break;
  case ERR_NO_BUFFER:
    if (c->term != T_OVERSIZE || c->consumed != c->valid_bytes || c->sent - c->valid_bytes < c->srv->rm) sim::violate("error-untrue", "%s: NO_BUFFER reported after %zu of %zu valid bytes, terminal %d, %zu sent", c->name(), c->consumed, c->valid_bytes, c->term, c->sent);
    sim::probe("oversize_reported"); break;
  case ERR_SOCKET: case ERR_OP_EVENT:
    if (!lossy(*c) && !ti.rst && !sim::faults_fired(sim::FT_epoll_ctl_fail)) sim::violate("error-untrue", "%s: error %s reported without cause (%s)", c->name(), err_name(err), msg);
    break;
  default: sim::violate("error-untrue", "%s: unexpected error kind %d (%s)", c->name(), err, msg);
  }
  c->end = E_ERROR; c->err = err;
  if (w->sc.end_actions && !w->closing_all && sim::chance(W, 1, 2)) { app_write(e, *c, "stale", sim::chance(W, 1, 2)); if (sim::chance(W, 1, 2)) app_close(e, *c); if (w->sc.connect && sim::chance(W, 1, 3)) new_outgoing(e); }
  after(e, c, 4);
}
static void cb_op(Eng *e, void *p) { sim::Kern k; bind_eng(e, nullptr, "timer or message"); size_t i = (size_t)p - 1; if (i >= w->ops.size()) sim::violate("message-corrupt", "timer or message with foreign data"); exec(e, w->ops[i]); after(e, nullptr, 5); }

// ------------------------------------------------------------------ engines
struct CommEng : Eng, CProcessor {
  CCommMgr *m; CommEng() : m(&CCommMgr::getInstance()) {}
  int write(const StSession &s, const char *d, int n, bool c) { return m->write(s, d, n, c); }
  int close(const StSession &s) { return m->close(s); }
  int connect(SrvCfg *g, const std::string &ip, uint16_t port, void *p) { return m->connect(g->id, ip, port, p); }
  int timer(int id, uint32_t ms, void *p) { return m->addTimer(id, ms, this, p); }
  int msg(int t, void *p) { return m->sendMessage(t, this, p); }
  void onRead(StSession &s, const char *d, const int n) { cb_read(this, s, d, n); }
  void onClose(StSession &s) { cb_close(this, s); }
  void onConnect(StSession &s, bool ok, void *p) { cb_connect(this, s, ok, p); }
  void onError(StSession &s, const char *m, int e) { cb_error(this, s, m, e); }
  void onTimer(int, void *p) { cb_op(this, p); }
  void onMessage(int, void *p) { cb_op(this, p); }
};
struct WorkEng;
struct Worker : CNetWorker {
  WorkEng *e; Worker();
  int init();
  void onRead(StSession &s, const char *d, const int n);
  void onClose(StSession &s);
  void onConnect(StSession &s, bool ok, void *p);
  void onError(StSession &s, const char *m, int e);
  void onTimer(int, void *p);
  void onMessage(int, void *p);
};
struct WorkEng : Eng {
  Worker *m; WorkEng(Worker *x) : m(x) {}
  int write(const StSession &s, const char *d, int n, bool c) { return m->write(s, d, n, c); }
  int close(const StSession &s) { return m->close(s); }
  int connect(SrvCfg *g, const std::string &ip, uint16_t port, void *p) { return m->connect(g->id, ip, port, p); }
  int timer(int id, uint32_t ms, void *p) { return m->addTimer(id, ms, p); }
  int msg(int t, void *p) { return m->sendMessage(t, p); }
};
inline Worker::Worker() { sim::Kern k; e = new WorkEng(this); e->idx = w->engs.size(); w->engs.push_back(e); }
inline int Worker::init() {
  sim::Kern k;
  for (auto &g : w->groups) { SrvCfg *mine = new SrvCfg(g); int id; { sim::User u; id = createClient(pkg_type(g.kind), g.ri, g.rm, g.si, g.sm); if (g.kind == LINE) setPkgFilter(id, new LineFilter); } mine->id = id; e->groups.push_back(mine); }
  return 0;
}
inline void Worker::onRead(StSession &s, const char *d, const int n) { cb_read(e, s, d, n); }
inline void Worker::onClose(StSession &s) { cb_close(e, s); }
inline void Worker::onConnect(StSession &s, bool ok, void *p) { cb_connect(e, s, ok, p); }
inline void Worker::onError(StSession &s, const char *m, int er) { cb_error(e, s, m, er); }
inline void Worker::onTimer(int, void *p) { cb_op(e, p); }
inline void Worker::onMessage(int, void *p) { cb_op(e, p); }
static inline void mgr_err(const char *) { sim::Kern k; w->errs_mgr++; if (!w->limits && !sim::faults_fired(sim::FT_accept_abort) && !sim::faults_fired(sim::FT_accept_emfile)) sim::violate("error-untrue", "the server reported an accept error without cause"); }

// ------------------------------------------------------------------ peers
static inline void plan_stream(Conn &c, int npk, bool misbehave) {
  SrvCfg &s = *c.srv;
  for (int i = 0; i < npk; i++) {
    size_t n; switch (sim::pick(W, {6, 3, 1, 2})) { case 0: n = 1 + sim::draw(W, 30); break; case 1: n = 1 + sim::draw(W, 300); break; case 2: n = s.rm; break; default: n = s.rm - sim::draw(W, 4); break; }
    if (s.kind != RAW && n > s.rm) n = s.rm; if (w->huge) { if (sim::chance(W, 1, 2)) n = 30000 + sim::draw(W, s.rm - 30000); if (s.kind == SHORT3 && n > 65535) n = 65535 - sim::draw(W, 5); if (n > s.rm) n = s.rm; } else { if (n > 4000 && !sim::chance(W, 1, 6)) n = 4000; if (n > 60000) n = 60000; }
    std::string p = make_pkg(s.kind, n); if (s.kind == HTTP && p.size() > s.rm) p = "GET / HTTP/1.1\r\n\r\n";
    c.stream += p; c.ends.push_back(c.stream.size());
  }
  c.valid_bytes = c.stream.size(); c.term = T_NONE;
  if (has_frames(s.kind)) switch (sim::pick(W, {misbehave ? 3 : 6, 1, 1, 1})) {
  case 1: c.stream += make_invalid(s.kind, s.rm); c.term = T_INVALID; break;
  case 2: { std::string o = make_oversize(s.kind, s.rm); if (!o.empty()) { c.stream += o; c.term = T_OVERSIZE; } break; }
  case 3: { std::string p = make_pkg(s.kind, 6 + sim::draw(W, 30)); if (s.kind == HTTP) p = p.substr(0, 16); size_t k = 1 + sim::draw(W, p.size() - 1); if (k >= s.rm) k = s.rm - 1; if (k >= p.size()) k = p.size() - 1; if (k) { c.stream += p.substr(0, k); c.term = T_INCOMPLETE; } break; }
  default: break;
  }
}
static inline Conn *new_conn(bool inbound, SrvCfg *srv) {
  w->conns.emplace_back(); Conn &c = w->conns.back(); c.id = w->conns.size() - 1; c.inbound = inbound; c.srv = srv;
  c.key = inbound ? w->next_in++ : w->next_out++; c.ip = inbound ? 0x0a010000 + c.id : sim::chance(W, 1, 2) ? 0x7f000001 : 0x0a4d0000 + c.id;
  w->by_key[c.key] = &c;
  return &c;
}
static void reader(Conn *c) {
  while (true) {
    if (c->rd_mode == 2 && (w->phase == 0 || w->hold)) { if (!sim::block([c] { return (w->phase > 0 && !w->hold) || c->peer_closed || c->peer_reset; }, sim::FOREVER)) {} }
    if (c->peer_closed || c->peer_reset) break;
    size_t max = 100000; if (c->rd_mode == 1 && w->phase == 0) { max = 1 + sim::draw(N, w->huge ? 20000 : 60); sim::sleep_for((1 + sim::draw(N, 30)) * MS); if (c->peer_closed || c->peer_reset) break; }
    int r; { std::string tmp; r = sim::peer_recv(c->t, tmp, max, in(w->poll)); c->got += tmp; }
    if (r > 0) w->progress++;
    if (r == 0) { if (!c->fin) { c->fin = true; w->progress++; } break; }
    if (r == -1) { c->rst = true; w->progress++; break; }
    if (c->peer_closed || c->peer_reset) break;
    sim::Tcp *t = c->t; (void)t;
  }
  c->reader_done = true;
}
static void send_plan(Conn *c) {
  int mode = sim::draw(N, 3); if (w->huge && mode == 1) mode = 0; // chunking
  while (c->sent < c->stream.size()) {
    if (c->rst || sim::peer_reset_seen(c->t)) break;
    size_t left = c->stream.size() - c->sent, n = left;
    if (mode == 1) n = 1 + sim::draw(N, std::min<size_t>(left, 50)); else if (mode == 2) n = 1 + sim::draw(N, left);
    size_t before = c->sent; c->sent += n; // may be delivered the moment it is handed over
    size_t k = sim::peer_send(c->t, c->stream.data() + before, n); c->sent = before + k;
    if (k) w->progress++;
    if (!k) { sim::sleep_for(2 * MS); if (w->phase == 2) break; }
    else if (sim::chance(N, 1, mode == 1 ? 6 : 2)) sim::sleep_for(sim::draw(N, 40) * MS);
    if (c->ending == RESET && sim::chance(W, 1, 8)) break;
  }
  c->sent_all = c->sent == c->stream.size();
  c->sender_done = true;
  if (c->ending != STAY && w->phase != 2) {
    sim::sleep_for(sim::draw(W, 3) * sim::draw(W, 200) * MS);
    if (c->rst || w->phase == 2) return;
    w->progress++;
    if (c->ending == CLOSE) { c->peer_closed = true; sim::fault_count(sim::FT_peer_close); sim::peer_close(c->t); }
    else if (c->ending == RESET) { c->peer_reset = true; sim::fault_count(sim::FT_peer_reset); sim::peer_reset(c->t); }
    else { c->peer_half = true; sim::fault_count(sim::FT_peer_close); sim::peer_shutdown_wr(c->t); }
  }
}
static void peer_life(Conn *c) { w->outstanding_senders++; sim::spawn("reader", [c] { reader(c); }); send_plan(c); w->outstanding_senders--; }
static void client(Conn *c) {
  w->outstanding_senders++;
  sim::sleep_for(c->start_delay);
  c->t = sim::peer_connect(c->srv->port, 30 * SEC, c->ip, c->key);
  w->outstanding_senders--;
  w->progress++;
  if (!c->t) { c->peer_refused = true; if (!w->limits && !w->removed_srvs.count(c->srv->id)) sim::violate("connect-refused", "%s could not connect to a listening server", c->name()); return; }
  peer_life(c);
}
static void new_outgoing(Eng *e) {
  if (w->out_left <= 0 || e->groups.empty() || w->phase == 2) return;
  w->out_left--;
  SrvCfg *g = e->groups[sim::draw(W, e->groups.size())];
  Conn *c = new_conn(false, g);
  plan_stream(*c, sim::draw(W, 5), false); c->ending = (Ending)sim::pick(W, {5, 2, 1, 1}); c->rd_mode = sim::pick(W, {4, 2, 1});
  c->lmode = sim::pick(W, {6, 2, 1}); if (c->rd_mode == 2) sim::fault_count(sim::FT_peer_stall);
  if (c->lmode != 1 || sim::chance(W, 1, 2)) { sim::Listener *l = sim::peer_listen(c->key, c->ip); sim::listener_mode(l, c->lmode); sim::spawn("upstream", [c, l] { c->t = sim::peer_accept(l, in(40 * SEC)); if (c->t) { w->progress++; peer_life(c); } }); }
  c->started = true; c->eng = e->idx;
  sim::ev("app connects to port %u (mode %d)", c->key, c->lmode);
  bool was_removed = w->removed_srvs.count(g->id);
  int r; struct in_addr ia; ia.s_addr = htonl(c->ip); char ipb[20]; inet_ntop(AF_INET, &ia, ipb, sizeof ipb); { sim::User u; r = e->connect(g, ipb, c->key, c); }
  c->ret = r; w->progress++;
  if (w->removed_srvs.count(g->id)) { // removed before or by a handler inside this call
    if (was_removed && (r >= 0 || c->connects)) sim::violate("removed-server", "connect() through a removed client group did not fail (%d)", r);
    if (r < 0 && !c->connects) c->end = E_FAILED; else c->gone_by_rm = true;
    sim::TcpInfo ti = sim::tcp_info(c->key); if (ti.exists && ti.fd >= 0) sim::violate("fd-leak", "%s: its client group is removed and descriptor %d is open", c->name(), ti.fd);
    return;
  }
  if (r < 0 && !c->connects) { c->end = E_FAILED; sim::TcpInfo ti = sim::tcp_info(c->key); if (ti.exists && ti.fd >= 0) sim::violate("fd-leak", "connect() of %s failed and left descriptor %d open", c->name(), ti.fd);
    if (!sim::faults_fired(sim::FT_conn_refused) && !sim::faults_fired(sim::FT_conn_immediate) && !w->limits && !sim::faults_fired(sim::FT_epoll_ctl_fail) && !sim::faults_fired(sim::FT_sock_fail)) sim::violate("connect-failed", "connect() of %s failed without cause", c->name()); }
  if (r < 0 && c->connects && !c->over() && !c->closing && !c->maybe_close) sim::violate("connect-untrue", "connect() of %s returned an error although it was reported established and nothing closed it", c->name());
  if (r >= 0 && !c->over() && !c->closing && !c->maybe_close) { sim::TcpInfo ti = sim::tcp_info(c->key); if (ti.fd != r) sim::violate("session-wrong", "connect() of %s returned descriptor %d, the connection is on %d", c->name(), r, ti.fd); }
}

// ------------------------------------------------------------------ verification
// got must be the accepted writes in order; a refused write may have contributed any prefix of itself.
// cur is the set of offsets of got at which the writes so far may have ended.
static bool match(const std::string &got, const std::vector<Write> &ws, bool truncated, size_t *where) {
  std::vector<size_t> cur{0}, nx; size_t reach = 0;
  for (auto &x : ws) {
    nx.clear();
    for (size_t o : cur) {
      if (truncated && o == got.size()) return true;
      size_t L = 0; while (L < x.data.size() && o + L < got.size() && got[o + L] == x.data[L]) L++;
      if (o + L > reach) reach = o + L;
      if (x.st == 1) { if (L == x.data.size()) nx.push_back(o + L); else if (truncated && o + L == got.size()) return true; }
      else for (size_t q = 0; q <= L; q++) nx.push_back(o + q);
    }
    if (nx.empty()) { *where = reach; return false; }
    std::sort(nx.begin(), nx.end()); nx.erase(std::unique(nx.begin(), nx.end()), nx.end());
    cur.swap(nx);
  }
  *where = reach;
  return std::find(cur.begin(), cur.end(), got.size()) != cur.end();
}
static void verify_conn(Conn &c) {
  bool est = c.t != nullptr;
  sim::TcpInfo ti = sim::tcp_info(c.key);
  if (!c.inbound) {
    if (c.ret >= 0 && !c.connects) {
      if (ti.estab && !c.gone_by_rm) sim::violate("connect-unreported", "%s: the peer accepted and the application was never told", c.name());
      if (c.lmode != 2 && !sim::fault_enabled(sim::FT_conn_timeout) && !sim::faults_fired(sim::FT_conn_timeout) && !c.gone_by_rm) sim::violate("connect-unreported", "%s: the attempt failed and the application was never told", c.name());
      return;
    }
    if (c.end == E_FAILED) { if (ti.fd >= 0) sim::violate("fd-leak", "%s failed and its descriptor %d is still open", c.name(), ti.fd); if (c.connects == 0 || !c.ok) return; }
  } else if (est && !c.connects) {
    bool excused = w->limits || sim::faults_fired(sim::FT_accept_abort) || w->removed_srvs.count(c.srv->id);
    // a client that reset before it was accepted is still accepted by the kernel and reported
    if (!excused) sim::violate("accept-lost", "%s connected and was never reported", c.name());
    return;
  }
  if (!c.connects) return;
  // inbound data
  bool exempt = c.app_closed || c.closing || c.maybe_close || c.peer_reset || ti.rst || c.gone_by_rm || (c.end == E_ERROR && (c.err == ERR_SOCKET || c.err == ERR_OP_EVENT)) || !c.t || !c.sent_all;
  if (c.peer_closed && !c.got.empty() && c.rst) exempt = true;
  if (!exempt) {
    if (c.consumed < c.valid_bytes) sim::violate("package-lost", "%s: %zu bytes of whole packages were sent, %zu delivered, and nothing more happens (end %d)", c.name(), c.valid_bytes, c.consumed, c.end);
    if (c.term == T_INVALID && !(c.end == E_ERROR && c.err == ERR_INVALID_PACKAGE)) sim::violate("invalid-unreported", "%s sent invalid bytes, which were not reported", c.name());
    if (c.term == T_OVERSIZE && !(c.end == E_ERROR && c.err == ERR_NO_BUFFER)) sim::violate("oversize-unreported", "%s sent a package larger than the receive limit %u, which was not reported (end %d)", c.name(), c.srv->rm, c.end);
  }
  bool peer_gone = c.peer_closed || c.peer_reset || c.peer_half;
  if (peer_gone && !c.app_closed && !c.closing && !c.maybe_close && !c.gone_by_rm && c.end == E_NONE) sim::violate("close-unreported", "%s: the peer went away (%s) and the application was never told", c.name(), c.peer_reset ? "reset" : c.peer_half ? "half close" : "close");
  if ((c.over() || peer_gone) && ti.fd >= 0) sim::violate("fd-leak", "%s has ended and its descriptor %d is still open", c.name(), ti.fd);
  // outbound data
  bool trunc = lossy(c) || c.rst || c.app_closed || c.gone_by_rm || c.end != E_NONE;
  size_t at = 0;
  if (!match(c.got, c.writes, trunc, &at)) {
    std::string l; char b[60]; for (auto &x : c.writes) { snprintf(b, sizeof b, "%s%zu%s ", x.st == 1 ? "+" : "-", x.data.size(), x.close ? "c" : ""); l += b; if (l.size() > 300) break; }
    sim::violate("stream-wrong", "%s: the peer received %zu bytes that are not the accepted writes in order (first difference near byte %zu; writes %s)", c.name(), c.got.size(), at, l.c_str());
  }
  if (c.closing && !lossy(c) && !c.app_closed && !c.gone_by_rm && c.end == E_NONE) {
    if (ti.fd >= 0 || !(c.fin || c.rst)) sim::violate("close-missing", "%s: a write asked to close afterwards, everything was received and the connection is still open", c.name());
  }
  if (c.closing && ti.closed && !c.app_closed && !c.gone_by_rm && c.end == E_NONE && !lossy(c) && ti.sent < c.acc_bytes) sim::violate("close-early", "%s was closed after %llu of %zu accepted bytes had been handed to the network", c.name(), (unsigned long long)ti.sent, c.acc_bytes);
  if (!c.closing && !c.maybe_close && !c.over() && !peer_gone && (c.fin || c.rst || ti.fd < 0)) sim::violate("close-unasked", "%s was closed although nobody asked for it", c.name());
}
static uint64_t conn_state(Conn &c) { return c.inbound + 2 * c.srv->kind + 16 * c.term + 64 * c.end + 256 * c.err + 4096 * c.app_closed + 8192 * c.closing + 16384 * std::min<size_t>(c.npk, 15) + 262144ull * std::min<size_t>(c.writes.size(), 15) + (4194304ull * c.ending) + 16777216ull * c.rd_mode; }

struct Cfg { bool worker; int workers; int nsrv, nin, ngroups; int max_client; bool misbehave; int npk_max; bool net_faults; Cfg() : worker(false), workers(1), nsrv(1), nin(4), ngroups(0), max_client(200), misbehave(false), npk_max(8), net_faults(true) {} };
static CCommMgr *comm; static CommEng *comm_eng; static CNetWorkerMgr<Worker> *nmgr; static sim::Fid loop_fid; static uint64_t base_heap; static int base_fds;

static void draw_cfg(SrvCfg &s, Kind k) {
  s.kind = k;
  static const uint32_t ri[] = {1, 7, 32, 100, 256, 1024, 10240}; s.ri = ri[sim::draw(W, 7)];
  uint32_t lo = k == HTTP ? 120 : 8; static const uint32_t mul[] = {1, 2, 3, 8, 40}; s.rm = s.ri * mul[sim::draw(W, 5)] + sim::draw(W, 3); if (s.rm < lo) s.rm = lo + sim::draw(W, 30);
  if (s.rm < s.ri) s.rm = s.ri; if (s.rm > 60000) s.rm = 60000;
  if (w->huge) s.ri = 1024 << sim::draw(W, 6), s.rm = 70000 + sim::draw(W, 330000);
  s.si = ri[sim::draw(W, 7)]; s.sm = s.si * mul[sim::draw(W, 5)] + sim::draw(W, 3); if (s.sm < 64) s.sm = 64 + sim::draw(W, 200); if (s.sm < s.si) s.sm = s.si; if (w->huge) s.sm = 70000 + sim::draw(W, 600000);
}
static Kind draw_kind() { return (Kind)sim::pick(W, {2, 3, 3, 3, 2}); }
static void net_params() {
  static const size_t caps[] = {65536, 4096, 700, 64, 8};
  if (w && w->huge) { static const size_t hc[] = {1 << 20, 200000, 65536, 5000}; sim::net().sndbuf = hc[sim::draw(W, 4)]; sim::net().rcvbuf = hc[sim::draw(W, 4)]; return; }
  size_t c = caps[sim::pick(W, {3, 2, 2, 2, 1})]; sim::net().sndbuf = c; sim::net().rcvbuf = caps[sim::pick(W, {3, 2, 2, 1, 0})]; if (c < 65536) sim::fault_count(sim::FT_sock_small);
}
static void net_faults() {
  if (w && w->huge) { if (sim::chance(W, 1, 2)) for (auto f : {sim::FT_short_send, sim::FT_short_recv, sim::FT_send_eagain, sim::FT_net_split, sim::FT_recv_eintr, sim::FT_epoll_partial}) if (sim::chance(W, 1, 3)) sim::fault_rate(f, 1, 40); return; }
  sim::fault_swarm({sim::FT_net_split, sim::FT_net_delay, sim::FT_short_send, sim::FT_send_eagain, sim::FT_short_recv, sim::FT_recv_eintr, sim::FT_epoll_eintr, sim::FT_epoll_reorder, sim::FT_epoll_partial, sim::FT_conn_immediate, sim::FT_conn_refused, sim::FT_signal_intr, sim::FT_net_reset}, 6); }
static void start(Cfg &g) {
  w->worker = g.worker; w->max_client = g.max_client;
  for (int i = 0; i < g.nsrv; i++) { SrvCfg s; draw_cfg(s, draw_kind()); s.port = 8000 + i; s.id = -1; w->srvs.push_back(s); }
  for (int i = 0; i < g.ngroups; i++) { SrvCfg s; draw_cfg(s, draw_kind()); s.port = 0; s.id = -1; w->groups.push_back(s); }
  if (!g.worker) {
    sim::User u;
    comm = &CCommMgr::getInstance();
    if (comm->init(g.max_client) != 0) sim::violate("setup-failed", "initialising failed although no fault was injected");
    { sim::Kern k; comm_eng = new CommEng(); w->engs.push_back(comm_eng); }
    bool first; { sim::Kern k; first = g.ngroups && sim::chance(W, 1, 2); } // services are numbered as they are created
    auto groups = [] { for (auto &s : w->groups) { s.id = comm->createClient(s.ri, s.rm, s.si, s.sm); comm->setProcessor(s.id, comm_eng, pkg_type(s.kind)); if (s.kind == LINE) comm->setPkgFilter(s.id, new LineFilter); sim::Kern k; comm_eng->groups.push_back(&s); } };
    if (first) groups();
    for (auto &s : w->srvs) { s.id = comm->createSrv(SRV_TCP, "0.0.0.0", s.port, s.ri, s.rm, s.si, s.sm); if (s.id < 0) sim::violate("setup-failed", "a listener could not be created although no fault was injected"); if (comm->setProcessor(s.id, comm_eng, pkg_type(s.kind)) != 0) sim::violate("setup-failed", "setProcessor failed"); if (s.kind == LINE) comm->setPkgFilter(s.id, new LineFilter); }
    if (!first) groups();
  } else {
    { sim::User u; nmgr = new CNetWorkerMgr<Worker>; if (nmgr->init(g.workers, g.max_client) != 0) sim::violate("setup-failed", "initialising failed although no fault was injected"); nmgr->setErrHandler(mgr_err);
    for (auto &s : w->srvs) { s.id = nmgr->createSrv("0.0.0.0", s.port, pkg_type(s.kind), s.ri, s.rm, s.si, s.sm); if (s.id < 0) sim::violate("setup-failed", "a listener could not be created although no fault was injected"); if (s.kind == LINE) nmgr->setPkgFilter(s.id, new LineFilter); } }
  }
  if (w->before_loop) w->before_loop();
  if (g.worker) loop_fid = sim::spawn("accept-loop", [] { sim::User u; nmgr->start(); });
  else loop_fid = sim::spawn("loop", [] { if (w->run_loop) { w->run_loop(); return; } sim::User u; comm->start(); });
  sim::sleep_for(5 * MS);
  base_fds = sim::fds_open(); base_heap = sim::heap_mark();
}
static void add_clients(Cfg &g, int n, ns_t spread) {
  for (int i = 0; i < n; i++) {
    Conn *c = new_conn(true, &w->srvs[sim::draw(W, w->srvs.size())]);
    plan_stream(*c, sim::draw(W, g.npk_max + 1), g.misbehave);
    c->ending = (Ending)sim::pick(W, {5, 3, 1, 1}); c->rd_mode = sim::pick(W, {4, 2, 1}); if (c->rd_mode == 2) sim::fault_count(sim::FT_peer_stall);
    if (c->term == T_INVALID || c->term == T_OVERSIZE) sim::fault_count(sim::FT_peer_badpkg);
    c->start_delay = sim::draw(W, 1000) * (spread / 1000);
    sim::spawn("client", [c] { client(c); });
  }
}
static bool quiet(ns_t limit) { // nothing has happened for a while
  ns_t end = in(limit);
  while (sim::now() < end) {
    uint64_t p = w->progress; ns_t q = in(4 * SEC);
    bool moved = sim::block([p] { return w->progress != p; }, q);
    if (!moved && w->pend_ops == 0) return true;
  }
  return false;
}
static void settle() { // disturbances run for a while, then stop; everything owed must then be delivered
  ns_t lim = in(20 * SEC);
  while (sim::now() < lim && (w->outstanding_senders > 0)) sim::block([] { return w->outstanding_senders == 0; }, lim);
  sim::sleep_for(500 * MS);
  sim::faults_off(); w->phase = 1;
  if (!quiet(300 * SEC)) sim::violate("no-progress", "activity did not settle within 300 s of simulated time after the faults stopped");
}
static void verify_all() {
  if (sim::fiber_done(loop_fid)) sim::violate("loop-ended", "the event loop returned although nobody stopped it");
  for (auto &c : w->conns) { verify_conn(c); sim::state_mark(conn_state(c)); }
  check_live("at the end");
}
static void peers_leave() { // all peers go away: everything they used must be released
  w->phase = 2; w->closing_all = true;
  for (auto &c : w->conns) if (c.t && !c.peer_closed && !c.peer_reset) { c.peer_closed = true; sim::peer_close(c.t); }
  sim::sleep_for(1 * SEC);
  quiet(60 * SEC);
  for (auto &c : w->conns) { sim::TcpInfo ti = sim::tcp_info(c.key); if (ti.exists && ti.fd >= 0 && ti.estab) sim::violate("fd-leak", "%s: all peers are gone and its descriptor %d is still open (end %d)", c.name(), ti.fd, c.end); }
  int pending = 0; for (auto &c : w->conns) if (!c.inbound && c.ret >= 0 && !c.connects) pending++;
  // every buffer and record of a connection must be gone too; what may stay: per loop an index table, queue blocks; attempts still pending
  std::string hd; uint64_t big = sim::heap_live_big(base_heap, 48, &hd), allow = 3 * w->engs.size() + 1 + pending + w->heap_slack;
  if (big > allow) sim::violate("memory-leak", "all connections ended (%zu there were) and %llu blocks allocated for them are still held, at most %llu expected: %s", w->conns.size(), (unsigned long long)big, (unsigned long long)allow, hd.c_str());
  if (sim::fds_open() > base_fds + pending) sim::violate("fd-leak", "%d descriptors open after all connections ended, %d before (%s)", sim::fds_open(), base_fds, sim::fds_describe().c_str());
}
} // namespace nw
#endif
