// C20: the MySQL client (with the real client library) against a server that answers, fails, stalls, drops and comes back.
#include "common.h"
#include <set>
#include <map>
#include <memory>
#include "CMysql.h"
using namespace lce;
namespace {
typedef std::vector<std::vector<std::string>> Rows;
struct Exec { int conn; std::string db; int cs; int tx; std::string user; };
struct Sc { sim::Tcp *t; int id; std::string user; std::string db; int cs; int tx; bool dead, closing; int quit; bool stalled; };
std::map<int, std::vector<Exec>> *execs; std::vector<std::unique_ptr<Sc>> *conns; sim::Listener *lis;
std::string g_host; bool g_over; uint64_t g_disturb; int g_kill_at; int g_up_mode; int g_tx_serial; bool g_calm; ns_t g_slow; int g_noread;
std::map<int, std::pair<std::vector<std::string>, Rows>> *tables; // what a SEL answers
const int PORT = 3306; const char *DBS[] = {"alpha", "beta", "gamma"};
const struct { const char *name; int nr; } CSS[] = {{"utf8", 33}, {"latin1", 8}, {"gbk", 28}, {"utf8mb4", 45}};

std::string lenenc(uint64_t n) { std::string s; if (n < 251) s += (char)n; else if (n < 65536) { s += (char)0xfc; s += (char)n; s += (char)(n >> 8); } else if (n < (1 << 24)) { s += (char)0xfd; for (int i = 0; i < 3; i++) s += (char)(n >> 8 * i); } else { s += (char)0xfe; for (int i = 0; i < 8; i++) s += (char)(n >> 8 * i); } return s; }
std::string lestr(const std::string &x) { return lenenc(x.size()) + x; }
std::string le(uint64_t v, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(v >> 8 * i); return s; }
std::string pkt(int &seq, const std::string &b) { std::string s = le(b.size(), 3); s += (char)seq++; return s + b; }
std::string okp(int &seq, uint64_t aff, int status) { return pkt(seq, std::string(1, 0) + lenenc(aff) + lenenc(0) + le(status, 2) + le(0, 2)); }
std::string errp(int &seq, int code, const std::string &m) { return pkt(seq, std::string(1, (char)0xff) + le(code, 2) + "#42000" + m); }
std::string eofp(int &seq, int status) { return pkt(seq, std::string(1, (char)0xfe) + le(0, 2) + le(status, 2)); }
std::string resultset(int &seq, const std::vector<std::string> &cols, const Rows &rows, const std::set<std::pair<int, int>> &nulls, int status) {
  std::string s = pkt(seq, lenenc(cols.size()));
  for (auto &c : cols) s += pkt(seq, lestr("def") + lestr("d") + lestr("t") + lestr("t") + lestr(c) + lestr(c) + std::string(1, 0x0c) + le(33, 2) + le(255, 4) + (char)253 + le(0, 2) + (char)0 + le(0, 2));
  s += eofp(seq, status);
  for (size_t i = 0; i < rows.size(); i++) { std::string r; for (size_t j = 0; j < cols.size(); j++) if (nulls.count({(int)i, (int)j})) r += (char)0xfb; else r += lestr(rows[i][j]); s += pkt(seq, r); }
  return s + eofp(seq, status);
}
std::map<int, std::set<std::pair<int, int>>> *nullmap;
void disturb(const char *what) { g_disturb++; sim::ev("server: %s", what); }
void drop(Sc *c, const char *what) { disturb(what); c->dead = true; if (sim::chance(W, 1, 2)) { sim::fault_count(sim::FT_peer_reset); sim::peer_reset(c->t); } else { sim::fault_count(sim::FT_peer_close); sim::peer_close(c->t); } }
// sends an answer, or part of it, or nothing
bool answer(Sc *c, const std::string &a) {
  size_t cut = std::string::npos; ns_t stall = 0;
  if (!g_calm && g_kill_at > 0 && --g_kill_at == 0) {
    switch (sim::pick(W, {3, 2, 2})) {
    case 0: cut = sim::chance(W, 1, 2) ? sim::draw(W, a.size()) : sim::draw(W, std::min<size_t>(a.size(), 6)); break;
    case 1: stall = sim::chance(W, 1, 4) ? 300 * SEC : (500 + sim::draw(W, 9000)) * MS; cut = sim::chance(W, 1, 2) ? sim::draw(W, a.size()) : std::string::npos; break;
    default: cut = 0; break;
    }
  }
  if (g_slow) sim::sleep_for(sim::draw(W, g_slow));
  size_t part = stall && cut == std::string::npos ? sim::draw(W, a.size()) : cut;
  if (!sim::peer_send_all(c->t, part == std::string::npos ? a : a.substr(0, part), in(60 * SEC))) { c->dead = true; return false; }
  if (stall) { disturb("stalls"); sim::fault_count(sim::FT_peer_stall); c->stalled = true; sim::sleep_for(stall); c->stalled = false; }
  if (cut != std::string::npos) { drop(c, "drops the connection during an answer"); return false; }
  if (part != std::string::npos && !sim::peer_send_all(c->t, a.substr(part), in(60 * SEC))) { c->dead = true; return false; }
  return true;
}
// -1 the connection has ended
int get_packet(Sc *c, std::string &in_, std::string &p) {
  while (!(in_.size() >= 4 && in_.size() >= 4 + (size_t)((uint8_t)in_[0] | (uint8_t)in_[1] << 8 | (uint8_t)in_[2] << 16))) {
    if (c->dead || g_over) return -1;
    if (g_noread && !g_calm) { g_noread = 0; disturb("stops reading"); sim::fault_count(sim::FT_peer_stall); ns_t d = sim::chance(W, 1, 3) ? 300 * SEC : (500 + sim::draw(W, 9000)) * MS; c->stalled = true; sim::block([c] { return c->dead || g_calm || g_over; }, in(d)); c->stalled = false; continue; }
    int r = sim::peer_recv(c->t, in_, 100000, in(100 * MS));
    if (r == 0 || r == -1) { c->dead = true; return -1; }
  }
  size_t n = (uint8_t)in_[0] | (uint8_t)in_[1] << 8 | (uint8_t)in_[2] << 16; p = in_.substr(4, n); in_.erase(0, 4 + n); return 0;
}
std::string run_sql(Sc *c, const std::string &sql, int &seq) {
  std::vector<std::string> st; size_t o = 0; while (o <= sql.size()) { size_t e = sql.find(';', o); if (e == std::string::npos) e = sql.size(); st.push_back(sql.substr(o, e - o)); o = e + 1; }
  std::string a; if (!sql.compare(0, 10, "SET NAMES ")) { for (auto &x : CSS) if (sql.substr(10) == x.name) c->cs = x.nr; return okp(seq, 0, 2 | (c->tx ? 1 : 0)); }
  for (size_t i = 0; i < st.size(); i++) {
    char k[16] = ""; int id = 0; unsigned long long n = 0; if (sscanf(st[i].c_str(), "%15s %d %llu", k, &id, &n) < 2) sim::violate("query-wrong", "the server received \"%s\", which nobody sent", st[i].c_str());
    int more = i + 1 < st.size() ? 8 : 0; std::string kind = k;
    if (kind == "BEG") c->tx = ++g_tx_serial;
    (*execs)[id].push_back({c->id, c->db, c->cs, c->tx, c->user});
    if (kind == "COM") c->tx = 0;
    int status = 2 | more | (c->tx ? 1 : 0);
    if (kind == "ERR") { a += errp(seq, (int)n, "refused"); break; }
    if (kind == "SEL" || kind == "DUP") { auto &t = (*tables)[id]; a += resultset(seq, t.first, t.second, (*nullmap)[id], status); }
    else a += okp(seq, n, status);
  }
  return a;
}
struct Login { const char *user, *pass; };
const Login LOGINS[] = {{"me", "pw"}, {"reader", ""}, {"an-account-of-32-characters-long", "p'\"\\ \xc3\xa4;%s 0123456789012345678901234567890123456789"}};
std::string sha1(const std::string &in) {
  uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; std::string m = in; m += (char)0x80; while (m.size() % 64 != 56) m += (char)0; uint64_t bits = in.size() * 8; for (int i = 7; i >= 0; i--) m += (char)(bits >> (8 * i));
  auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
  for (size_t o = 0; o < m.size(); o += 64) { uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)(uint8_t)m[o + 4 * i] << 24 | (uint32_t)(uint8_t)m[o + 4 * i + 1] << 16 | (uint32_t)(uint8_t)m[o + 4 * i + 2] << 8 | (uint8_t)m[o + 4 * i + 3]; for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 80; i++) { uint32_t f, k; if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1; else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6; uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
  std::string r; for (uint32_t x : h) for (int i = 3; i >= 0; i--) r += (char)(x >> (8 * i)); return r;
}
bool login_ok(const std::string &user, const std::string &token) { // mysql_native_password
  for (auto &l : LOGINS) if (user == l.user) { std::string pw = l.pass; if (pw.empty()) return token.empty(); std::string s1 = sha1(pw), x = sha1("12345678901234567890" + sha1(s1)); for (int i = 0; i < 20; i++) x[i] ^= s1[i]; return token == x; }
  return false;
}
void serve(Sc *c) {
  std::string in_, p; int seq = 0;
  std::string g = std::string(1, 10) + "5.7.30" + std::string(1, 0) + le(c->id, 4) + "12345678" + std::string(1, 0); uint32_t caps = 1 | 2 | 4 | 8 | 0x200 | 0x2000 | 0x8000 | 1 << 16 | 1 << 17 | 1 << 19;
  g += le(caps & 0xffff, 2) + (char)33 + le(2, 2) + le(caps >> 16, 2) + (char)21 + std::string(10, 0) + "901234567890" + std::string(1, 0) + "mysql_native_password" + std::string(1, 0);
  if (!g_calm && sim::chance(W, 1, 25)) { disturb("is full"); std::string e = errp(seq, 1040, "Too many connections"); answer(c, e); c->dead = true; sim::peer_close(c->t); return; }
  if (!answer(c, pkt(seq, g))) return;
  if (get_packet(c, in_, p)) { if (!c->closing) sim::peer_close(c->t); return; }
  uint32_t cf = (uint8_t)p[0] | (uint8_t)p[1] << 8 | (uint8_t)p[2] << 16 | (uint32_t)(uint8_t)p[3] << 24; c->cs = (uint8_t)p[8];
  size_t o = 32; std::string user = p.c_str() + o; o += user.size() + 1; std::string token = p.substr(o + 1, (uint8_t)p[o]); o += 1 + (uint8_t)p[o]; if (cf & 8) { c->db = p.c_str() + o; }
  seq = 2; c->user = user; if (!login_ok(user, token)) { sim::ev("server: refuses the login of \"%s\"", user.c_str()); std::string e = errp(seq, 1045, "Access denied"); answer(c, e); c->dead = true; sim::peer_close(c->t); return; }
  if (!answer(c, okp(seq, 0, 2))) return;
  while (true) {
    if (get_packet(c, in_, p)) { c->dead = true; if (!c->closing) sim::peer_close(c->t); return; }
    seq = 1; std::string a, arg = p.substr(1); bool known = false; for (auto d : DBS) if (arg == d) known = true;
    switch (p.empty() ? 0 : p[0]) {
    case 1: c->quit++; c->dead = true; sim::peer_close(c->t); return;
    case 2: sim::ev("server: conn %d use %s", c->id, arg.c_str()); if (known) { c->db = arg; a = okp(seq, 0, 2 | (c->tx ? 1 : 0)); } else a = errp(seq, 1049, "Unknown database"); break;
    case 3: sim::ev("server: conn %d %.60s", c->id, arg.c_str()); if (!g_calm && g_kill_at == 1 && sim::chance(W, 1, 4)) { g_kill_at = 0; drop(c, "drops the connection before it executes"); return; } if (c->db.empty() && arg.compare(0, 9, "SET NAMES")) a = errp(seq, 1046, "No database selected"); else a = run_sql(c, arg, seq); break;
    case 14: a = okp(seq, 0, 2); break;
    default: a = errp(seq, 1047, "Unknown command");
    }
    if (!answer(c, a)) return;
  }
}
void server() {
  while (!g_over) {
    sim::Tcp *t = sim::peer_accept(lis, in(100 * MS)); if (!t) continue;
    Sc *c = new Sc(); c->t = t; c->id = conns->size() + 1; c->cs = 0; c->tx = 0; c->dead = c->closing = c->stalled = false; c->quit = 0; conns->emplace_back(c);
    sim::spawn("srv-conn", [c] { serve(c); });
  }
}
int g_next;
struct Cli {
  std::string user; CMySql *m; int ct, rt, wt; std::string db; int cs; int tx; int txconn; bool inited; int base;
  std::vector<std::pair<int, MySqlData *>> kept;
};
uint64_t sockf() { return sim::faults_fired(sim::FT_net_delay) + sim::faults_fired(sim::FT_signal_intr) + sim::faults_fired(sim::FT_sock_fail) + sim::faults_fired(sim::FT_conn_refused) + sim::faults_fired(sim::FT_conn_timeout) + sim::faults_fired(sim::FT_fd_limit) + sim::faults_fired(sim::FT_net_reset); }
int add_table(bool dup) {
  int id = ++g_next; auto &t = (*tables)[id]; int nc = 1 + sim::draw(W, 4), nr = sim::pick(W, {1, 3, 2, 1}) * sim::draw(W, 4);
  for (int j = 0; j < nc; j++) t.first.push_back("c" + std::to_string(j)); if (dup) t.first.push_back("c0");
  for (int i = 0; i < nr; i++) { std::vector<std::string> r; for (size_t j = 0; j < t.first.size(); j++) { std::string s; size_t n = sim::pick(W, {5, 3, 1, 1}) == 3 ? 240 + sim::draw(W, 700) : sim::draw(W, 20); if (sim::chance(W, 1, 60)) n = 66000; for (size_t k = 0; k < n; k++) s += (char)(id * 7 + i * 31 + j * 11 + k * 3); if (sim::chance(W, 1, 8)) { (*nullmap)[id].insert({i, (int)j}); s.clear(); } r.push_back(s); } t.second.push_back(r); }
  return id;
}
void check_rows(const MySqlData &d, int id, const char *when) {
  sim::Kern k; auto &t = (*tables)[id]; size_t nr, nf; { sim::User u; nr = d.num_rows(); nf = d.num_fields(); }
  if (nr != t.second.size() || nf != t.first.size()) sim::violate("result-wrong", "%s: the result of query %d has %zu rows of %zu columns, the server answered %zu of %zu", when, id, nr, nf, t.second.size(), t.first.size());
  for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nf; j++) {
    bool eq; { sim::User u; const string &v = d[i][t.first[j]]; sim::Kern k2; eq = v.size() == t.second[i][j].size() && !memcmp(v.data(), t.second[i][j].data(), v.size()); }
    if (!eq) sim::violate("result-wrong", "%s: row %zu column %zu of the result of query %d is not what the server answered", when, i, j, id);
  }
  if (nr) { bool thrown = false; { sim::User u; try { d[nr]; } catch (mysql_exception &) { thrown = true; } } if (!thrown) sim::violate("result-wrong", "row %zu of a result of %zu rows could be read", nr, nr); }
}
struct Call { ns_t t0; uint64_t d0, s0; int up0; bool stalled; };
Call begin() { Call c; c.t0 = sim::now(); c.d0 = g_disturb; c.s0 = sockf(); c.up0 = g_up_mode; c.stalled = false; for (auto &s : *conns) if (s->stalled && sim::fd_of_peer(s->t) >= 0) c.stalled = true; return c; }
bool quiet(const Call &c) { return !c.stalled && g_disturb == c.d0 && sockf() == c.s0 && c.up0 == 0 && g_up_mode == 0; }
void bound(Cli &c, const Call &k, const char *op) { ns_t el = sim::now() - k.t0, lim = (ns_t)(3 * (c.ct + 4 * c.rt + 2 * c.wt) + 3) * SEC; if (el > lim) sim::violate("limit-exceeded", "%s took %.1f s with time limits of %d, %d and %d s (connect, read, write)", op, el / 1e9, c.ct, c.rt, c.wt); }
std::string g_err;
void op_init(Cli &c) {
  const Login &lg = LOGINS[sim::draw(W, 3)]; c.user = lg.user; Call k = begin(); bool ok = true; int i = sim::draw(W, 5); std::string cs = i < 4 ? CSS[i].name : ""; c.cs = i < 4 ? CSS[i].nr : 0; bool shortage = false;
  { sim::User u; try { c.m->Init(g_host.c_str(), lg.user, lg.pass, PORT, cs); } catch (mysql_exception &e) { ok = false; sim::Kern q; g_err = e.what(); } }
  sim::ev("Init -> %d %s", ok, ok ? "" : g_err.c_str()); bound(c, k, "Init"); c.inited = true; c.tx = 0;
  if (!ok && quiet(k) && !shortage) sim::violate("false-failure", "Init failed although the server was up: %s", g_err.c_str());
  sim::probe(ok ? "init_ok" : "init_failed");
}
void op_use(Cli &c) {
  Call k = begin(); bool ok = true; bool bad = sim::chance(W, 1, 6); std::string db = bad ? "nodb" : DBS[sim::draw(W, 3)];
  auto live = [] { int n = 0; for (auto &s : *conns) if (!s->dead && sim::fd_of_peer(s->t) >= 0) n = s->id; return n; }; int before = live();
  { sim::User u; try { c.m->use(db); } catch (mysql_exception &e) { ok = false; sim::Kern q; g_err = e.what(); } }
  sim::ev("use %s -> %d %s", db.c_str(), ok, ok ? "" : g_err.c_str()); bound(c, k, "use");
  if (ok && bad) sim::violate("false-success", "use() of an unknown database succeeded");
  if (!ok && !bad && quiet(k) && !c.tx) sim::violate("false-failure", "use() failed although the server was up: %s", g_err.c_str());
  if (bad && before && quiet(k) && live() != before) sim::violate("connection-lost", "an error answer to use() ended the connection");
  if (ok) c.db = db;
}
void op_charset(Cli &c) {
  Call k = begin(); bool ok = true; int i = sim::draw(W, 4); std::string cs = CSS[i].name; c.cs = CSS[i].nr;
  { sim::User u; try { c.m->setCharSet(cs); } catch (mysql_exception &e) { ok = false; sim::Kern q; g_err = e.what(); } }
  sim::ev("setCharSet %s -> %d %s", cs.c_str(), ok, ok ? "" : g_err.c_str()); bound(c, k, "setCharSet");
  if (!ok && quiet(k)) sim::violate("false-failure", "setCharSet() failed although the server was up: %s", g_err.c_str());
}
void op_escape(Cli &c) {
  Call k = begin(); bool ok = true; size_t n = sim::draw(W, 40); std::string s, want; static const char al[] = "ab'\"\\\n\r\0\x1a z"; for (size_t i = 0; i < n; i++) s += al[sim::draw(W, 11)];
  for (char x : s) switch (x) { case 0: want += "\\0"; break; case '\n': want += "\\n"; break; case '\r': want += "\\r"; break; case 26: want += "\\Z"; break; case '\'': case '"': case '\\': want += '\\'; want += x; break; default: want += x; }
  std::string got; { sim::User u; try { std::string r = c.m->escape_string(s); sim::Kern q; got.assign(r.data(), r.size()); } catch (mysql_exception &e) { ok = false; sim::Kern q; g_err = e.what(); } }
  bound(c, k, "escape_string"); if (ok && got != want) sim::violate("escape-wrong", "escape_string of %zu bytes returned %zu bytes, %zu expected", s.size(), got.size(), want.size());
  if (!ok && quiet(k)) sim::violate("false-failure", "escape_string() failed although the server was up: %s", g_err.c_str());
}
void op_query(Cli &c, bool must = false) {
  std::string sql; int id = 0, sel = 0; int err = 0; uint64_t aff = 0; int kind = must ? sim::draw(W, 2) : sim::pick(W, {6, 4, 2, 1, c.tx ? 0 : 2, c.tx ? 3 : 0, 2}); std::vector<int> ids;
  auto one = [&](int kd) { std::string s; if (kd == 0) { id = sel = add_table(false); s = "SEL " + std::to_string(id); } else if (kd == 1) { id = ++g_next; aff = sim::chance(W, 1, 10) ? 3000000000ull + sim::draw(W, 100) : sim::draw(W, 300); s = "UPD " + std::to_string(id) + " " + std::to_string(aff); if (sim::chance(W, 1, 12)) { s += " "; s.append(1000 + sim::draw(W, 400000), 'x'); } } else if (kd == 2) { id = ++g_next; static const int codes[] = {1064, 1146, 1062, 1205, 1053 + 0 * 1, 3024}; err = codes[sim::draw(W, 6)]; if (err == 1053) err = 1054; s = "ERR " + std::to_string(id) + " " + std::to_string(err); } else { id = sel = add_table(true); s = "DUP " + std::to_string(id); } ids.push_back(id); return s; };
  bool dup = false, multi = false, beg = false, com = false;
  switch (kind) { case 0: case 1: case 2: sql = one(kind); break; case 3: sql = one(3); dup = true; break; case 4: id = ++g_next; ids.push_back(id); sql = "BEG " + std::to_string(id); beg = true; break; case 5: id = ++g_next; ids.push_back(id); sql = "COM " + std::to_string(id); com = true; break;
  default: { multi = true; int n = 2 + sim::draw(W, 2); int fs = 0, fi = 0, fe = 0; uint64_t fa = 0; for (int i = 0; i < n; i++) { int kd = sim::pick(W, {3, 3, 1}); if (i) sql += ";"; sql += one(kd); if (!i) { fs = kd == 0 ? sel : 0; fi = id; fa = aff; fe = err; } if (kd == 2) break; } sel = fs; id = fi; aff = fa; (void)fe; break; } }
  Call k = begin(); bool ok = true; MySqlData *d = nullptr; bool nodb = c.db.empty(); size_t naff = 0;
  { sim::User u; try { MySqlData r = c.m->query(sql); d = new MySqlData(r); naff = r.affected_rows(); } catch (mysql_exception &e) { ok = false; sim::Kern q; g_err = e.what(); } }
  sim::ev("query %s -> %d %s", sql.substr(0, 60).c_str(), ok, ok ? "" : g_err.substr(0, 120).c_str()); bound(c, k, "query"); sim::op_done();
  bool q = quiet(k);
  for (int i : ids) if ((*execs)[i].size() > 2) sim::violate("repeated", "statement %d was executed %zu times by one query()", i, (*execs)[i].size());
  if (q) for (int i : ids) if ((*execs)[i].size() > 1) sim::violate("repeated", "statement %d was executed twice although nothing happened to its connection", i);
  if (ok) {
    if (nodb) sim::violate("false-success", "query() succeeded although no database was ever selected");
    auto &ex = (*execs)[id]; if (ex.empty()) sim::violate("false-success", "query() succeeded and the server never executed statement %d", id);
    if (err && !multi) sim::violate("false-success", "query() succeeded although the server answered with error %d", err);
    if (multi && ids.size() && err && ids[0] == id && sel == 0 && aff == 0 && sql.compare(0, 3, "ERR") == 0) sim::violate("false-success", "query() succeeded although the server answered with error %d", err);
    for (auto &e : ex) { if (e.user != c.user) sim::violate("login-wrong", "statement %d was executed as \"%s\", the login is \"%s\"", id, e.user.c_str(), c.user.c_str()); if (e.db != c.db) sim::violate("database-wrong", "statement %d was executed in database \"%s\", selected is \"%s\"", id, e.db.c_str(), c.db.c_str()); if (c.cs && e.cs != c.cs) sim::violate("charset-wrong", "statement %d was executed on a connection with character set %d, set is %d", id, e.cs, c.cs); }
    if (dup) sim::violate("false-success", "a result with two columns of one name was returned");
    Exec mine = ex.back(); for (auto &e : ex) for (auto &s : *conns) if (s->id == e.conn && sim::fd_of_peer(s->t) >= 0) mine = e; // an execution on a connection given up may come late
    if (c.tx && (c.tx < 0 || mine.conn != c.txconn || mine.tx != c.tx)) sim::violate("transaction-split", "statement %d succeeded outside the transaction it belongs to (the connection of the transaction was lost and nothing reported it)", id);
    if (beg) { c.tx = mine.tx; c.txconn = mine.conn; } if (com) c.tx = 0;
    if (sel) { check_rows(*d, sel, "query"); if (sim::chance(W, 1, 3)) { c.kept.push_back({sel, d}); d = nullptr; } sim::probe("rows_ok"); }
    else if (naff != aff && !beg && !com) sim::violate("result-wrong", "query() reports %zu affected rows, the server answered %llu", naff, (unsigned long long)aff);
    if (d) { if (sim::chance(W, 1, 3)) { sim::User u; MySqlData e(*d); e = *d; e = *(const MySqlData *)&e; { sim::Kern q2; if (sel) check_rows(e, sel, "copy"); } } UR((delete d, 0)); }
    if (must) sim::probe("served_after_fault");
  } else {
    if (q && !nodb && !err && !dup && !c.tx) sim::violate(must ? "no-recovery" : "false-failure", "query %s failed although the server was up all the time: %s", sql.substr(0, 40).c_str(), g_err.substr(0, 160).c_str());
    if (q && c.tx > 0 && !err && !dup && !nodb) { bool alive = false; for (auto &s : *conns) if (s->id == c.txconn && !s->dead) alive = true; if (alive) sim::violate("false-failure", "query %s failed although the transaction's connection is intact: %s", sql.substr(0, 40).c_str(), g_err.substr(0, 160).c_str()); }
    if (c.tx > 0 && q && (err || dup)) { for (auto &s : *conns) if (s->id == c.txconn && !s->dead && sim::fd_of_peer(s->t) < 0) sim::violate("transaction-split", "an SQL error ended the connection and with it the open transaction: %s", g_err.substr(0, 160).c_str()); }
    if (c.tx > 0) { bool open = false; for (auto &s : *conns) if (s->id == c.txconn && sim::fd_of_peer(s->t) >= 0) open = true; if (!open) c.tx = 0; } // the transaction ended with its connection, and this said so
    if (err && q && !nodb) sim::probe("sql_error");
    sim::probe("query_threw");
  }
}
void check_kept(Cli &c) { for (auto &p : c.kept) check_rows(*p.second, p.first, "a kept result"); }
void client(int base) {
  Cli c; c.base = base; c.tx = 0; c.txconn = 0; c.cs = 0; c.inited = false; c.ct = 1 + sim::draw(W, 3); c.rt = 1 + sim::draw(W, 3); c.wt = 1 + sim::draw(W, 3);
  { sim::User u; c.m = new CMySql; c.m->setConnectTime(c.ct); c.m->setReadTime(c.rt); c.m->setWriteTime(c.wt); }
  op_init(c); int n = 4 + sim::draw(W, 16);
  for (int i = 0; i < n; i++) {
    if (sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 800) * MS);
    if (sim::chance(W, 1, 6)) { for (auto &s : *conns) if (!s->dead && sim::chance(W, 1, 2)) { s->closing = true; s->dead = true; sim::ev("server: drops idle connection %d", s->id); if (sim::chance(W, 1, 3)) { sim::fault_count(sim::FT_peer_reset); sim::peer_reset(s->t); } else { sim::fault_count(sim::FT_peer_close); sim::peer_close(s->t); } } sim::sleep_for(50 * MS); }
    if (!g_calm && sim::chance(W, 1, 5)) g_kill_at = 1 + sim::draw(W, 5); if (!g_calm && sim::chance(W, 1, 10)) g_noread = 1;
    switch (sim::pick(W, {2, 14, c.tx ? 0 : 2, 1, c.tx ? 0 : 1})) { case 0: if (!c.tx) op_use(c); break; case 1: if (c.db.empty() && sim::chance(W, 9, 10)) op_use(c); else op_query(c); break; case 2: op_charset(c); break; case 3: if (!c.tx) op_escape(c); break; default: op_init(c); break; }
    sim::state_mark(c.tx ? 1 : 0 + 2 * (c.db.size()) + 64 * c.cs + 16384 * std::min<size_t>(conns->size(), 31) + (g_disturb > 7 ? 7 : g_disturb) * 1048576ull);
  }
  // the disturbance ends: everything must work again
  g_calm = true; g_kill_at = 0; sim::faults_off(); g_up_mode = 0; sim::listener_mode(lis, 0); sim::sleep_for(12 * SEC); if (c.tx) op_query(c); // the loss of a transaction is still to be reported
  if (c.db.empty()) { std::string e; Call k = begin(); bool ok = true; { sim::User u; try { c.m->use("alpha"); } catch (mysql_exception &x) { ok = false; sim::Kern q; g_err = x.what(); } } if (!ok) sim::violate("no-recovery", "use() failed after the disturbance had ended: %s", g_err.c_str()); c.db = "alpha"; (void)k; }
  op_query(c, true); op_query(c, true); check_kept(c);
  { sim::User u; delete c.m; } check_kept(c);
  for (auto &p : c.kept) UR((delete p.second, 0)); c.kept.clear();
}
void db(bool faulty) {
  sim::default_schedule(); execs = new std::map<int, std::vector<Exec>>; conns = new std::vector<std::unique_ptr<Sc>>; tables = new std::map<int, std::pair<std::vector<std::string>, Rows>>; nullmap = new std::map<int, std::set<std::pair<int, int>>>;
  g_over = false; g_disturb = 0; g_kill_at = 0; g_up_mode = 0; g_tx_serial = 0; g_next = 0; g_calm = true; g_slow = 0; g_noread = 0;
  sim::net().lat_min = (1 + sim::draw(W, 30)) * 100 * US; sim::net().lat_jit = sim::draw(W, 2000) * US;
  { uint32_t a = sim::chance(W, 1, 2) ? 0x7f000001 : 0x0a141e00 + sim::draw(W, 200); char b[20]; snprintf(b, sizeof b, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); g_host = b; lis = sim::peer_listen(PORT, a); } sim::listener_mode(lis, 0); sim::spawn("server", [] { server(); });
  { Cli c; c.tx = 0; c.cs = 0; c.ct = c.rt = c.wt = 2; c.base = 0; sim::User u; CMySql m; m.Init(g_host.c_str(), "me", "pw", PORT); m.use("alpha"); } // the library's own one-time allocations
  sim::sleep_for(100 * MS);
  uint64_t mark = sim::heap_mark(); int base = sim::fds_open();
  if (faulty) { g_calm = false; g_slow = sim::chance(W, 1, 3) ? 300 * MS : 0; sim::fault_swarm({sim::FT_net_split, sim::FT_net_delay, sim::FT_short_send, sim::FT_short_recv, sim::FT_send_eagain, sim::FT_sock_fail, sim::FT_signal_intr, sim::FT_net_reset, sim::FT_conn_immediate}, 5);
    sim::spawn("outages", [] { int n = sim::draw(W, 3); for (int i = 0; i < n && !g_over; i++) { sim::sleep_for(sim::draw(W, 9000) * MS); if (g_calm) break; g_up_mode = 1 + sim::draw(W, 2); disturb(g_up_mode == 1 ? "goes down" : "is cut off"); sim::listener_mode(lis, g_up_mode); for (auto &s : *conns) if (!s->dead && g_up_mode == 1) { s->closing = true; s->dead = true; sim::peer_reset(s->t); } sim::sleep_for((100 + sim::draw(W, 6000)) * MS); if (g_calm) break; g_up_mode = 0; sim::listener_mode(lis, 0); disturb("is back"); } }); }
  client(base);
  sim::sleep_for(1 * SEC);
  if (sim::fds_open() != base) sim::violate("fd-leak", "%d descriptors are open after the client was destroyed, %d before: %s", sim::fds_open(), base, sim::fds_describe().c_str());
  uint64_t b = 0, lv = sim::heap_live_since(mark, &b); if (lv) sim::violate("memory-leak", "%llu blocks (%llu bytes) are held after the client was destroyed: %s", (unsigned long long)lv, (unsigned long long)b, sim::heap_describe_live(mark, 6).c_str());
  g_over = true;
}
SCENARIO("C20", mysql_plain, 1) { db(false); }
SCENARIO("C20", mysql_faults, 3) { db(true); }
} // namespace
