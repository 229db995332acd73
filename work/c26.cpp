// C26: message objects (HTTP writer and reader, value packages, their helpers) used by several threads at a time and again for the next message.
#include "common.h"
#include <time.h>
#include <arpa/inet.h>
#include "CHttpWriter.h"
#include "CHttpReader.h"
#include "CAnyPackage.h"
#include "CPackage.h"
#include "StringHelper.h"
using namespace lce;
namespace {
int g_left; uint64_t g_ops;
typedef std::vector<std::pair<std::string, std::string>> Pairs;
std::string word(int n) { std::string s; static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."; while (n-- > 0) s += al[sim::draw(W, 65)]; return s; }
std::string gmt(time_t t) { struct tm tm; gmtime_r(&t, &tm); static const char *d[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *m[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; char b[80]; snprintf(b, sizeof b, "%s, %02d %s %04d %02d:%02d:%02d GMT", d[tm.tm_wday], tm.tm_mday, m[tm.tm_mon], tm.tm_year + 1900, tm.tm_hour, tm.tm_min, tm.tm_sec); return b; }
time_t some_time() { switch (sim::draw(W, 4)) { case 0: return 1 + sim::draw(W, 4000000000u); case 1: { static const time_t e[] = {951782400, 951868799, 1709164799, 1709164800, 1735689599, 1735689600, 86399, 86400}; return e[sim::draw(W, 8)]; } default: return 1600000000 + sim::draw(W, 200000000); } }
void urlenc(std::string &o, const std::string &s) { for (unsigned char c : s) { if (isalnum(c) || c == '-' || c == '_' || c == '.') o += c; else if (c == ' ') o += '+'; else { char b[4]; snprintf(b, 4, "%%%02X", c); o += b; } } }
std::string bytes(int n) { std::string s; while (n-- > 0) s += (char)sim::draw(W, 256); return s; }
void wrong(const char *what, const std::string &got, const std::string &want) { sim::violate("result-wrong", "%s: got '%s', expected '%s'", what, got.substr(0, 140).c_str(), want.substr(0, 140).c_str()); }
// ---------------------------------------------------------------- responses
int longer(int n) { return sim::chance(W, 1, 40) ? 900 + sim::draw(W, 2000) : n; }
struct Wr { CHttpWriter *w; int used; };
void response(Wr &o) {
  static const int codes[] = {200, 404, 302, 500, 206, 304, 403, 416, 417, 503, 505}; int st = sim::chance(W, 1, 2) ? 200 : codes[sim::draw(W, 11)]; time_t lm = sim::chance(W, 1, 2) ? some_time() : 0, ex = sim::chance(W, 1, 2) ? some_time() : 0; size_t nh = sim::draw(W, 3), nc = sim::draw(W, 3);
  std::map<std::string, std::string> heads; struct Ck { std::string v, dom, path; time_t t; }; std::map<std::string, Ck> cks;
  for (size_t i = 0; i < nh; i++) heads["X-" + word(1 + sim::draw(W, 3))] = sim::chance(W, 1, 30) ? word(900 + sim::draw(W, 2000)) : word(sim::draw(W, 30)); for (size_t i = 0; i < nc; i++) { Ck k; k.v = sim::chance(W, 1, 4) ? std::to_string(sim::draw(W, 100000)) : word(longer(sim::draw(W, 10))); if (sim::chance(W, 1, 3)) k.dom = word(6); if (sim::chance(W, 1, 3)) k.path = "/" + word(3); k.t = sim::chance(W, 1, 2) ? 1 + sim::draw(W, 10000000) : 0; cks[word(1 + sim::draw(W, 3))] = k; }
  std::string etag, cc, loc, ct = "text/html", cn = "Close", body = sim::chance(W, 1, 5) ? "" : bytes(sim::draw(W, 200)); if (sim::chance(W, 1, 4)) etag = word(longer(8)); if (sim::chance(W, 1, 4)) cc = "no-cache"; if (sim::chance(W, 1, 6)) loc = "/" + word(longer(5)); if (sim::chance(W, 1, 3)) ct = "application/" + word(4); if (sim::chance(W, 1, 3)) cn = "Keep-Alive"; unsigned long bl = sim::chance(W, 1, 6) ? 1 + sim::draw(W, 100000) : 0; int num = sim::chance(W, 1, 3) ? (int)sim::draw(W, 1000000) : -1;
  if (!o.w || sim::chance(W, 1, 4)) { UR(delete o.w; o.w = new CHttpWriter); o.used = 0; } if (o.used++) sim::probe("writer_reused");
  int64_t t0 = sim::wall_us() / 1000000; std::string got;
  { sim::User u; CHttpWriter &w = *o.w; w.begin(); w.setStatusCode(st); if (lm) w.setLastModified(lm); if (ex) w.setExpires(ex); if (!etag.empty()) w.setETag(etag); if (!cc.empty()) w.setCacheControl(cc); if (!loc.empty()) w.setLocation(loc); if (bl) w.setBodyLen(bl); w.setContentType(ct); w.setConnection(cn);
    for (auto &h : heads) w.setHead(h.first, h.second); for (auto &c : cks) if (!c.second.v.empty() && c.second.v.size() < 7 && c.second.v[0] != '0' && c.second.v.find_first_not_of("0123456789") == std::string::npos) w.setCookie(c.first, atoi(c.second.v.c_str()), c.second.dom, c.second.path, c.second.t); else w.setCookie(c.first, c.second.v, c.second.dom, c.second.path, c.second.t);
    w.write(body.data(), body.size()); if (num >= 0) w << num; w.end(); sim::Kern k; got.assign(w.data(), w.size()); }
  int64_t t1 = sim::wall_us() / 1000000; if (num >= 0) body += std::to_string(num);
  // split the message into its lines
  size_t he = got.find("\r\n\r\n"); if (he == std::string::npos) sim::violate("result-wrong", "a response has no end of header"); std::string b = got.substr(he + 4), h = got.substr(0, he); if (b != body) wrong("the body of a response", b, body);
  std::multimap<std::string, std::string> L; size_t p = h.find("\r\n"); std::string first = h.substr(0, p); if (first.compare(0, 12, "HTTP/1.1 " + std::to_string(st))) wrong("status line", first, std::to_string(st));
  while (p != std::string::npos) { p += 2; size_t e = h.find("\r\n", p); std::string l = h.substr(p, e == std::string::npos ? e : e - p); size_t c = l.find(':'); if (c == std::string::npos) sim::violate("result-wrong", "a response has the header line '%s'", l.substr(0, 100).c_str()); std::string v = l.substr(c + 1); if (!v.empty() && v[0] == ' ') v.erase(0, 1); L.insert({l.substr(0, c), v}); p = e; }
  auto take = [&](const std::string &n, const std::string &v) { for (auto i = L.begin(); i != L.end(); ++i) if (i->first == n && i->second == v) { L.erase(i); return; } auto i = L.find(n); wrong(("header " + n + " of a response").c_str(), i == L.end() ? "(none)" : i->second, v); };
  auto dated = [&](const std::string &n, const std::string &pre, int64_t add, const std::string &post) { for (auto i = L.begin(); i != L.end(); ++i) if (i->first == n) for (int64_t t = t0; t <= t1; t++) if (i->second == pre + gmt(t + add) + post) { L.erase(i); return; } auto i = L.find(n); wrong(("header " + n + " of a response").c_str(), i == L.end() ? "(none)" : i->second, pre + gmt(t0 + add) + post); };
  take("Connection", cn); dated("Date", "", 0, ""); if (lm) take("Last-Modified", gmt(lm)); if (ex) take("Expires", gmt(ex)); if (!cc.empty()) take("Cache-Control", cc); if (!etag.empty()) take("ETag", etag); if (!loc.empty()) take("Location", loc); take("Content-Type", ct); if (bl) take("Content-Length", std::to_string(bl)); else if (!body.empty()) take("Content-Length", std::to_string(body.size()));
  for (auto &x : heads) take(x.first, x.second); for (auto &c : cks) { std::string pre = c.first + "=" + c.second.v + (c.second.dom.empty() ? "" : "; Domain=" + c.second.dom), post = c.second.path.empty() ? "" : "; Path=" + c.second.path; if (c.second.t) dated("Set-Cookie", pre + "; Expires=", c.second.t, post); else take("Set-Cookie", pre + post); }
  if (!L.empty()) sim::violate("carried-over", "a response has the header '%s: %s' that was not put into it", L.begin()->first.c_str(), L.begin()->second.substr(0, 60).c_str());
  sim::state_mark(st + 1000 * (lm != 0) + 2000 * (ex != 0) + 4000 * nh + 16000 * nc + 64000 * std::min(o.used, 5));
}
// ---------------------------------------------------------------- requests
struct Rd { CHttpReader *r; std::set<std::string> names, heads, cookies, files; int used; };
const char *colon() { static const char *c[] = {": ", ":", ":\t", ":  "}; return c[sim::pick(W, {8, 1, 1, 1})]; }
void request(Rd &o, int force = -1) {
  std::map<std::string, std::string> vals, heads, cks; struct Fl { std::string data, name, type; }; std::map<std::string, Fl> files; int kind = sim::pick(W, {3, 3, 2}); if (force >= 0) kind = force; std::string uri = "/" + word(1 + sim::draw(W, 12)), m, q;
  for (size_t i = sim::draw(W, 4); i--;) vals["n" + word(1)] = sim::chance(W, 1, 4) ? (sim::chance(W, 1, 4) ? "-" : "") + std::to_string(sim::draw(W, 1u << (1 + sim::draw(W, 30)))) : bytes(sim::draw(W, 20)); for (size_t i = sim::draw(W, 3); i--;) { std::string v = word(longer(1 + sim::draw(W, 20))); if (sim::chance(W, 1, 4)) v += (sim::chance(W, 1, 2) ? ": " : ":") + word(3); heads["h" + std::to_string(sim::draw(W, 6))] = v; } for (size_t i = sim::draw(W, 3); i--;) cks["c" + word(1)] = sim::chance(W, 1, 4) ? (sim::chance(W, 1, 4) ? "-" : "") + std::to_string(sim::draw(W, 1u << (1 + sim::draw(W, 30)))) : bytes(sim::draw(W, 10));
  std::string hs; for (auto &h : heads) hs += (sim::chance(W, 1, 4) ? "H" + h.first.substr(1) : h.first) + colon() + h.second + "\r\n"; if (!cks.empty()) { std::string c; for (auto &k : cks) { if (!c.empty()) c += "; "; c += k.first + "="; urlenc(c, k.second); } hs += std::string(sim::chance(W, 1, 4) ? "cookie" : "Cookie") + colon() + c + "\r\n"; }
  for (auto &v : vals) { if (!q.empty()) q += "&"; q += v.first + "="; urlenc(q, v.second); }
  if (kind == 0) m = "GET " + uri + (q.empty() ? "" : "?" + q) + " HTTP/1.1\r\nHost: x\r\n" + hs + "\r\n"; else if (kind == 1) m = "POST " + uri + (sim::chance(W, 1, 4) ? "?zz=" + word(3) : std::string()) + " HTTP/1.0\r\nHost: x\r\n" + hs + "\r\n" + q;
  else { vals.clear(); std::string bd = "----" + word(10), b; for (size_t i = 1 + sim::draw(W, 3); i--;) { bool fl = sim::chance(W, 1, 2); std::string n = (fl ? "f" : "n") + word(1), v = sim::pick(W, {1, 1}) ? bytes(sim::draw(W, 60)) : word(sim::draw(W, 60)); if (vals.count(n)) continue; b += "--" + bd + "\r\nContent-Disposition: form-data; name=\"" + n + "\""; if (fl) { Fl f; f.data = v; f.name = word(5); f.type = "text/" + word(3); b += "; filename=\"" + f.name + "\"\r\nContent-Type: " + f.type; files[n] = f; } b += "\r\n\r\n" + v + "\r\n"; vals[n] = v; } b += "--" + bd + "--\r\n"; m = "POST " + uri + " HTTP/1.1\r\n" + (sim::chance(W, 1, 4) ? "content-type" : "Content-Type") + colon() + "multipart/form-data; boundary=" + bd + "\r\n" + hs + "\r\n" + b; sim::probe("multipart"); }
  if (!o.r || sim::chance(W, 1, 4)) { UR(delete o.r; o.r = new CHttpReader); o.names.clear(); o.heads.clear(); o.cookies.clear(); o.files.clear(); o.used = 0; } if (o.used++) { sim::probe("reader_reused"); if (sim::chance(W, 1, 3)) UR(o.r->clear()); }
  bool ok; UR(ok = o.r->setData(m.data(), m.size())); if (!ok) sim::violate("result-wrong", "a well-formed request was refused: %s", o.r->getErrMsg());
  std::string s; UR(s = o.r->getURI()); if (s != uri) wrong("the URI of a request", s, uri); int cmd; UR(cmd = o.r->getCommand()); if (cmd != (kind ? POST : GET)) sim::violate("result-wrong", "the method of a request is %d", cmd); UR(s = o.r->getVersion()); if (s != (kind == 1 ? "HTTP/1.0" : "HTTP/1.1")) wrong("the version of a request", s, "HTTP/1.x");
  for (auto &v : vals) o.names.insert(v.first); for (auto &h : heads) o.heads.insert(h.first); for (auto &c : cks) o.cookies.insert(c.first); for (auto &f : files) o.files.insert(f.first);
  // everything asked for is this message's, and what only earlier messages had is absent
  auto cls = [](bool here) { return here ? "result-wrong" : "carried-over"; };
  for (auto &n : o.names) { std::string g; { sim::User u; string t; o.r->getValue(n, t, "(none)"); sim::Kern k; g = t; } auto i = vals.find(n); std::string want = i == vals.end() ? "(none)" : i->second; if (g != want) sim::violate(cls(i != vals.end()), "parameter %s of a request is '%s', expected '%s'", n.c_str(), g.substr(0, 80).c_str(), want.substr(0, 80).c_str()); }
  if (sim::chance(W, 1, 2)) for (auto &n : o.names) { // as numbers
    int v; unsigned short w; unsigned char ch; unsigned long ul; bool b; { sim::User us; o.r->getValue(n, v, -7); o.r->getValue(n, w, (unsigned short)80); o.r->getValue(n, ch, (unsigned char)81); o.r->getValue(n, ul, 82ul); o.r->getValue(n, b, true); }
    auto i = vals.find(n); long l = i == vals.end() ? 0 : atol(i->second.c_str()); bool ok = i == vals.end() ? v == -7 && w == 80 && ch == 81 && ul == 82 && b : v == (int)l && w == (unsigned short)l && ch == (unsigned char)l && ul == (unsigned long)l && b == (l != 0);
    if (!ok) sim::violate(cls(i != vals.end()), "parameter %s of a request, %s, is read as %d, %u, %u, %lu, %d", n.c_str(), i == vals.end() ? "which it does not have" : ("'" + i->second.substr(0, 40) + "'").c_str(), v, w, ch, ul, b); }
  for (auto &n : o.heads) { std::string g; UR(g = o.r->getHead(n)); auto i = heads.find(n); std::string want = i == heads.end() ? "" : i->second; if (g != want) sim::violate(cls(i != heads.end()), "header %s of a request is '%s', expected '%s'", n.c_str(), g.c_str(), want.c_str()); }
  for (auto &n : o.cookies) { std::string g; { sim::User u; string t; o.r->getCookie(n, t, "(none)"); sim::Kern k; g = t; } auto i = cks.find(n); std::string want = i == cks.end() ? "(none)" : i->second; if (g != want) sim::violate(cls(i != cks.end()), "cookie %s of a request is '%s', expected '%s'", n.c_str(), g.c_str(), want.c_str()); }
  if (sim::chance(W, 1, 2)) for (auto &n : o.cookies) { // as numbers
    int v; unsigned char ch; unsigned long ul; { sim::User us; o.r->getCookie(n, v, -7); o.r->getCookie(n, ch, (unsigned char)81); o.r->getCookie(n, ul, 82ul); }
    auto i = cks.find(n); long l = i == cks.end() ? 0 : atol(i->second.c_str()); bool ok = i == cks.end() ? v == -7 && ch == 81 && ul == 82 : v == (int)l && ch == (unsigned char)l && ul == (unsigned long)l; if (!ok) sim::violate(cls(i != cks.end()), "cookie %s of a request, %s, is read as %d, %u, %lu", n.c_str(), i == cks.end() ? "which it does not have" : ("'" + i->second.substr(0, 40) + "'").c_str(), v, ch, ul); }
  if (kind != 2) { std::string g; UR(string t; o.r->getValue(t); sim::Kern k; g = t); if (g != q) wrong("the parameters of a request as a whole", g, q); UR(g = o.r->getBody()); if (g != q) wrong("the body of a request", g, q); UR(g = o.r->getHost()); if (g != "x") wrong("the host of a request", g, "x"); }
  { size_t z; UR(z = o.r->getValueList().size()); if (z != vals.size()) sim::violate("carried-over", "a request of %zu parameters has %zu", vals.size(), z); }
  for (auto &n : o.files) { std::string d, nm, ty; UR(d = o.r->getFile(n); nm = o.r->getFileName(n); ty = o.r->getFileType(n)); auto i = files.find(n); Fl f; if (i != files.end()) f = i->second; if (d != f.data || nm != f.name || ty != f.type) sim::violate(cls(i != files.end()), "file %s of a request is '%s' (%zu bytes, %s), expected '%s' (%zu bytes, %s)", n.c_str(), nm.c_str(), d.size(), ty.c_str(), f.name.c_str(), f.data.size(), f.type.c_str()); }
  sim::state_mark(1u << 20 | kind | vals.size() << 4 | heads.size() << 8 | cks.size() << 12 | std::min(o.used, 5) << 16);
}
// ---------------------------------------------------------------- packages of values
struct Node { int t; int64_t i; double d; std::string s; std::vector<Node> v; std::map<std::string, Node> m; };
// text with everything JSON has to escape
std::string text(int n) { std::string s; while (n-- > 0) switch (sim::pick(W, {6, 1, 1, 1})) { case 0: s += (char)(32 + sim::draw(W, 95)); break; case 1: s += "\"\\/\b\f\n\r\t"[sim::draw(W, 8)]; break; case 2: s += (char)(1 + sim::draw(W, 31)); break; default: s += "\xe4\xbd\xa0"; } return s; }
Node tree(int depth, bool plain = false) { Node n; n.t = sim::pick(W, {3, 3, depth > 0 ? 2u : 0u, depth > 0 ? 2u : 0u, 1, 1}); n.i = 0; n.d = 0; switch (n.t) { case 0: { static const int64_t e[] = {0, 1, 127, 128, 255, 256, 65535, 65536, 4294967295ll, 4294967296ll, -1, -128, -129, -40000, INT64_MAX, INT64_MIN, INT64_MIN + 1, -1234567890123456789ll}; n.i = sim::chance(W, 1, 2) ? e[sim::draw(W, 18)] : sim::chance(W, 1, 3) ? (int64_t)((uint64_t)sim::draw(W, 0xffffffffu) << 32 | sim::draw(W, 0xffffffffu)) : (int64_t)sim::draw(W, 1000000); break; } case 1: n.s = plain ? text(sim::draw(W, 20)) : bytes(sim::pick(W, {5, 1}) ? 250 + sim::draw(W, 20) : sim::draw(W, 20)); break; case 2: for (size_t k = 1 + sim::draw(W, 3); k--;) n.v.push_back(tree(depth - 1, plain)); break; case 3: for (size_t k = 1 + sim::draw(W, 3); k--;) n.m["k" + word(1 + sim::draw(W, 4))] = tree(depth - 1, plain); break; case 5: n.d = sim::chance(W, 1, 4) ? 1e10 * sim::draw(W, 1000) : (double)(int)sim::draw(W, 0xffffffffu) / 256; if (sim::chance(W, 1, 8)) n.d = -0.5 * sim::draw(W, 3); break; default: n.i = sim::draw(W, 2); } return n; }
CAnyValue build(const Node &n) { CAnyValue v; switch (n.t) { case 0: { CAnyValue x((long long)n.i); return x; } case 1: { CAnyValue x(std::string(n.s.data(), n.s.size())); return x; } case 2: for (auto &c : n.v) v.push_back(build(c)); return v; case 3: for (auto &c : n.m) v.insert(c.first, build(c.second)); return v; case 5: { CAnyValue x(n.d); return x; } default: { CAnyValue x(n.i != 0); return x; } } }
bool same(const CAnyValue &v, const Node &n) { switch (n.t) { case 0: return (long long)v == n.i; case 1: return v.data() ? std::string(v.data(), v.size()) == n.s : n.s.empty(); case 2: if (v.size() != n.v.size()) return false; for (size_t i = 0; i < n.v.size(); i++) if (!same(v[(int)i], n.v[i])) return false; return true; case 3: if (v.size() != n.m.size()) return false; for (auto &c : n.m) if (!same(v[c.first], c.second)) return false; return true; case 5: return (double)v == n.d; default: return (bool)v == (n.i != 0); } }
// every field of a package's head
struct Hd { uint8_t stx; uint16_t ver; uint32_t sid, cmd, seq, fmt, ip, err, flag; uint64_t uid; };
uint32_t r32() { static const uint32_t e[] = {0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x01020304}; return sim::chance(W, 1, 3) ? e[sim::draw(W, 10)] : (uint32_t)sim::draw(W, 0xffffffffu); }
Hd hdr() { Hd h; h.stx = sim::chance(W, 1, 2) ? 2 : sim::draw(W, 256); h.ver = r32(); h.sid = r32(); h.cmd = r32(); h.seq = r32(); h.fmt = r32(); h.ip = r32(); h.err = r32(); h.flag = r32(); h.uid = (uint64_t)r32() << 32 | r32(); return h; }
void put(AnyHeader &a, const Hd &h) { a.setStx(h.stx); a.setVersion(h.ver); a.setServiceId(h.sid); a.setCmd(h.cmd); a.setSeq(h.seq); a.setFormat(h.fmt); a.setUid(h.uid); a.setClientIp(h.ip); a.setErrno(h.err); a.setFlag(h.flag); }
void check(AnyHeader &a, const Hd &h, uint32_t len) {
  struct { const char *n; uint64_t g, w; } f[11]; { sim::User u; f[0] = {"start mark", a.getStx(), h.stx}; f[1] = {"version", a.getVersion(), h.ver}; f[2] = {"service", a.getServiceId(), h.sid}; f[3] = {"command", a.getCmd(), h.cmd}; f[4] = {"sequence number", a.getSeq(), h.seq}; f[5] = {"format", a.getFormat(), h.fmt}; f[6] = {"user", a.getUid(), h.uid}; f[7] = {"client address", a.getClientIp(), h.ip}; f[8] = {"error number", a.getErrno(), h.err}; f[9] = {"flag", a.getFlag(), h.flag}; f[10] = {"length", a.getLen(), len}; }
  for (auto &x : f) if (x.g != x.w) sim::violate("result-wrong", "the %s %llu of a package's head is read as %llu", x.n, (unsigned long long)x.w, (unsigned long long)x.g);
}
struct Pk { CAnyPackage *enc, *dec; std::set<std::string> keys; int used; };
void package(Pk &o, const CAnyValue *shared, const Node *sn) {
  std::map<std::string, Node> m; for (size_t i = 1 + sim::draw(W, 4); i--;) m["p" + word(1)] = tree(2); uint32_t seq = sim::draw(W, 1u << 31); bool json = sim::chance(W, 1, 4); if (json) { m.clear(); for (size_t i = 1 + sim::draw(W, 3); i--;) m["p" + word(1)] = tree(2, true); } bool cp = shared && !json && sim::chance(W, 1, 2); if (cp) m["p-shared"] = *sn; std::string wire; bool ok = true; Hd h = hdr(); h.seq = seq;
  bool fresh = !o.dec || sim::chance(W, 1, 4); if (fresh) { UR(delete o.dec; o.dec = new CAnyPackage); o.keys.clear(); o.used = 0; } if (o.used++) sim::probe("package_reused");
  { sim::User u; CAnyPackage e; put(e.head(), h); for (auto &x : m) if (cp && x.first == "p-shared") { CAnyValue c(*shared); e[x.first] = c; } else e[x.first] = build(x.second); if (json) e.encodeJSON(); else e.encode(); e.head().setLen(e.size()); { sim::Kern k; wire.assign(e.data(), e.size()); } try { if (json) o.dec->decodeJSON(wire.data(), wire.size()); else o.dec->decode(wire.data(), wire.size()); } catch (std::exception &) { ok = false; } }
  if (!ok) sim::violate("result-wrong", "a package of %zu bytes could not be decoded", wire.size()); check(o.dec->head(), h, (uint32_t)wire.size());
  for (auto &x : m) o.keys.insert(x.first); const CAnyPackage &d = *o.dec;
  for (auto &n : o.keys) { bool has; UR(has = o.dec->hasKey(n)); auto i = m.find(n); if (has != (i != m.end())) sim::violate(has ? "carried-over" : "result-wrong", "a decoded package %s the entry %s", has ? "has" : "lacks", n.c_str()); if (i != m.end()) { bool eq; UR(eq = same(d[n], i->second)); if (!eq) sim::violate("result-wrong", "entry %s of a decoded package differs from what was encoded", n.c_str()); } else { size_t z; UR(z = d[n].size()); if (z) sim::violate("carried-over", "an entry that does not exist has a value"); } }
  if (shared) { bool eq; UR(eq = same(*shared, *sn)); if (!eq) sim::violate("result-wrong", "a value read by several threads changed"); }
  sim::state_mark(2u << 20 | m.size() | std::min(o.used, 5) << 8 | cp << 12);
}
// ---------------------------------------------------------------- binary packages
typedef CPackage<AnyHeader> Bin;
struct Bp { Bin *enc, *dec; int used; };
struct Item { int t; uint64_t v; std::string s; size_t pos; };
void binary(Bp &o) {
  if (!o.enc || sim::chance(W, 1, 4)) { UR(delete o.enc; delete o.dec; o.enc = new Bin; o.dec = new Bin); o.used = 0; } if (o.used++) sim::probe("binary_reused");
  Hd h = hdr(); bool whole = sim::chance(W, 1, 2); std::vector<Item> it; int n = sim::draw(W, 8); for (int i = 0; i < n; i++) { Item x; x.t = sim::draw(W, 13); x.v = (uint64_t)r32() << 32 | r32(); x.pos = 0; if (x.t >= 8) x.s = x.t == 11 ? word(sim::draw(W, 20)) : bytes(sim::pick(W, {5, 1}) ? (x.t == 8 ? 150 + sim::draw(W, 106) : 250 + sim::draw(W, 200)) : sim::draw(W, 20)); it.push_back(x); }
  std::string want, wire; auto be = [&](uint64_t v, int k) { std::string s; while (k--) s += (char)(v >> 8 * k); return s; };
  { sim::User u; Bin &e = *o.enc; if (whole) e.clear(); else e.clearBody(); put(e.head(), h); for (auto &x : it) { bool op = x.v & 16; switch (x.t) {
      case 0: if (op) e.write((char)x.v); else e.write((unsigned char)x.v); break; case 1: if (op) e << (unsigned short)x.v; else x.pos = e.write((unsigned short)x.v); break; case 2: if (op) e << (short)x.v; else e.write((short)x.v); break; case 3: if (op) e << (unsigned int)x.v; else x.pos = e.write((unsigned int)x.v); break;
      case 4: if (op) e << (int)x.v; else e.write((int)x.v); break; case 5: if (op) e << (unsigned long long)x.v; else x.pos = e.write((unsigned long long)x.v); break; case 6: if (op) e << (long long)x.v; else e.write((long long)x.v); break; case 7: if (op) e << (unsigned long)x.v; else e.write((long)x.v); break;
      case 8: e.write((unsigned char)x.s.size()); e.write(x.s.data(), x.s.size()); break; case 9: e << (unsigned short)x.s.size(); e << x.s; break; case 10: e.write((unsigned int)x.s.size()); e.write((const unsigned char *)x.s.data(), x.s.size()); break; case 11: e << x.s.c_str(); e.write((char)0); break; default: e.write(x.s.data(), x.s.size()); } }
    for (auto &x : it) if (x.pos && x.v & 32) { x.v = ~x.v; if (x.t == 1) e.writePos((unsigned short)x.v, x.pos); else if (x.t == 3) e.writePos((unsigned int)x.v, x.pos); else e.writePos((unsigned long long)x.v, x.pos); }
    e.head().setLen(e.size()); sim::Kern k; wire.assign(e.data(), e.size()); }
  for (auto &x : it) switch (x.t) { case 0: want += be(x.v, 1); break; case 1: case 2: want += be(x.v, 2); break; case 3: case 4: want += be(x.v, 4); break; case 5: case 6: case 7: want += be(x.v, 8); break; case 8: want += be(x.s.size(), 1) + x.s; break; case 9: want += be(x.s.size(), 2) + x.s; break; case 10: want += be(x.s.size(), 4) + x.s; break; case 11: want += x.s + std::string(1, 0); break; default: want += x.s; }
  if (wire.size() != sizeof(AnyHeader) + want.size() || wire.substr(sizeof(AnyHeader)) != want) sim::violate(wire.size() > sizeof(AnyHeader) + want.size() ? "carried-over" : "result-wrong", "a binary package of %zu bytes of values has %zd bytes of body, or other ones", want.size(), (ssize_t)wire.size() - (ssize_t)sizeof(AnyHeader));
  bool thrown = false, viaPtr = sim::chance(W, 1, 2), viaCopy = sim::chance(W, 1, 4); int bad = -1; { sim::User u; if (viaPtr) o.dec->setPkgData(wire.data(), (int)wire.size()); else o.dec->setPkgData(string(wire.data(), wire.size())); Bin cp(*o.dec); Bin &d = viaCopy ? cp : *o.dec; int i = 0;
    try { for (auto &x : it) { string s; unsigned char c = 0; unsigned short w = 0; short sh = 0; unsigned int ui = 0; int si = 0; unsigned long long ull = 0; long long sll = 0; unsigned long ul = 0; bool ok = true; switch (x.t) {
      case 0: d >> c; ok = c == (unsigned char)x.v; break; case 1: d >> w; ok = w == (unsigned short)x.v; break; case 2: d >> sh; ok = sh == (short)x.v; break; case 3: d >> ui; ok = ui == (unsigned int)x.v; break; case 4: d >> si; ok = si == (int)x.v; break; case 5: d >> ull; ok = ull == x.v; break; case 6: d >> sll; ok = sll == (long long)x.v; break; case 7: d >> ul; ok = ul == x.v; break;
      case 8: d.readString1(s); ok = x.s == std::string(s.data(), s.size()); break; case 9: d.readString2(s); ok = x.s == std::string(s.data(), s.size()); break; case 10: d.readString4(s); ok = x.s == std::string(s.data(), s.size()); break; case 11: d.readString(s); ok = x.s == std::string(s.data(), s.size()); break; default: d.read(s, (int)x.s.size()); ok = x.s == std::string(s.data(), s.size()); }
      if (!ok && bad < 0) bad = i; i++; } } catch (std::exception &) { bad = i; }
    try { unsigned char c; d >> c; } catch (std::exception &) { thrown = true; } }
  if (bad >= 0) sim::violate("result-wrong", "value %d of %d (kind %d) of a binary package is read differently", bad, n, it[bad].t); if (!thrown) sim::violate("result-wrong", "reading beyond the end of a binary package is not refused"); check(o.dec->head(), h, (uint32_t)wire.size());
  sim::state_mark(3u << 20 | n | std::min(o.used, 5) << 8);
}
void helpers() {
  switch (sim::draw(W, 4)) {
  case 0: { time_t t = some_time(); std::string s; UR(s = GetGMTDate(t)); if (s != gmt(t)) wrong("GetGMTDate", s, gmt(t)); break; }
  case 1: { int64_t t0 = sim::wall_us() / 1000000; std::string s; UR(s = GetTimeString()); int64_t t1 = sim::wall_us() / 1000000; bool hit = false; for (int64_t t = t0; t <= t1; t++) { struct tm tm; time_t x = t; gmtime_r(&x, &tm); char b[40]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); if (s == b) hit = true; } if (!hit) wrong("GetTimeString", s, "the current time"); break; }
  case 2: { uint32_t ip = sim::draw(W, 0xffffffff); char b[20]; snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255); std::string s; UR(s = InetNtoA(ip)); if (s != b) wrong("InetNtoA", s, b); break; }
  default: { std::string x = bytes(sim::draw(W, 30)), e, s, t; urlenc(e, x); UR(s = FormUrlEncode(x); t = FormUrlDecode(s)); if (s != e) wrong("FormUrlEncode", s, e); if (t != x) wrong("FormUrlDecode", t, x); } }
}
void run(int nt) {
  sim::default_schedule(); if (sim::chance(S, 1, 2)) sim::set_preempt(2 + sim::draw(S, 40)); if (sim::chance(W, 1, 6)) sim::fault_rate(sim::FT_thread_stall, 1, 300); sim::set_wall(1700000000 + sim::draw(W, 40000000)); if (sim::chance(W, 1, 4)) sim::fault_rate(sim::FT_clock_align, 1, 3);
  g_left = nt; bool warm = false; Node *sn = new Node(tree(2)); CAnyValue *sh = nullptr; if (sim::chance(W, 1, 2)) UR(sh = new CAnyValue(build(*sn))); { Wr w = {nullptr, 0}; Rd r; r.r = nullptr; r.used = 0; Pk p; p.enc = p.dec = nullptr; p.used = 0; Bp bp = {nullptr, nullptr, 0}; if (sim::chance(W, 1, 2)) { response(w); request(r, 2); package(p, sh, sn); binary(bp); helpers(); warm = true; } UR(delete w.w; delete r.r; delete p.dec; delete bp.enc; delete bp.dec); } uint64_t mark = sim::heap_mark(); int mix = sim::draw(W, 6);
  for (int t = 0; t < nt; t++) sim::spawn("user", [=] {
    Wr w = {nullptr, 0}; Rd r; r.r = nullptr; r.used = 0; Pk p; p.enc = p.dec = nullptr; p.used = 0; Bp bp = {nullptr, nullptr, 0}; int n = 1 + sim::draw(W, nt == 1 ? 12 : 5);
    while (n-- > 0) { int k = mix < 5 && sim::chance(W, 2, 3) ? mix : sim::draw(W, 5); switch (k) { case 0: response(w); break; case 1: request(r); break; case 2: package(p, sh, sn); break; case 3: binary(bp); break; default: helpers(); } g_ops++; sim::op_done(); }
    UR(delete w.w; delete r.r; delete p.dec; delete bp.enc; delete bp.dec); g_left--;
  });
  if (!sim::block([] { return g_left == 0; }, in(600 * SEC))) sim::violate("no-progress", "a message was not finished");
  uint64_t b = 0, lv = sim::heap_live_since(mark, &b); if (lv && warm) sim::violate("memory-leak", "%llu blocks (%llu bytes) are held after every message object was destroyed: %s", (unsigned long long)lv, (unsigned long long)b, sim::heap_describe_live(mark, 4).c_str());
}
}
SCENARIO("C26", threads, 3) { run(2 + sim::draw(W, 3)); }
SCENARIO("C26", reuse, 1) { run(1); }
