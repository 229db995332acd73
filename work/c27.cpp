// C27: loading configuration files while reads fail, come in pieces, and files are replaced or missing.
#include "common.h"
#include "CConfig.h"
using namespace lce;
namespace {
typedef std::map<std::string, std::map<std::string, std::string>> Vals;
std::string word(int n) { std::string s; static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./,:"; while (n-- > 0) s += al[sim::draw(W, 69)]; return s; }
std::string blank() { std::string s; for (int n = sim::pick(W, {3, 1}) ? sim::draw(W, 4) : 0; n-- > 0;) s += sim::chance(W, 1, 3) ? '\t' : ' '; return s; }
// writes a file and what it must mean
std::string make(Vals &v) {
  std::string f; bool crlf = sim::chance(W, 1, 3), huge = sim::chance(W, 1, 8); const char *nl = crlf ? "\r\n" : "\n"; int ns = 1 + sim::draw(W, 3);
  for (int s = 0; s < ns; s++) {
    std::string app = "s" + std::to_string(sim::draw(W, 4)); f += blank() + "[" + blank() + app + blank() + "]" + blank() + nl;
    for (int k = sim::draw(W, huge ? 60 : 6); k-- > 0;) {
      switch (sim::pick(W, {16, 2, 2, 1, 1})) { case 3: f += blank() + nl; continue; case 4: f += blank() + "n" + std::to_string(sim::draw(W, 8)) + blank() + nl; sim::probe("line_without_value"); continue; case 1: f += blank() + (sim::chance(W, 1, 2) ? "#" : ";") + word(sim::draw(W, 30)) + "=" + word(3) + nl; continue; case 2: f += nl; continue; }
      std::string n = "n" + std::to_string(sim::draw(W, 8)), x; switch (sim::draw(W, 5)) { case 0: x = std::to_string(sim::draw(W, 70000)); break; case 1: x = "-" + std::to_string(sim::draw(W, 70000)); break; case 2: { char b[40]; snprintf(b, sizeof b, "%u.%u.%u.%u:%u", 10 + sim::draw(W, 200), sim::draw(W, 256), sim::draw(W, 256), sim::draw(W, 256), 1 + sim::draw(W, 65535)); x = b; while (sim::chance(W, 1, 3)) { snprintf(b, sizeof b, "|%u.%u.%u.%u:%u", 10 + sim::draw(W, 200), sim::draw(W, 256), sim::draw(W, 256), sim::draw(W, 256), 1 + sim::draw(W, 65535)); x += b; } break; } case 3: x = std::to_string(sim::draw(W, 1u << 31)); break; default: x = word(1 + sim::draw(W, huge ? 3000 : 30)); if (sim::chance(W, 1, 3)) x += " = " + word(4); } if (sim::chance(W, 1, 12)) x.clear();
      f += blank() + n + blank() + "=" + blank() + x + blank() + nl; v[app][n] = x;
    }
  }
  if (sim::chance(W, 1, 4) && !f.empty() && f.back() == '\n') { f.pop_back(); if (crlf) f.pop_back(); sim::probe("no_newline_at_end"); }
  return f;
}
std::string get(CConfig *c, const std::string &a, const std::string &n) { std::string g; { sim::User u; std::string v; c->getValue(a, n, v, "(none)"); sim::Kern k; g = v; } return g; }
void typed(CConfig *c, const std::string &a, const std::string &n, const std::string &x) {
  long l = atol(x.c_str()); int i; unsigned u; long g; unsigned short w; unsigned char ch; unsigned long ul; bool b; { sim::User us; c->getValue(a, n, i, 77); c->getValue(a, n, u, 77u); c->getValue(a, n, g, 77l); c->getValue(a, n, w, (unsigned short)77); c->getValue(a, n, ch, (unsigned char)77); c->getValue(a, n, ul, 77ul); c->getValue(a, n, b, true); }
  if (i != (int)l || u != (unsigned)l || g != l || w != (unsigned short)l || ch != (unsigned char)l || ul != (unsigned long)l || b != (l != 0)) sim::violate("value-wrong", "%s.%s = '%s' read as %d, %u, %ld, %u, %u, %lu, %d", a.c_str(), n.c_str(), x.substr(0, 40).c_str(), i, u, g, w, ch, ul, b);
  unsigned x1, x2, x3, x4, p; char e; if (sscanf(x.c_str(), "%3u.%3u.%3u.%3u:%5u%c", &x1, &x2, &x3, &x4, &p, &e) == 5 && x.size() >= 10) { bool ok; std::string ip; unsigned short po; UR(ok = c->getIPAndPort(a, n, ip, po, "1.1.1.1", 1)); if (!ok || ip != x.substr(0, x.find(':')) || po != p) sim::violate("value-wrong", "%s.%s = '%s' read as address %s port %u", a.c_str(), n.c_str(), x.c_str(), ip.c_str(), po); }
  else if (x.size() < 7 || x.find(':') == std::string::npos) { bool ok; std::string ip; unsigned short po; UR(ok = c->getIPAndPort(a, n, ip, po, "1.1.1.1", 1)); if (ok || ip != "1.1.1.1" || po != 1) sim::violate("value-wrong", "%s.%s = '%s' is no address and read as address %s port %u", a.c_str(), n.c_str(), x.substr(0, 40).c_str(), ip.c_str(), po); }
  if (x.find('|') != std::string::npos) { std::vector<std::pair<std::string, unsigned short>> want; size_t q = 0; while (q < x.size()) { size_t e = std::min(x.find('|', q), x.size()), k = x.find(':', q); want.push_back({x.substr(q, k - q), (unsigned short)atoi(x.c_str() + k + 1)}); q = e + 1; }
    bool ok, eq; { sim::User us; std::vector<std::pair<std::string, unsigned short>> l; l.push_back({"9.9.9.9", 9}); ok = c->getIPAndPortList(a, n, l, "1.1.1.1", 1); eq = l == want; } if (!ok || !eq) sim::violate("value-wrong", "%s.%s = '%s' read as another list of addresses", a.c_str(), n.c_str(), x.c_str()); sim::probe("address_list"); }
}
void absent(CConfig *c, const std::string &a, const std::string &n) { // every kind of value has its default
  int i; unsigned u; long g; unsigned short w; unsigned char ch; unsigned long ul; bool b, e; std::string s; { sim::User us; c->getValue(a, n, i, -7); c->getValue(a, n, u, 78u); c->getValue(a, n, g, 79l); c->getValue(a, n, w, (unsigned short)80); c->getValue(a, n, ch, (unsigned char)81); c->getValue(a, n, ul, 82ul); c->getValue(a, n, b, true); c->getValue(a, n, e); c->getValue(a, n, s); }
  if (i != -7 || u != 78 || g != 79 || w != 80 || ch != 81 || ul != 82 || !b || e || !s.empty()) sim::violate("value-wrong", "%s.%s is not in the file and is read as %d, %u, %ld, %u, %u, %lu, %d, %d", a.c_str(), n.c_str(), i, u, g, w, ch, ul, b, e);
}
void load(bool faulty) {
  sim::default_schedule(); if (faulty) { using namespace sim; fault_swarm({FT_read_eio, FT_read_open_fail}, 4); } if (sim::chance(W, 1, 2)) sim::fault_rate(sim::FT_read_short, 1, 2);
  auto bad = [] { return sim::faults_fired(sim::FT_read_eio) + sim::faults_fired(sim::FT_read_open_fail); };
  CConfig *c; UR(c = new CConfig); Vals prev; bool had = false; int n = 1 + sim::draw(W, 4), fds = sim::fds_open();
  for (int i = 0; i < n; i++) {
    Vals v, v2; std::string path = "etc/app.cfg", f = make(v), f2 = make(v2); bool missing = sim::chance(W, 1, 8), swap = !missing && sim::chance(W, 1, 4); if (missing) sim::fs_delete(path); else { sim::fs_delete(path); sim::fs_write(path, f); }
    if (i && sim::chance(W, 1, 2)) { UR(delete c; c = new CConfig); had = false; prev.clear(); } else if (i) sim::probe("loaded_again");
    uint64_t b0 = bad(); bool ok, *done = new bool(false), *swapped = new bool(false); if (swap) sim::spawn("editor", [=] { for (int k = sim::draw(W, 12); k--;) sim::yield(); if (!*done) { sim::fs_delete(path); sim::fs_write(path, f2); *swapped = true; } });
    UR(ok = c->loadConfig(path)); *done = true; uint64_t b = bad() - b0; sim::op_done(); sim::ev("load %zu bytes -> %d (%llu faults)", f.size(), ok, (unsigned long long)b); if (*swapped) sim::probe("replaced_while_loading");
    if (ok && missing) sim::violate("false-success", "loading a file that does not exist succeeded");
    if (ok && b) sim::violate("false-success", "loading succeeded although a read failed");
    if (!ok && !b && !missing && !*swapped) sim::violate("false-failure", "loading failed although nothing went wrong: %s", c->getErrMsg());
    if (sim::fds_open() != fds) sim::violate("fd-leak", "loading left a descriptor open");
    auto agrees = [&](Vals &x, bool report) { for (auto &a : x) for (auto &p : a.second) { std::string g = get(c, a.first, p.first); if (g != p.second) { if (report) sim::violate("value-wrong", "%s.%s is '%s' in a file of %zu bytes and '%s' after loading", a.first.c_str(), p.first.c_str(), p.second.substr(0, 60).c_str(), f.size(), g.substr(0, 60).c_str()); return false; } } return true; };
    if (ok) { // the file as it was at one moment
      bool second = *swapped && !agrees(v, false); if (second) v = v2; agrees(v, true); sim::probe("loaded");
      for (auto &a : v) for (auto &p : a.second) typed(c, a.first, p.first, p.second);
      if (!had) for (int s = 0; s < 5; s++) for (int k = 0; k < 9; k++) { std::string a = "s" + std::to_string(s), m = "n" + std::to_string(k); if (v.count(a) && v[a].count(m)) continue; std::string g = get(c, a, m); if (sim::chance(W, 1, 8)) { bool r, r2, eq; { sim::User us; std::string ip; unsigned short po; std::vector<std::pair<std::string, unsigned short>> l; r = c->getIPAndPort(a, m, ip, po, "7.7.7.7", 7); r2 = c->getIPAndPortList(a, m, l, "8.8.8.8", 8); eq = ip == "7.7.7.7" && po == 7 && l.size() == 1 && l[0].first == "8.8.8.8" && l[0].second == 8; } if ((r || r2 || !eq) && !*swapped) sim::violate("value-wrong", "%s.%s is not in the file and is an address", a.c_str(), m.c_str()); } if (!*swapped && sim::chance(W, 1, 6)) absent(c, a, m); if (g != "(none)" && !*swapped) sim::violate("value-wrong", "%s.%s is not in the file and is '%s'", a.c_str(), m.c_str(), g.substr(0, 40).c_str()); }
    } else { sim::probe("failed"); // what is there now comes from one of the files
      for (int s = 0; s < 5; s++) for (int k = 0; k < 9; k++) { std::string a = "s" + std::to_string(s), m = "n" + std::to_string(k), g = get(c, a, m); if (g == "(none)") continue; bool known = f.find(g) != std::string::npos || f2.find(g) != std::string::npos || prev[a][m] == g; if (!known) sim::violate("value-wrong", "after a failed load %s.%s is '%s', which no file says", a.c_str(), m.c_str(), g.substr(0, 40).c_str()); } }
    for (int s = 0; s < 5; s++) for (int k = 0; k < 9; k++) { std::string a = "s" + std::to_string(s), m = "n" + std::to_string(k); prev[a][m] = get(c, a, m); }
    had = true; sim::state_mark(ok + 2 * missing + 4 * *swapped + 8 * std::min<size_t>(f.size() / 64, 200) + 4096 * std::min<uint64_t>(b, 3) + 16384 * i);
  }
  UR(delete c);
}
}
SCENARIO("C27", plain, 1) { load(false); }
SCENARIO("C27", faults, 2) { load(true); }
