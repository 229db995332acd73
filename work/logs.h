#ifndef WORK_LOGS_H
#define WORK_LOGS_H
// Lines written to a file log by several threads, and what its files must then contain.
#include "common.h"
#include <time.h>
namespace logs {
enum { RAW, STR, FMT };
struct Rec { int id, thread, kind; std::string text, pfx; bool ok, open, durable; uint64_t start, end; ns_t start_ns, end_ns; int64_t lo, hi; uint64_t f0; };
struct Log {
  std::string base = "logs/app"; unsigned n = 5; unsigned long max = 1000; std::deque<Rec> recs; uint64_t manual = 0; bool show = false;
  size_t longest = 0, chunk = 0 /*what the asynchronous log writes at once at most*/; bool raw_only = false;
  // events after which a line may be lost or cut: failing disk calls and deaths of the process (a short write is not one)
  uint64_t faults() const { using namespace sim; return manual + faults_fired(FT_disk_enospc) + faults_fired(FT_disk_eio) + faults_fired(FT_open_fail) + faults_fired(FT_rename_fail) + faults_fired(FT_remove_fail); }
  bool off = false;
  void disk(bool ok) { manual++; off = !ok; sim::fs_writable(ok); }
};
static inline void jump(Log *g, int64_t d_sec) {
  int64_t a = sim::wall_us(); sim::clock_jump(d_sec * 1000000000ll); int64_t b = sim::wall_us();
  for (auto &r : g->recs) if (r.open) { r.lo = std::min(r.lo, std::min(a, b)); r.hi = std::max(r.hi, std::max(a, b)); }
}
static inline std::string mktext(Log *g, int id, int kind) {
  char b[40]; snprintf(b, sizeof b, "#%d#", id); std::string s = b; size_t n;
  switch (sim::pick(W, {6, 4, 1})) { case 0: n = sim::draw(W, 20); break; case 1: n = sim::draw(W, 300); break; default: n = sim::draw(W, kind == FMT ? 9000 : 12000); }
  while (s.size() < n + 4) { s += "abcdefghijklmnopqrstuvwxyz%d %s %"[(id * 7 + s.size()) % 33]; }
  (void)g; return s;
}
static inline Rec &begin(Log *g, int thread, int kind, const std::string *fixed = nullptr) {
  g->recs.push_back(Rec()); Rec &r = g->recs.back(); r.id = g->recs.size(); r.thread = thread; r.kind = kind; r.text = fixed ? *fixed : mktext(g, r.id, kind); r.ok = r.durable = false; r.open = true; r.start = sim::step(); r.end = ~0ull; r.start_ns = sim::now(); r.lo = r.hi = sim::wall_us(); r.f0 = g->off ? ~0ull : g->faults(); // ~0: the disk is failing already
  g->longest = std::max(g->longest, r.text.size() + 24); return r;
}
static inline void end(Rec &r, bool ok) { r.ok = ok; r.open = false; r.end = sim::step(); r.end_ns = sim::now(); int64_t w = sim::wall_us(); r.lo = std::min(r.lo, w); r.hi = std::max(r.hi, w); sim::op_done(); }
static inline long days(int y, int m, int d) { y -= m <= 2; long era = y / 400; unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long)doe - 719468; }
// a thread of the application that formats other dates meanwhile
static inline void other_dates(int k) { sim::spawn("application", [=] { for (int i = 0; i < k; i++) { time_t t = sim::draw(W, 2000000000); { sim::User u; struct tm *p = gmtime(&t); (void)p; } sim::sleep_for(sim::draw(W, 200) * US); } }); }
// the time written in front of a line, -1 if it is none
static inline int64_t stamp(const std::string &s) { int y, mo, d, h, mi, se, n = 0; if (s.size() != 19 || sscanf(s.c_str(), "%4d-%2d-%2d %2d:%2d:%2d%n", &y, &mo, &d, &h, &mi, &se, &n) != 6 || n != 19) return -1; if (mo < 1 || mo > 12 || d < 1 || d > 31) return -1; return days(y, mo, d) * 86400ll + h * 3600 + mi * 60 + se; }
static inline std::string dstr(long day) { time_t t = day * 86400ll; struct tm tm; gmtime_r(&t, &tm); char b[40]; snprintf(b, sizeof b, "%04d-%02d-%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday); return b; }
struct Found { int id; long day; size_t file; bool clean; };
struct Scan { std::vector<Found> order; std::map<int, std::vector<size_t>> where; size_t fragments = 0, tail_cut = 0; /*tail_cut: the newest file ends within a line*/ std::string fragment; std::map<long, std::vector<size_t>> sizes; /*day -> sizes, oldest first, base last*/ };
static inline Scan scan(Log *g) {
  Scan sc; std::map<long, std::map<int, std::string>> fs; // day -> -index -> path
  for (auto &p : sim::fs_list(g->base + "_")) {
    std::string t = p.substr(g->base.size() + 1); int idx = 0; if (t.size() < 14 || t.compare(t.size() - 4, 4, ".log")) sim::violate("file-name", "the log made a file called %s", p.c_str());
    t.resize(t.size() - 4); if (t.size() > 10) { char *e; idx = strtol(t.c_str() + 11, &e, 10); if (t[10] != '_' || *e || idx <= 0 || t.size() > 13) sim::violate("file-name", "the log made a file called %s", p.c_str()); t.resize(10); }
    int64_t d = stamp(t + " 00:00:00"); if (d < 0) sim::violate("file-name", "the log made a file called %s", p.c_str());
    if ((unsigned)idx >= g->n) sim::violate("too-many-files", "%s exists although %u files are configured", p.c_str(), g->n);
    fs[d / 86400][-idx] = p; }
  for (auto &d : fs) for (auto &f : d.second) {
    std::string c = sim::fs_read(f.second); sc.sizes[d.first].push_back(c.size()); size_t o = 0;
    while (o < c.size()) {
      size_t e = c.find('\n', o); bool cut = e == std::string::npos; if (cut) e = c.size(); std::string l = c.substr(o, e - o); o = e + 1; if (l.empty() && !cut) { sc.fragments++; sc.fragment = "an empty line"; continue; }
      int id = 0; size_t h2 = l.rfind('#'), h1 = h2 ? l.rfind('#', h2 - 1) : std::string::npos; bool hit = false;
      if (!cut && h2 != std::string::npos && h1 != std::string::npos && (id = atoi(l.c_str() + h1 + 1)) > 0 && id <= (int)g->recs.size()) {
        Rec &r = g->recs[id - 1]; size_t st = r.kind == RAW ? 0 : r.kind == STR ? 21 : 22, pre = st + r.pfx.size();
        if (l.compare(h1, std::string::npos, r.text) == 0 && h1 >= pre) {
          int64_t t = 0; if (pre) { t = l[h1 - pre] == '[' && l.compare(h1 - pre + 20, pre - 20, (r.kind == STR ? "]" : "]:") + r.pfx) == 0 ? stamp(l.substr(h1 - pre + 1, 19)) : -1; }
          if (t >= 0) {
            hit = true; if (pre && (t < r.lo / 1000000 || (!r.open && t > r.hi / 1000000))) sim::violate("wrong-time", "line %d is stamped '%s' but was written between %lld and %lld", id, l.substr(h1 - pre + 1, 19).c_str(), (long long)r.lo / 1000000, (long long)r.hi / 1000000);
            bool clean = h1 == pre; if (!clean) { sc.fragments++; sc.fragment = l.substr(0, std::min<size_t>(h1 - pre, 60)); }
            sc.where[id].push_back(sc.order.size()); sc.order.push_back(Found{id, d.first, sc.sizes[d.first].size(), clean}); } } }
      if (!hit && cut && &d == &*fs.rbegin() && &f == &*d.second.rbegin()) { sc.tail_cut = 1; sc.fragment = l.substr(0, 80); } else if (!hit) { sc.fragments++; sc.fragment = l.substr(0, 80); }
    }
  }
  return sc;
}
static inline bool in_days(const Rec &r, long d) { return d >= r.lo / 86400000000ll && d <= r.hi / 86400000000ll; }
// rotated out: in one of its days everything older is gone too and files were discarded
static inline bool rotated_out(Log *g, Scan &sc, const Rec &m, bool faulty, bool per_thread, bool any_day, bool quiet = true) {
  if (!sim::fs_removed()) return false;
  for (auto &d : sc.sizes) {
    if (any_day ? d.first < m.lo / 86400000000ll : !in_days(m, d.first)) continue;
    if (!faulty && d.second.size() + (quiet ? 0 : 1) < g->n) continue; // one less in the middle of a rotation
    bool older = false; for (auto &f : sc.order) if (f.day == d.first) { Rec &r = g->recs[f.id - 1]; if (r.end < m.start && (!per_thread || r.thread == m.thread)) { older = true; break; } }
    if (!older) return true;
  }
  return false;
}
// sync: a successful write is in the files at once, in the file of its day, in the order of the calls
static inline void check(Log *g, bool sync, const char *when, bool quiet = true /*no write or flush is under way*/) {
  Scan sc = scan(g); bool faulty = g->faults() != 0;
  if ((sc.fragments || (sc.tail_cut && quiet)) && !faulty) sim::violate("line-broken", "%s: the files hold '%s', which is no line that was written (no disk error, no crash so far)", when, sc.fragment.c_str());
  for (auto &w : sc.where) {
    Rec &r = g->recs[w.first - 1];
    if (w.second.size() > 1) sim::violate(r.ok || r.open ? "line-duplicated" : "refused-line-repeated", "%s: line %d of thread %d is in the files %zu times", when, r.id, r.thread, w.second.size());
    if (!r.ok && !r.open && g->faults() == r.f0) sim::violate("refused-line-appears", "%s: line %d was refused but is in the files", when, r.id);
    long d = sc.order[w.second[0]].day;
    if (sync ? !in_days(r, d) && !r.open : d < r.lo / 86400000000ll) sim::violate("wrong-day", "%s: line %d, written on %s to %s, is in a file of %s", when, r.id, dstr(r.lo / 86400000000ll).c_str(), dstr(r.hi / 86400000000ll).c_str(), dstr(d).c_str());
  }
  std::map<std::pair<long, int>, uint64_t> seen; // order
  for (auto &f : sc.order) { Rec &r = g->recs[f.id - 1]; uint64_t &m = seen[std::make_pair(f.day, sync ? 0 : r.thread)]; if (r.end < m) sim::violate("order", "%s: line %d of thread %d follows a line that was written after it", when, r.id, r.thread); m = std::max(m, r.start); }
  for (auto &r : g->recs) {
    if (!r.ok || r.open || sc.where.count(r.id)) continue;
    if (!sync && !r.durable) continue;
    if (!rotated_out(g, sc, r, faulty, !sync, !sync, quiet)) sim::violate("line-lost", "%s: line %d of thread %d was %s but is not in the files", when, r.id, r.thread, sync ? "reported as written" : "flushed"); else sim::probe("line rotated out");
  }
  if (sync) for (auto &d : sc.sizes) for (size_t i = 0; i < d.second.size(); i++) {
    if (d.second[i] > g->max + g->longest * (faulty ? 2 : 1)) sim::violate("file-too-big", "%s: a file of %s has %zu bytes, the limit is %lu and the longest line %zu", when, dstr(d.first).c_str(), d.second[i], g->max, g->longest);
    if (!faulty && i + 1 < d.second.size() && d.second[i] < g->max) sim::violate("rotated-early", "%s: a file of %s was rotated at %zu of %lu bytes", when, dstr(d.first).c_str(), d.second[i], g->max); }
  if (!sync && g->chunk) for (auto &d : sc.sizes) for (size_t i = 0; i < d.second.size(); i++) {
    if (d.second[i] > g->max + g->chunk * (faulty ? 2 : 1)) sim::violate("file-too-big", "%s: a file of %s has %zu bytes, the limit is %lu and the log's buffer %zu", when, dstr(d.first).c_str(), d.second[i], g->max, g->chunk);
    if (!faulty && i + 1 < d.second.size() && d.second[i] < g->max) sim::violate("rotated-early", "%s: a file of %s was rotated at %zu of %lu bytes", when, dstr(d.first).c_str(), d.second[i], g->max); }
  size_t nf = 0; for (auto &d : sc.sizes) nf = std::max(nf, d.second.size());
  if (nf > 1) sim::probe("files rotated"); if (sc.sizes.size() > 1) sim::probe("files of several days"); if (sc.fragments) sim::probe("fragment left by a failed write");
  sim::state_mark(((nf * 16 + sc.sizes.size()) * 2 + faulty) * 64 + std::min<size_t>(63, sc.order.size()));
}
}
#endif
