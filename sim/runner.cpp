// Runs seeds, shrinks failures, writes and replays failure files.
#include "simk.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <signal.h>
#include <errno.h>
#include <unordered_set>
#include <set>
#include <algorithm>
#include <fstream>
#include <sstream>
using namespace sim;

typedef std::vector<uint32_t> Streams[NSTREAM];
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

// Every run is a child of the "zygote", a process forked before main() has done anything: no run can see what this
// program did before it (heap, lazily initialised library state), so a seed, a replay file and a re-run are the same run.
struct Request { uint32_t scenario; uint64_t seed; bool replay, traced; char trace[1024]; uint32_t n[NSTREAM]; uint32_t v[NSTREAM][MAXCH]; };
static Request *g_req;
static int g_to[2], g_from[2];
static void zygote() {
  char c;
  while (read(g_to[0], &c, 1) == 1) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int n = open("/dev/null", O_RDWR);
      if (!getenv("SIM_STDOUT")) dup2(n, 1);
      if (!getenv("SIM_STDERR")) dup2(n, 2);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      const uint32_t *st[NSTREAM]; for (int i = 0; i < NSTREAM; i++) st[i] = g_req->v[i];
      begin_run(g_req->seed, g_req->replay, st, g_req->n, g_req->traced ? g_req->trace : nullptr);
      run_scenario(scenarios()[g_req->scenario]);
      _exit(95);
    }
    int stt = -1;
    if (p > 0) while (waitpid(p, &stt, 0) < 0 && errno == EINTR) {}
    if (write(g_from[1], &stt, sizeof stt) != sizeof stt) _exit(0);
  }
  _exit(0);
}
static void start_zygote() {
  size_t n = sizeof(Result) + sizeof(Request) + 4096;
  char *m = (char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_res = (Result *)m; g_req = (Request *)(m + ((sizeof(Result) + 63) & ~63ull));
  if (pipe(g_to) || pipe(g_from)) { perror("pipe"); exit(2); }
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(g_to[1]); close(g_from[0]); zygote(); }
  close(g_to[0]); close(g_from[1]);
}
// One simulated run; results in g_res.
static void one_run(const Scenario &s, uint64_t seed, const Streams *st, const char *trace) {
  g_res->status = -1; g_res->msg[0] = g_res->cls[0] = g_res->where[0] = 0;
  g_req->scenario = &s - &scenarios()[0]; g_req->seed = seed; g_req->replay = st != nullptr;
  if (!trace) trace = getenv("SIM_TRACE");
  g_req->traced = trace != nullptr; if (trace) snprintf(g_req->trace, sizeof g_req->trace, "%s", trace);
  if (st) for (int i = 0; i < NSTREAM; i++) { size_t n = std::min<size_t>((*st)[i].size(), MAXCH); g_req->n[i] = n; if (n) memcpy(g_req->v[i], &(*st)[i][0], n * 4); }
  int stt = 0; char c = 'r';
  if (write(g_to[1], &c, 1) != 1 || read(g_from[0], &stt, sizeof stt) != sizeof stt) { fprintf(stderr, "zygote gone\n"); exit(2); }
  if (g_res->status == -1) {
    g_res->status = 3;
    snprintf(g_res->cls, sizeof g_res->cls, "abnormal-exit");
    snprintf(g_res->msg, sizeof g_res->msg, "child ended without a verdict, wait status 0x%x", stt);
  }
}
static void take_streams(Streams &o) { for (int i = 0; i < NSTREAM; i++) o[i].assign(g_res->ch[i], g_res->ch[i] + g_res->nch[i]); }

static std::string jesc(const std::string &s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static uint64_t total_choices(const Streams &s) { uint64_t n = 0; for (int i = 0; i < NSTREAM; i++) for (uint32_t v : s[i]) n += v ? 1 : 0; return n; }

struct Failure { std::string scenario, prop, cls, msg, where; uint64_t seed, hash; Streams st; uint64_t orig_choices, min_choices; int shrink_runs; bool deterministic, by_seed; /* more choices than are recorded: replayed from the seed */ };

// listed known findings: scenario, class and a substring of the message must all match
struct Known { std::string id, scenario, cls, sub; };
static std::vector<Known> g_known;
static const Known *known(const char *scenario) {
  for (auto &k : g_known) if ((k.scenario == "*" || k.scenario == scenario) && k.cls == g_res->cls && strstr(g_res->msg, k.sub.c_str())) return &k;
  return nullptr;
}
static bool same_failure(const Scenario &s, const char *cls) { return g_res->status == 1 && !strcmp(g_res->cls, cls) && !known(s.name); }

static int shrink(const Scenario &s, Failure &f, double deadline) {
  int runs = 0;
  Streams best; for (int i = 0; i < NSTREAM; i++) best[i] = f.st[i];
  auto attempt = [&](Streams &c) -> bool {
    runs++;
    one_run(s, f.seed, &c, nullptr);
    if (!same_failure(s, f.cls.c_str())) return false;
    take_streams(best); // normalised: only what was consumed
    for (int i = 0; i < NSTREAM; i++) while (!best[i].empty() && best[i].back() == 0) best[i].pop_back();
    return true;
  };
  auto timeup = [&] { return wall() > deadline || runs > 6000; };
  static const int order[] = {F, S, N, W};
  // whole streams to zero, then tails, then blocks, then single values
  bool progress = true; int rounds = 0;
  while (progress && !timeup() && rounds++ < 6) {
    progress = false;
    for (int oi = 0; oi < 4 && !timeup(); oi++) {
      int k = order[oi];
      // truncate tail (binary search)
      size_t n = best[k].size();
      if (n) { Streams c; for (int i = 0; i < NSTREAM; i++) c[i] = best[i]; c[k].clear(); if (attempt(c)) { progress = true; continue; } }
      for (size_t cut = n / 2; cut >= 1 && !timeup(); cut /= 2) {
        while (best[k].size() > cut && !timeup()) {
          Streams c; for (int i = 0; i < NSTREAM; i++) c[i] = best[i]; c[k].resize(best[k].size() - cut);
          size_t before = best[k].size();
          if (!attempt(c)) break;
          progress = true; if (best[k].size() >= before) break;
        }
      }
      // zero blocks
      for (size_t blk = std::max<size_t>(1, best[k].size() / 2); blk >= 1 && !timeup(); blk /= 2) {
        for (size_t o = 0; o < best[k].size() && !timeup(); o += blk) {
          Streams c; for (int i = 0; i < NSTREAM; i++) c[i] = best[i];
          bool any = false; for (size_t j = o; j < std::min(o + blk, c[k].size()); j++) if (c[k][j]) { c[k][j] = 0; any = true; }
          if (any && attempt(c)) progress = true;
        }
      }
      // delete blocks
      for (size_t blk = std::max<size_t>(1, best[k].size() / 2); blk >= 1 && !timeup(); blk /= 2) {
        for (size_t o = 0; o + blk <= best[k].size() && !timeup();) {
          Streams c; for (int i = 0; i < NSTREAM; i++) c[i] = best[i];
          c[k].erase(c[k].begin() + o, c[k].begin() + o + blk);
          uint64_t b0 = total_choices(best);
          Streams old; for (int i = 0; i < NSTREAM; i++) old[i] = best[i];
          if (attempt(c)) { if (total_choices(best) > b0) { for (int i = 0; i < NSTREAM; i++) best[i] = old[i]; o += blk; } else progress = true; }
          else o += blk;
        }
      }
      // reduce values
      if (best[k].size() < 400) for (size_t o = 0; o < best[k].size() && !timeup(); o++) {
        while (o < best[k].size() && best[k][o] > 1 && !timeup()) {
          Streams c; for (int i = 0; i < NSTREAM; i++) c[i] = best[i]; uint32_t v = c[k][o]; c[k][o] = v / 2;
          if (!attempt(c) || o >= best[k].size() || best[k][o] >= v) break;
        }
      }
    }
  }
  for (int i = 0; i < NSTREAM; i++) f.st[i] = best[i];
  return runs;
}

static void write_replay(const Failure &f, const std::string &path, const std::string &trace) {
  std::ofstream o(path);
  static const char *nm[] = {"workload", "schedule", "network", "faults"};
  o << "{\n \"format\": \"lce-sim-replay-1\",\n \"property\": \"" << f.prop << "\",\n \"scenario\": \"" << f.scenario << "\",\n \"seed\": " << f.seed
    << (f.by_seed ? ",\n \"replay_by_seed\": true" : "") << ",\n \"class\": \"" << jesc(f.cls) << "\",\n \"message\": \"" << jesc(f.msg) << "\",\n \"where\": \"" << jesc(f.where) << "\",\n \"hash\": \"" << f.hash
    << "\",\n \"choices_before_minimising\": " << f.orig_choices << ",\n \"choices_after\": " << f.min_choices << ",\n \"shrink_runs\": " << f.shrink_runs << ",\n \"streams\": {\n";
  for (int i = 0; i < NSTREAM; i++) { o << "  \"" << nm[i] << "\": ["; for (size_t j = 0; j < f.st[i].size(); j++) o << (j ? "," : "") << f.st[i][j]; o << "]" << (i + 1 < NSTREAM ? ",\n" : "\n"); }
  o << " },\n \"trace\": [\n";
  std::ifstream t(trace); std::string l; bool first = true; int n = 0; std::deque<std::string> lines;
  while (std::getline(t, l)) { lines.push_back(l); if (lines.size() > 600) { lines.pop_front(); n++; } }
  for (auto &x : lines) { o << (first ? "" : ",\n") << "  \"" << jesc(x) << "\""; first = false; }
  o << "\n ]\n}\n";
}

// tiny reader for our own replay files
static bool read_replay(const char *path, std::string &scen, std::string &prop, std::string &cls, std::string &hash, Streams &st, bool &by_seed, uint64_t &seed) {
  std::ifstream f(path); if (!f) return false;
  std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str();
  auto str = [&](const char *k) -> std::string { std::string key = std::string("\"") + k + "\": \""; size_t p = t.find(key); if (p == std::string::npos) return ""; p += key.size(); std::string r; while (p < t.size() && t[p] != '"') { if (t[p] == '\\') p++; r += t[p++]; } return r; };
  scen = str("scenario"); prop = str("property"); cls = str("class"); hash = str("hash"); by_seed = t.find("\"replay_by_seed\": true") != std::string::npos; size_t sp = t.find("\"seed\": "); seed = sp == std::string::npos ? 0 : strtoull(t.c_str() + sp + 8, nullptr, 10);
  static const char *nm[] = {"workload", "schedule", "network", "faults"};
  for (int i = 0; i < NSTREAM; i++) {
    std::string key = std::string("\"") + nm[i] + "\": ["; size_t p = t.find(key); if (p == std::string::npos) return false; p += key.size();
    st[i].clear();
    while (p < t.size() && t[p] != ']') { st[i].push_back(strtoul(t.c_str() + p, nullptr, 10)); while (p < t.size() && t[p] != ',' && t[p] != ']') p++; if (t[p] == ',') p++; }
  }
  return true;
}

int main(int argc, char **argv) {
  if (!getenv("SIM_NOREEXEC")) {
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  start_zygote();
  std::string cmd = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> o; std::vector<std::string> pos;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; i++; } else pos.push_back(a); }
  auto num = [&](const char *k, double d) { return o.count(k) ? atof(o[k].c_str()) : d; };
  if (cmd == "list") { for (auto &s : scenarios()) printf("%s %s %d\n", s.prop, s.name, s.weight); return 0; }
  if (cmd == "replay") {
    std::string scen, prop, cls, hash; Streams st; bool by_seed; uint64_t seed;
    if (pos.empty() || !read_replay(pos[0].c_str(), scen, prop, cls, hash, st, by_seed, seed)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    for (auto &s : scenarios()) if (s.name == scen) {
      std::string tr = o.count("trace") ? o["trace"] : "";
      one_run(s, by_seed ? seed : 0, by_seed ? nullptr : &st, tr.empty() ? nullptr : tr.c_str());
      char h[32]; snprintf(h, sizeof h, "%llu", (unsigned long long)g_res->hash);
      printf("replay scenario=%s status=%d class=%s hash=%s %s\n%s\nwhere %s\n", scen.c_str(), g_res->status, g_res->cls, h, hash == h ? "(identical)" : "(differs)", g_res->msg, g_res->where);
      if (g_res->status == 1 && cls == g_res->cls) return 1;
      return g_res->status == 0 ? 0 : 3;
    }
    fprintf(stderr, "unknown scenario\n"); return 2;
  }
  if (cmd == "seed") { // one seed, for debugging
    for (auto &s : scenarios()) if (s.name == o["scenario"]) {
      uint64_t seed = strtoull(o["seed"].c_str(), 0, 10);
      one_run(s, seed, nullptr, o.count("trace") ? o["trace"].c_str() : nullptr);
      printf("status=%d class=%s hash=%llu sim=%.6f acc=%llu sw=%llu sys=%llu ops=%llu\n%s\nwhere %s\n", g_res->status, g_res->cls, (unsigned long long)g_res->hash, g_res->sim_ns / 1e9, (unsigned long long)g_res->accesses, (unsigned long long)g_res->switches, (unsigned long long)g_res->syscalls, (unsigned long long)g_res->ops, g_res->msg, g_res->where);
      for (uint32_t i = 0; i < g_res->nprobe; i++) printf(" probe %s %llu\n", g_res->probes[i].name, (unsigned long long)g_res->probes[i].n);
      return g_res->status;
    }
    return 2;
  }
  if (cmd != "run") { fprintf(stderr, "usage: simrun list | run --prop P ... | replay FILE | seed --scenario S --seed N\n"); return 2; }

  std::vector<const Scenario *> sc, rare; std::vector<int> cum; int tot = 0;
  for (auto &s : scenarios()) if ((!o.count("prop") || o["prop"] == s.prop) && (!o.count("scenario") || o["scenario"] == s.name)) { if (!s.weight) { rare.push_back(&s); continue; } sc.push_back(&s); tot += s.weight; cum.push_back(tot); }
  if (sc.empty()) { sc = rare; rare.clear(); for (size_t i = 0; i < sc.size(); i++) cum.push_back(++tot); }
  if (sc.empty()) { fprintf(stderr, "no scenario\n"); return 2; }
  uint64_t base = strtoull(o.count("seed") ? o["seed"].c_str() : "1", 0, 10), maxruns = num("count", 1e12);
  uint64_t start = num("start", 0), stride = num("stride", 1);
  double tlimit = num("time", 10), t0 = wall(), shrink_time = num("shrink", 25);
  int maxfail = num("maxfail", 4); double slowest = 0; std::string slow_id; uint64_t max_acc = 0;
  std::string dir = o.count("dir") ? o["dir"] : ".";
  if (o.count("known")) { std::ifstream kf(o["known"]); std::string l; while (std::getline(kf, l)) { Known k; std::stringstream ss(l); std::getline(ss, k.id, '\t'); std::getline(ss, k.scenario, '\t'); std::getline(ss, k.cls, '\t'); std::getline(ss, k.sub); if (!k.sub.empty()) g_known.push_back(k); } }
  std::map<std::string, uint64_t> knowncount; std::map<std::string, std::string> knownmsg;
  uint64_t runs = 0, inconc = 0, redet = 0, redet_bad = 0, internal = 0; std::string internal_msg;
  uint64_t faults[NFAULT] = {0}, acc = 0, sw = 0, sys = 0, ops = 0, fib = 0, nontriv = 0; double simt = 0;
  std::map<std::string, uint64_t> probes, per_scen, incs; std::unordered_set<uint64_t> hashes, states;
  std::vector<Failure> fails; std::set<std::string> sigs; std::vector<std::string> samples;
  std::map<std::string, uint64_t> failcount;
  for (uint64_t i = start; runs < maxruns; i += stride) {
    if (wall() - t0 > tlimit) break;
    if ((runs & 15) == 0 && access((dir + "/STOP").c_str(), F_OK) == 0) break;
    uint64_t seed = base * 1000003ull + i; 
    uint64_t x = seed * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29;
    int r = x % tot; size_t k = 0; while (cum[k] <= r) k++;
    const Scenario &s = !rare.empty() && i % 100000 < rare.size() ? *rare[i % 100000] : *sc[k]; // scenarios of weight 0: long runs, made once in a while
    double w0 = wall(); one_run(s, seed, nullptr, nullptr); w0 = wall() - w0; if (w0 > slowest) { slowest = w0; slow_id = std::string(s.name) + " seed " + std::to_string(seed); }
    runs++; per_scen[s.name]++; max_acc = std::max<uint64_t>(max_acc, g_res->accesses);
    for (int j = 0; j < NFAULT; j++) faults[j] += g_res->faults[j];
    acc += g_res->accesses; sw += g_res->switches; sys += g_res->syscalls; ops += g_res->ops; fib += g_res->fibers; simt += g_res->sim_ns / 1e9;
    for (uint32_t j = 0; j < g_res->nprobe; j++) probes[g_res->probes[j].name] += g_res->probes[j].n;
    for (uint32_t j = 0; j < g_res->nstate; j++) states.insert(g_res->states[j]);
    bool fresh = hashes.insert(g_res->hash).second;
    uint64_t fsum = 0; for (int j = 0; j < NFAULT; j++) fsum += g_res->faults[j];
    if (fresh && g_res->ops > 0 && (fsum > 0 || g_res->switches > 10)) nontriv++;
    if (samples.size() < 4 && g_res->ops) { char b[400]; std::string fs; for (int j = 0; j < NFAULT; j++) if (g_res->faults[j]) { char q[64]; snprintf(q, sizeof q, " %s=%llu", fault_name(j), (unsigned long long)g_res->faults[j]); fs += q; } snprintf(b, sizeof b, "scenario %s seed %llu: %llu checked operations, %.3f simulated s, %llu context switches, %llu system calls, faults:%s, event-trace hash %016llx", s.name, (unsigned long long)seed, (unsigned long long)g_res->ops, g_res->sim_ns / 1e9, (unsigned long long)g_res->switches, (unsigned long long)g_res->syscalls, fs.c_str(), (unsigned long long)g_res->hash); samples.push_back(b); }
    if (g_res->status == 2) { inconc++; incs[g_res->cls]++; }
    if (g_res->status == 3) { internal++; if (internal_msg.empty()) { char b[3600]; snprintf(b, sizeof b, "scenario %s seed %llu: %s: %s where %s", s.name, (unsigned long long)seed, g_res->cls, g_res->msg, g_res->where); internal_msg = b; } }
    const Known *kn = g_res->status == 1 ? known(s.name) : nullptr;
    if (kn) { if (!knowncount[kn->id]++) knownmsg[kn->id] = std::string(g_res->msg).substr(0, 300) + " (scenario " + s.name + " seed " + std::to_string(seed) + ")"; }
    else if (g_res->status == 1) {
      std::string sig = std::string(s.name) + "|" + g_res->cls; failcount[sig]++;
      if (!sigs.count(sig) && (int)fails.size() < maxfail) {
        Failure f; f.scenario = s.name; f.prop = s.prop; f.cls = g_res->cls; f.seed = seed; f.msg = g_res->msg; f.hash = g_res->hash;
        take_streams(f.st); f.orig_choices = total_choices(f.st); f.shrink_runs = 0; f.by_seed = g_res->chdropped; if (f.by_seed) for (auto &x : f.st) x.clear();
        uint64_t h = g_res->hash;
        int sf = open((dir + "/STOP").c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644); if (sf >= 0) close(sf); else if (o.count("stop")) break;
        one_run(s, seed, nullptr, nullptr);
        f.deterministic = same_failure(s, f.cls.c_str()) && g_res->hash == h;
        one_run(s, seed, f.by_seed ? nullptr : &f.st, nullptr);
        f.deterministic = f.deterministic && same_failure(s, f.cls.c_str()) && g_res->hash == h;
        if (f.deterministic && shrink_time > 0 && !f.by_seed) f.shrink_runs = shrink(s, f, wall() + shrink_time);
        std::string tr = dir + "/trace." + std::to_string(getpid());
        one_run(s, seed, f.by_seed ? nullptr : &f.st, tr.c_str());
        f.deterministic = f.deterministic && same_failure(s, f.cls.c_str());
        f.msg = g_res->msg; f.where = g_res->where; f.hash = g_res->hash; f.min_choices = f.by_seed ? f.orig_choices : total_choices(f.st);
        std::string path = dir + "/" + f.prop + "." + f.scenario + "." + std::to_string(seed) + ".json";
        write_replay(f, path, tr); unlink(tr.c_str());
        f.where = path; // path reported below
        sigs.insert(sig); fails.push_back(f);
        if ((int)fails.size() >= maxfail || o.count("stop")) break;
      }
    } else if (runs % 97 == 1) { // determinism re-check
      uint64_t h = g_res->hash; int st = g_res->status; redet++;
      one_run(s, seed, nullptr, nullptr);
      if (g_res->hash != h || g_res->status != st) { redet_bad++; if (internal_msg.empty()) internal_msg = std::string("nondeterministic run: scenario ") + s.name + " seed " + std::to_string(seed); }
    }
  }
  std::ofstream out(o.count("out") ? o["out"] : "/dev/stdout");
  out << "{\"runs\":" << runs << ",\"wall\":" << wall() - t0 << ",\"inconclusive\":" << inconc << ",\"internal\":" << internal << ",\"internal_msg\":\"" << jesc(internal_msg) << "\",\"redet\":" << redet << ",\"redet_bad\":" << redet_bad << ",\"max_acc\":" << max_acc << ",\"slowest\":[" << slowest << ",\"" << slow_id << "\"]"
      << ",\"accesses\":" << acc << ",\"switches\":" << sw << ",\"syscalls\":" << sys << ",\"ops\":" << ops << ",\"fibers\":" << fib << ",\"sim_s\":" << simt << ",\"nontrivial\":" << nontriv << ",\"faults\":{";
  bool first = true; for (int j = 0; j < NFAULT; j++) if (faults[j]) { out << (first ? "" : ",") << "\"" << fault_name(j) << "\":" << faults[j]; first = false; }
  out << "},\"probes\":{"; first = true; for (auto &p : probes) { out << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
  out << "},\"incs\":{"; first = true; for (auto &p : incs) { out << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
  out << "},\"scenarios\":{"; first = true; for (auto &p : per_scen) { out << (first ? "" : ",") << "\"" << p.first << "\":" << p.second; first = false; }
  out << "},\"failcount\":{"; first = true; for (auto &p : failcount) { out << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
  out << "},\"known\":{"; first = true; for (auto &p : knowncount) { out << (first ? "" : ",") << "\"" << jesc(p.first) << "\":{\"n\":" << p.second << ",\"msg\":\"" << jesc(knownmsg[p.first]) << "\"}"; first = false; }
  out << "},\"samples\":["; for (size_t j = 0; j < samples.size(); j++) out << (j ? "," : "") << "\"" << jesc(samples[j]) << "\"";
  out << "],\"fails\":["; for (size_t j = 0; j < fails.size(); j++) { auto &f = fails[j]; out << (j ? "," : "") << "{\"scenario\":\"" << f.scenario << "\",\"class\":\"" << jesc(f.cls) << "\",\"msg\":\"" << jesc(f.msg) << "\",\"seed\":" << f.seed << ",\"replay\":\"" << jesc(f.where) << "\",\"deterministic\":" << (f.deterministic ? "true" : "false") << ",\"before\":" << f.orig_choices << ",\"after\":" << f.min_choices << ",\"shrink_runs\":" << f.shrink_runs << "}"; }
  out << "],\"hashes\":["; first = true; for (uint64_t h : hashes) { out << (first ? "" : ",") << "\"" << h << "\""; first = false; }
  out << "],\"states\":["; first = true; for (uint64_t h : states) { out << (first ? "" : ",") << "\"" << h << "\""; first = false; }
  out << "]}\n";
  return 0;
}
