#!/usr/bin/env python3
"""Build the simulator with /repo's current sources and decide one property.

  run_check.py build [PROP...]         build the binaries
  run_check.py check PROP [--tier T] [--time S]
  run_check.py replay FILE [--trace OUT]
"""
import sys, os, re, json, hashlib, subprocess, time, fcntl, shutil, glob, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LCE_REPO", "/repo")
B = os.path.join(V, "build")
if REPO != "/repo":
    B = os.path.join(B, "alt-" + hashlib.sha256(REPO.encode()).hexdigest()[:10])
NPROC = int(os.environ.get("LCE_JOBS", str(min(8, os.cpu_count() or 1))))

from props import PROPS  # noqa: E402  property -> dict(work=[files], extra...)

SIM_FLAGS = "-std=c++17 -O2 -g -fno-builtin -U_FORTIFY_SOURCE -fno-omit-frame-pointer -fno-stack-protector".split()
USR_FLAGS = ("-std=c++11 -O1 -g -w -fsanitize=thread -fno-builtin -fno-omit-frame-pointer -U_FORTIFY_SOURCE "
             "-fno-stack-protector").split()
REPO_INC = ["-I" + REPO + "/include", "-I/usr/include/mariadb", "-I/usr/include/mysql"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(files):
    return sha(*[x for f in sorted(files) for x in (f, rd(f))])


class BuildError(Exception):
    pass


def compile_obj(src, flags, dep, tag):
    key = sha(tag, " ".join(flags), src, rd(src), dep)[:24]
    out = os.path.join(B, "obj", os.path.basename(src).replace(".", "_") + "-" + tag + "-" + key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("compiling %s:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
        os.rename(tmp, out)
    return out


def wrap_names():
    t = rd(os.path.join(V, "sim/wraps.cpp")).decode()
    names = set(re.findall(r"__wrap_([A-Za-z0-9_]+)\s*\(", t)) | set(re.findall(r"^(?:WRAP|SFW)\([^,]*?,\s*([A-Za-z0-9_]+)\s*,", t, re.M))
    names -= {"name"}
    return sorted(names)


def build(props):
    os.makedirs(os.path.join(B, "obj"), exist_ok=True)
    os.makedirs(os.path.join(B, "bin"), exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    simh = tree_hash(glob.glob(V + "/sim/*.h"))
    rhdr = tree_hash([f for f in glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/*.h") if os.path.isfile(f)])
    workh = tree_hash(glob.glob(V + "/work/*.h"))
    srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
    jobs = []
    works = sorted({w for p in props for w in PROPS[p]["work"]})
    stubs = sorted({w for p in props for w in PROPS[p].get("stub", [])})
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fw = {w: ex.submit(compile_obj, V + "/work/" + w, USR_FLAGS + REPO_INC + ["-I" + V + "/sim", "-I" + V + "/work"], sha(simh, rhdr, workh), "w") for w in works}
        fs = [ex.submit(compile_obj, V + "/sim/" + s, SIM_FLAGS + ["-I" + V + "/sim"], simh, "s") for s in ("wraps.cpp", "kernel.cpp", "core.cpp", "runner.cpp")]
        fs.append(ex.submit(compile_obj, V + "/sim/stl.cpp", USR_FLAGS, "", "u"))
        ft = {w: ex.submit(compile_obj, V + "/work/" + w, SIM_FLAGS + ["-I" + V + "/sim", "-I/usr/include/mariadb"], sha(simh, workh), "t") for w in stubs}
        fr = {s: ex.submit(compile_obj, s, USR_FLAGS + REPO_INC + (["-DHAVE_MYSQL_H"] if s.endswith("/CMysql.cpp") else []), rhdr, "r") for s in srcs}
        err = []

        def res(f):
            try:
                return f.result()
            except BuildError as e:
                err.append(str(e))
        fw = {k: res(v) for k, v in fw.items()}
        fs = [res(f) for f in fs]
        ft = {k: res(v) for k, v in ft.items()}
        fr = {k: res(v) for k, v in fr.items()}
        if err:
            raise BuildError("\n".join(err))
    wraps = ["-Wl,--wrap=" + n for n in wrap_names()]
    bins = {}

    def link(p):
        objs = [fw[w] for w in PROPS[p]["work"]]
        robj = [o for s, o in fr.items() if PROPS[p].get("mysql") or not s.endswith("CMysql.cpp")]
        tobj = [ft[w] for w in PROPS[p].get("stub", [])]
        key = sha(p, *(objs + robj + fs + tobj), " ".join(wraps))[:24]
        out = os.path.join(B, "bin", p + "-" + key)
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(B, "bin", p + "-*")):
                os.unlink(old)
            ar = out + ".%d.a" % os.getpid()
            subprocess.run(["ar", "rcs", ar] + robj, check=True)
            r = subprocess.run(["g++", "-no-pie", "-static-libstdc++", "-static-libgcc", "-g"] + wraps + objs + [ar] + fs + tobj + PROPS[p].get("libs", []) + ["-o", out + ".tmp", "-lpthread", "-lrt", "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            os.unlink(ar)
            if r.returncode:
                raise BuildError("linking %s:\n%s" % (p, r.stdout.decode(errors="replace")[-4000:]))
            os.rename(out + ".tmp", out)
        return out
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for p, f in [(p, ex.submit(link, p)) for p in props]:
            bins[p] = f.result()
    # keep the cache small
    objs = sorted(glob.glob(os.path.join(B, "obj", "*.o")), key=os.path.getmtime)
    for o in objs[:-400]:
        os.unlink(o)
    return bins


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                k = json.loads(l[6:])
                if k["property"] == prop:
                    out.append(k)
    return out


def addr2line(binp, where):
    a = [x for x in where.split() if x.startswith("0x")]
    if not a:
        return []
    try:
        r = subprocess.run(["addr2line", "-Cfpe", binp] + a, stdout=subprocess.PIPE, timeout=20).stdout.decode(errors="replace").splitlines()
        return [x for x in r if "??" not in x][:12]
    except Exception:
        return []


def check(prop, tier, tlimit, seed):
    t0 = time.time()
    P = PROPS[prop]
    binp = build([prop])[prop]
    tb = time.time() - t0
    work = os.path.join(B, "run", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    known = known_findings(prop)
    kf = os.path.join(work, "known.tsv")
    with open(kf, "w") as f:
        for k in known:
            f.write("\t".join([k["id"], k.get("scenario", "*"), k["class"], k["match"]]) + "\n")
    outs, procs = [], []
    for i in range(NPROC):
        o = os.path.join(work, "out.%d" % i)
        outs.append(o)
        procs.append(subprocess.Popen([binp, "run", "--prop", prop, "--seed", str(seed), "--start", str(i), "--stride", str(NPROC), "--time", str(tlimit),
                                       "--dir", work, "--out", o, "--known", kf, "--stop", "1", "--maxfail", "1", "--shrink", os.environ.get("LCE_SHRINK", "25")], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    errs = []
    for p in procs:
        _, e = p.communicate()
        if p.returncode:
            errs.append("runner exit %s: %s" % (p.returncode, e.decode(errors="replace")[-500:]))
    tot = {}
    agg = {k: {} for k in ("faults", "probes", "incs", "scenarios", "known", "failcount")}
    hashes, states, samples, fails = set(), set(), [], []
    imsg, slow, max_acc = "", [0, ""], 0
    for o in outs:
        if not os.path.exists(o):
            errs.append("no output from a runner")
            continue
        d = json.load(open(o))
        for k, v in d.items():
            if k in agg:
                for a, b in v.items():
                    if k == "known":
                        e = agg[k].setdefault(a, {"n": 0, "msg": b["msg"]})
                        e["n"] += b["n"]
                    else:
                        agg[k][a] = agg[k].get(a, 0) + b
            elif isinstance(v, (int, float)) and k != "wall":
                tot[k] = tot.get(k, 0) + v
        hashes.update(d["hashes"]); states.update(d["states"])
        samples += d["samples"]; fails += d["fails"]
        imsg = imsg or d["internal_msg"]
        slow = max(slow, d["slowest"]); max_acc = max(max_acc, d["max_acc"])
    rc = 0
    violations = 0
    rdir = os.path.join(V, "replays")
    for f in fails:
        os.makedirs(rdir, exist_ok=True)
        dst = os.path.join(rdir, os.path.basename(f["replay"]))
        d = json.load(open(f["replay"]))
        d["where"] = d["where"]
        d["call_stack"] = addr2line(binp, d["where"])
        json.dump(d, open(dst, "w"), indent=1)
        r = subprocess.run([binp, "replay", dst], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if r.returncode == 1 and f["deterministic"] and b"(identical)" in r.stdout:
            violations += 1
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            print("  scenario %s seed %s class %s: %s" % (f["scenario"], f["seed"], f["class"], f["msg"]))
            print("  minimised from %d to %d non-zero choices in %d runs" % (f["before"], f["after"], f["shrink_runs"]))
            for l in d["call_stack"][:8]:
                print("    " + l)
            rc = 1
        else:
            errs.append("a violation did not replay exactly: %s %s deterministic=%s rc=%s: %s" % (f["scenario"], f["class"], f["deterministic"], r.returncode, f["msg"]))
    for k in known:
        n = agg["known"].get(k["id"], {"n": 0})["n"]
        print("KNOWN-FINDING: property=%s %s: %s (seen in %d of %d runs)" % (prop, k["id"], k["what"], n, tot.get("runs", 0)))
    if tot.get("internal"):
        errs.append("internal error in %d runs: %s" % (tot["internal"], imsg))
    if tot.get("redet_bad"):
        errs.append("%d of %d re-executed seeds differed: %s" % (tot["redet_bad"], tot["redet"], imsg))
    runs = tot.get("runs", 0)
    if runs == 0:
        errs.append("no run completed")
    wall = time.time() - t0
    never = [k for k in P.get("must_reach", []) if not agg["probes"].get(k) and not agg["faults"].get(k)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": tot.get("nontrivial", 0),
            "rule": "One evaluation is one simulated execution of the real code decided by one seed (workload, schedule, network and fault streams). "
                    "It counts as distinct and non-trivial when its event-trace hash (every system call, event, fault and context switch in order) was not seen before, it checked at least one operation, "
                    "and it injected at least one fault or made more than 10 context switches. " + P.get("rule", ""),
            "samples": samples[:4],
            "distinct_event_traces": len(hashes),
            "distinct_abstract_states": len(states),
            "abstract_state_measure": P.get("states", "none"),
            "runs_per_hour": round(runs / max(0.001, wall - tb) * 3600),
            "simulated_seconds": round(tot.get("sim_s", 0), 3),
            "simulated_hours_per_wall_hour": round(tot.get("sim_s", 0) / max(0.001, wall - tb), 2),
            "checked_operations": tot.get("ops", 0), "context_switches": tot.get("switches", 0), "system_calls": tot.get("syscalls", 0),
            "memory_accesses": tot.get("accesses", 0), "threads_simulated": tot.get("fibers", 0),
            "runs_per_scenario": agg["scenarios"], "faults_injected": agg["faults"], "conditions_reached": agg["probes"], "never_reached": never,
            "inconclusive_runs": agg["incs"], "slowest_run_s": slow, "largest_run_steps": max_acc, "determinism_rechecks": tot.get("redet", 0), "determinism_mismatches": tot.get("redet_bad", 0),
            "known_findings_seen": {k: v["n"] for k, v in agg["known"].items()},
            "real_code": P.get("real", ""), "stubbed": P.get("stubbed", "libc and kernel entry points (threads, locks, clocks, sockets, epoll, pipes, files, shared memory, heap) replaced by the simulator; see DESIGN.md"),
            "build_s": round(tb, 1),
        },
        "assumptions": ["interleavings are sequentially consistent, at the granularity of single instrumented memory accesses",
                        "the simulated kernel is a model of Linux semantics (DESIGN.md lists what it models)"] + P.get("assume", []),
        "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d runs, %d distinct non-trivial, %.0f simulated s, %d violations, %.1f s (build %.1f s)" % (prop, tier, runs, tot.get("nontrivial", 0), tot.get("sim_s", 0), violations, wall, tb))
    if rc == 0 and errs:
        for e in errs[:5]:
            print("ERROR " + e)
        return 2
    return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    opt = {}
    pos = []
    i = 1
    while i < len(a):
        if a[i].startswith("--"):
            opt[a[i][2:]] = a[i + 1]; i += 2
        else:
            pos.append(a[i]); i += 1
    try:
        if a[0] == "build":
            for p, b in build(pos or sorted(PROPS)).items():
                print(p, b)
            return 0
        if a[0] == "check":
            tier = opt.get("tier") or os.environ.get("VERIF_TIER", "quick")
            if tier not in ("quick", "thorough"):
                tier = "quick"
            P = PROPS[pos[0]]
            tl = float(opt.get("time") or os.environ.get("LCE_TIME") or (P.get("quick_s", 30) if tier == "quick" else P.get("thorough_s", 600)))
            return check(pos[0], tier, tl, int(os.environ.get("VERIF_SEED", "1") or 1))
        if a[0] == "replay":
            prop = json.load(open(pos[0]))["property"]
            b = build([prop])[prop]
            cmd = [b, "replay", pos[0]] + (["--trace", opt["trace"]] if "trace" in opt else [])
            return subprocess.run(cmd).returncode
    except BuildError as e:
        print("ERROR build failed\n" + str(e))
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
