#!/usr/bin/env python3
"""Decides one property of gcem by seeded deterministic simulation with fault injection.

  check.py PROPERTY [--tier quick|thorough] [--seconds S] [--workers N]
  check.py --setup                 build every variant
  check.py --replay FILE           replay a reported trace against /repo's current tree

Exit 0: held on everything explored.  Exit 1: a line VIOLATION property=.. replay=..
Exit 2: the check itself could not decide (nothing builds, or a failure did not replay).
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GCEM_REPO", "/repo")
VARIANTS = ["gcc11O0", "gcc17O2", "clang20O2", "gcc17O0", "gcc11O2", "clang14O1"]
FLAGS = {"gcc11O0": "g++ -std=c++11 -O0", "gcc11O2": "g++ -std=c++11 -O2", "gcc17O0": "g++ -std=c++17 -O0",
         "gcc17O2": "g++ -std=c++17 -O2", "clang14O1": "clang++ -std=c++14 -O1", "clang20O2": "clang++ -std=c++20 -O2"}
# a compiler may evaluate a floating-point operation early unless told it can trap: only g++ promises not to by default
ONLY = {"C11": ["gcc11O0", "gcc17O2", "gcc17O0", "gcc11O2"]}
LEVEL = "exploration"
SECONDS = {"quick": 50, "thorough": 780}

RULES = {
 "C01": "2-4 simulated threads of 1-5 calls each, or 4-39 threads all inside a call at once, or one thread overtaken by up to 400 calls, or a procession of up to 320 threads; nontrivial: at least one preemption placed inside a call",
 "C02": "1-2 threads of calls plus 1-128 handler calls delivered inside them, nested up to 38 deep; nontrivial: at least one handler ran inside a call",
 "C03": "one thread, 1-30 (sometimes 1200) related calls, some repeated up to 70000 times, some abandoned half-way; nontrivial: at least one call abandoned inside or repeated",
 "C04": "2-39 threads; one or more suspended, killed, or lost to a fork inside a call; nontrivial: at least one preemption or such fault fired inside a call",
 "C05": "20-120 calls, each entered with its own rounding direction, flush modes, x87 precision, raised flags and errno, sometimes with a second thread switched in mid-call; nontrivial: some call entered in a non-default state",
 "C06": "20-120 calls, each made in one of the three directed rounding directions, some with subnormals flushed; nontrivial: some call in a non-default mode",
 "C07": "20-120 calls made in a process whose system calls are trapped and failed and whose allocations fail (all, first, random); nontrivial: heap or system-call fault armed",
 "C08": "20-120 calls with ordinary, boundary, special and random-bit arguments, a 1 MiB stack limit, a step limit, random rounding and flush modes, dirty memory; nontrivial: always (the limits are armed)",
 "C09": "20-120 calls, each with its own leftover stack/heap contents, stack address, raised flags, errno, clock, random source, process identity, processor features and environment answers, some in a directed rounding or flush mode; nontrivial: some of these differ from the default",
 "C10": "2-39 coroutines of one operating-system thread, switched inside calls; nontrivial: at least one switch inside a call",
 "C11": "20-120 calls, each made with some of the invalid, divide-by-zero and overflow exceptions trapping, sometimes with a second thread switched in mid-call; nontrivial: some exception traps",
 "C12": "plans of C01, C02, C03 or C10 (threads, handlers, histories, coroutines); nontrivial: at least one preemption, interruption, abandonment or repetition",
 "C13": "1-3 threads of 1-8 calls; static initialisers of the eight translation units run before, between, during or never, exit-time and thread-exit destructors run between or during calls; nontrivial: at least one such event",
 "C15": "plans of C01 with happens-before tracked through every lock, guard and atomic operation; nontrivial: at least one preemption inside a call",
 "C16": "1-39 coroutines over four operating-system threads, suspended inside calls and resumed there or elsewhere; nontrivial: at least one switch or move inside a call",
 "C17": "20-500 calls, ordinary, boundary, special and random-bit arguments, random rounding and flush modes, with all memory but the stack write-protected; nontrivial: some call entered in a non-default state",
 "C14": "plans of C01, C02, C03 or C10 in which calls run in different rounding directions and flush modes; each is compared with the same call alone in its own mode; nontrivial: some call in a non-default mode or at least one such event",
}
ASSUME = [
 "weak memory: atomic loads may return older values the C++ memory model allows (C01, C15) and unordered plain accesses are violations (C15); other properties run sequentially consistent",
 "preemption points are basic blocks and non-stack memory accesses of code compiled from the headers; code inside libc/libm runs as one step",
 "argument domains are bounded as listed in DESIGN.md (\"argument domains\")",
 "sampling: a clean batch is evidence, not proof",
]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_key():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "include"), os.path.join(HERE, "sim")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh: h.update(fh.read())
    for c in ("g++", "clang++"):
        h.update(sh([c, "--version"]).stdout.encode())
    return h.hexdigest()[:20]

def build():
    base = os.path.join(HERE, ".build"); os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(base, tree_key())
        if not os.path.exists(os.path.join(out, "ok")):
            for old in sorted(glob.glob(os.path.join(base, "*/")), key=os.path.getmtime)[:-3]:
                shutil.rmtree(old, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            p = sh(["bash", os.path.join(HERE, "sim", "build.sh"), out] + VARIANTS, env=dict(os.environ, GCEM_REPO=REPO))
            with open(os.path.join(out, "build.log"), "w") as f: f.write(p.stdout)
            if p.returncode: sys.stderr.write(p.stdout); return out, []
            for f in glob.glob(os.path.join(out, "*.o")): os.unlink(f)
            write_dict(os.path.join(out, "dict.txt"))
            open(os.path.join(out, "ok"), "w").close()
    return out, [v for v in VARIANTS if os.path.exists(os.path.join(out, "sim-" + v))]

def write_dict(path):
    """numeric literals of the headers: only candidate arguments, never judged"""
    vals = set()
    for d, _, fs in os.walk(os.path.join(REPO, "include")):
        for f in fs:
            try: t = open(os.path.join(d, f), errors="replace").read()
            except OSError: continue
            t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
            for m in re.finditer(r"(?<![\w.])(?:0[xX][0-9a-fA-F]+|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)", t):
                s = m.group(0)
                try: v = float(int(s, 16)) if s[:2] in ("0x", "0X") else float(s)
                except (ValueError, OverflowError): continue
                if v != 0 and v < 1e300: vals.add((s if s[:2] not in ("0x", "0X") else repr(v)))
    # the tables of quadrature nodes are long decimals inside (0,1): keep a sample of each length class
    keep = sorted(v for v in vals if len(v) <= 12) + sorted(v for v in vals if len(v) > 12)[::8]
    with open(path, "w") as f: f.write("\n".join(keep) + "\n")

def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\w+) match=\"(.*?)\" (.*)", l)
            if m: known.append(m.groups())
    return known

def replay(path, out=None, variants=None, quiet=False):
    if out is None: out, variants = build()
    m = re.search(r"^origin variant (\S+)", open(path).read(), re.M)
    v = m.group(1) if m else VARIANTS[0]
    exe = os.path.join(out, "sim-" + v)
    if not os.path.exists(exe): print("variant %s does not build" % v); return 2
    p = sh([exe, "--replay", path])
    if not quiet: print(p.stdout, end="")
    return p.returncode

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "--setup":
        out, ok = build(); print("built:", " ".join(ok)); return 0 if ok else 2
    if a[0] == "--replay": return replay(a[1])
    prop = a[0]; opt = dict(zip(a[1::2], a[2::2]))
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in SECONDS: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = float(opt.get("--seconds", SECONDS[tier])); nw = int(opt.get("--workers", os.cpu_count() or 8))
    nw = max(nw, 6)
    t0 = time.time()
    out, ok = build()
    ok = [v for v in ok if v in ONLY.get(prop, VARIANTS)]
    if not ok: print("no variant of the simulator builds from " + REPO); return 2
    rep = os.path.join(HERE, "replays"); os.makedirs(rep, exist_ok=True)
    rounds, per = ("3", "40") if tier == "quick" else ("10", "120")
    t1 = time.time()
    procs = []
    for w in range(nw):
        v = ok[w % len(ok)]
        f = tempfile.TemporaryFile("w+")
        cmd = [os.path.join(out, "sim-" + v), "--prop", prop, "--seed", str(seed % (1 << 62)), "--worker", str(w), "--runs", "100000000",
               "--max-seconds", str(secs), "--rounds", rounds, "--per-entry", per, "--out", rep, "--variant", v, "--dict", os.path.join(out, "dict.txt")]
        procs.append((v, f, subprocess.Popen(cmd, stdout=f, stderr=subprocess.PIPE, text=True)))
    res, errors, viol, known_hit, unrep = [], [], [], {}, 0
    known = load_known()
    live = list(procs); deadline = t1 + secs + 240
    while live and time.time() < deadline:
        for x in list(live):
            v, f, p = x
            if p.poll() is None: continue
            live.remove(x); f.seek(0); txt = f.read().strip().split("\n")[-1]; err = p.stderr.read()
            try: j = json.loads(txt)
            except ValueError: errors.append("%s: exit %s %s %s" % (v, p.returncode, txt[-200:], err[-300:])); continue
            res.append(j); unrep += j["unreproducible"]
            if j["unreproducible"]: errors.append("%s: %s" % (v, err[-300:]))
            if "violation" in j:
                if replay(j["violation"], out, ok, quiet=True) == 0:
                    hit = [k for k in known if k[0] == prop and k[1] in j["text"]]
                    if hit: known_hit[hit[0][1]] = hit[0][2]
                    else: viol.append(j)
                else: unrep += 1; errors.append("%s: %s did not replay" % (v, j["violation"]))
        if viol: break
        time.sleep(0.05)
    for v, f, p in live:
        p.kill(); p.wait()
    hung = len(live) if not viol else 0
    wall = time.time() - t0
    tot = lambda k: sum(j[k] for j in res)
    fired = {}
    for j in res:
        for k, n in j["fired"].items(): fired[k] = fired.get(k, 0) + n
    runs = tot("runs"); srch = max([j["run_s"] + j["scan_s"] for j in res] or [1e-9])
    big = max(res, key=lambda j: j["max_steps"]) if res else None; bigs = max(res, key=lambda j: j["max_stack"]) if res else None
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "wall_s": round(wall, 2), "violations": len(viol),
      "assumptions": ASSUME,
      "coverage": {
        "evaluations": runs, "distinct_nontrivial": tot("distinct"), "rule": RULES[prop] + "; distinct: the set of calls, arguments, entry states and fired decisions (call, step, kind), counted per worker",
        "samples": [s for j in res for s in j["samples"]][:6] or ["no run finished"],
        "simulated_runs_per_hour": int(runs / srch * 3600), "seeds_per_hour": int(runs / srch * 3600),
        "seeds": "run k of worker w is decided by (VERIF_SEED, w, k); %d such seeds run" % runs,
        "simulated_calls": tot("calls"), "simulated_time_steps": tot("ticks"),
        "search_calls_for_reach": tot("scan_calls"), "pristine_process_references": tot("refs"), "processes_forked": tot("forks"),
        "faults_fired": {k: n for k, n in sorted(fired.items())},
        "basic_blocks_reached_max": max([j["cov"] for j in res] or [0]), "calls_touching_shared_state_found": tot("hot"),
        "longest_call_steps": {"steps": big["max_steps"], "call": big["max_steps_call"]} if big else None,
        "deepest_call_stack": {"bytes": bigs["max_stack"], "call": bigs["max_stack_call"]} if bigs else None,
        "variants": {v: FLAGS[v] for v in ok}, "variants_not_built": [v for v in VARIANTS if v not in ok],
        "workers": [{k: j[k] for k in ("variant", "worker", "runs", "calls", "evhash")} for j in res],
        "unreproducible": unrep, "known_findings_seen": len(known_hit),
        "real_code": "every public gcem function, compiled from /repo/include",
        "stubbed": "thread scheduler, locks, one-time initialisation, clocks, sleep, random sources, environment variables, process identity, heap (inside calls), system calls (C07)"}}
    if viol: ev["coverage"]["violation_texts"] = [j["text"] for j in viol]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for m, d in sorted(known_hit.items()): print("KNOWN-FINDING: property=%s %s" % (prop, d))
    if viol:
        for j in viol:
            print("%s (%s): %s" % (prop, j["variant"], j["text"]))
            print("VIOLATION property=%s replay=%s" % (prop, j["violation"]))
        return 1
    if errors or unrep or not runs or hung:
        print("could not decide: errors %s, unreproducible %d, workers without an answer %d" % (errors[:3], unrep, hung)); return 2
    print("%s held: %d simulated runs, %d distinct, %d calls, %d steps, %.0f s" % (prop, runs, tot("distinct"), tot("calls"), tot("ticks"), wall))
    return 0

if __name__ == "__main__": sys.exit(main())
