#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py <property> [--tier quick|thorough] [--secs N] [--workers N]
  check.py --replay <file>        re-runs a replay file exactly (exit 1 when it still fails)

Builds the simulator and the node from /repo's working tree, searches schedules and fault sequences from
VERIF_SEED, confirms and minimises what it finds, writes evidence/<property>.json.
"""
import argparse, json, os, re, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build as B

T0 = time.time()
TECH = "deterministic simulation with fault injection"

# flavours: which builds of the node a property is explored on, with the share of the workers
PROPS = json.load(open(os.path.join(HERE, "lib", "checks.json")))
DEFAULT_KNOBS = {"pre": 1000000, "plainpre": 0, "spurious": 0, "hc": 2, "reuse": 0, "fill": 1, "policy": 2, "gran": 1, "stall": 0, "speed": 100}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split())
    except OSError:
        pass
    return set()


def symbolise(msg, libs):
    """(node.so+0xOFF) -> function (file:line)"""

    def rep(m):
        for lib in libs:
            if os.path.basename(lib) != m.group(1):
                continue
            off = int(m.group(2), 16)
            try:
                o = subprocess.run(["addr2line", "-Cfi", "-e", lib, hex(max(off - 1, 0))], stdout=subprocess.PIPE, text=True, timeout=20).stdout.splitlines()
                if len(o) >= 2 and o[0] != "??":
                    fn = re.sub(r"\(.*", "", o[0])
                    loc = o[1].split(" (")[0]
                    if loc.startswith(B.REPO):
                        loc = loc[len(B.REPO) + 1 :]
                    return "[%s %s]" % (fn[-60:], loc)
            except Exception:
                pass
        return m.group(0)

    return re.sub(r"\((\w+\.so)\+(0x[0-9a-f]+)\)", rep, msg)


class Runner:
    def __init__(self, exe, libs):
        self.exe, self.libs = exe, libs

    def base(self):
        c = [self.exe]
        for l in self.libs:
            c += ["--lib", l]
        return c

    def single(self, prop, seed, save=None, cpu=20, scale=None, tier_args=()):
        c = self.base() + ["--prop", prop, "--single", str(seed), "--cpu", str(cpu)] + list(tier_args)
        if save:
            c += ["--save", save, "--explicit"]
        return self.result(c)

    def plan(self, text, save=None, cpu=20, trace=False):
        c = self.base() + ["--plan", "-", "--cpu", str(cpu)]
        if trace:
            c.append("--trace")
        if save:
            c += ["--save", save, "--explicit"]
        return self.result(c, text, trace)

    def result(self, c, text=None, trace=False):
        try:
            r = subprocess.run(c, input=text, stdout=subprocess.PIPE, stderr=None if trace else subprocess.DEVNULL, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return None
        for l in r.stdout.splitlines():
            if l.startswith("RESULT "):
                return json.loads(l[7:])
        return None


def parse_plan(text):
    p = {"head": [], "knobs": {}, "ops": [], "faults": [], "sched": [], "explicit": False}
    for l in text.splitlines():
        t = l.split()
        if not t or t[0][0] == "#":
            continue
        if t[0] == "knob":
            k, v = t[1].split("=")
            p["knobs"][k] = int(v)
        elif t[0] in ("op", "fault"):
            p["ops" if t[0] == "op" else "faults"].append((t[1], dict((a.split("=")[0], int(a.split("=")[1])) for a in t[2:])))
        elif t[0] == "schedule":
            p["explicit"] = True
        elif t[0] == "at":
            p["sched"].append(l)
        else:
            p["head"].append(l)
    return p


def plan_text(p):
    o = list(p["head"])
    o += ["knob %s=%d" % kv for kv in p["knobs"].items()]
    for tag, items in (("op", p["ops"]), ("fault", p["faults"])):
        for n, a in items:
            o.append(" ".join([tag, n] + ["%s=%d" % kv for kv in a.items()]))
    if p["explicit"]:
        o.append("schedule explicit")
        o += p["sched"]
    return "\n".join(o) + "\n"


def copy_plan(p):
    return {"head": list(p["head"]), "knobs": dict(p["knobs"]), "ops": [(n, dict(a)) for n, a in p["ops"]], "faults": [(n, dict(a)) for n, a in p["faults"]], "sched": list(p["sched"]), "explicit": p["explicit"]}


def kind_of(msg):
    """what must stay the same while minimising: the message without numbers and places"""
    return re.sub(r"0x[0-9a-f]+|\d+", "#", msg.split(" in ")[0].split(":")[0])[:60]


def minimise(run, plan, cls, msg, limit):
    """greedy reduction of operations, faults, knobs and scheduling decisions; same violation class"""
    end = time.time() + limit
    tries = [0]
    want = kind_of(msg)

    def fails(p):
        if time.time() > end:
            return False
        tries[0] += 1
        r = run.plan(plan_text(p))
        return bool(r and r["status"] == 2 and r["cls"] == cls and kind_of(r["msg"]) == want)

    def ddmin(p, key):
        n = 2
        while len(p[key]) >= 1 and time.time() < end:
            items = p[key]
            step = max(1, len(items) // n)
            done = False
            for i in range(0, len(items), step):
                q = copy_plan(p)
                q[key] = items[:i] + items[i + step :]
                if fails(q):
                    p = q
                    done = True
                    n = max(n - 1, 2)
                    break
            if not done:
                if step == 1:
                    break
                n = min(n * 2, len(items))
        return p

    p = parse_plan(plan)
    p = ddmin(p, "ops")
    p = ddmin(p, "faults")
    for k, v in DEFAULT_KNOBS.items():
        if k in p["knobs"] and p["knobs"][k] != v:
            q = copy_plan(p)
            q["knobs"][k] = v
            if fails(q):
                p = q
    for i in range(len(p["ops"])):
        for k in ("n", "th", "dt", "mis", "pad", "lv", "sh", "cc", "len"):
            if k not in p["ops"][i][1]:
                continue
            v = p["ops"][i][1][k]
            for w in [0, 1, v // 2, v * 3 // 4] if k in ("n", "len", "cc") else [0, 1]:
                if w >= p["ops"][i][1][k]:
                    continue
                q = copy_plan(p)
                q["ops"][i][1][k] = w
                if fails(q):
                    p = q
                    break
    # fix the schedule, then drop scheduling decisions
    with tempfile.TemporaryDirectory() as td:
        f = os.path.join(td, "p")
        r = run.plan(plan_text(p), save=f)
        q = parse_plan(open(f).read())
        if fails(q):
            p = ddmin(q, "sched")
    return plan_text(p), tries[0]


def known_findings(prop):
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def do_check(prop, tier, secs, nworkers):
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    flags = cpu_flags()
    flav = [f for f in cfg.get("flavours", ["t"]) if not (f == "t_avx2" and flags and "avx2" not in flags)]
    built = B.build(sorted(set(x for f in flav for x in f.split("+"))))
    tb = time.time() - T0
    log("%s: build %.1f s" % (prop, tb))
    cpus = sorted(os.sched_getaffinity(0))
    nworkers = nworkers or min(len(cpus), 8)
    # workers: flavour (or pair "a+b") by turns
    runners = []
    for i in range(nworkers):
        f = flav[i % len(flav)].split("+")
        runners.append(Runner(built[f[0]][0], [built[x][1] for x in f]))
    extra = ["--scale", "1"] if tier == "thorough" else []
    procs, lines, lock = [], [], threading.Lock()
    stop = threading.Event()
    viols = []
    errors = []
    stats = []
    samples = []

    known = known_findings(prop)
    suppressed = []

    def reader(i, p):
        for l in p.stdout:
            tag, _, js = l.partition(" ")
            try:
                if tag == "VIOL":
                    v = json.loads(js)
                    v["worker"] = i
                    v["text"] = symbolise(v["msg"], runners[i].libs)
                    with lock:
                        if any(rx.search(v["cls"] + ": " + v["text"]) for rx, _ in known):
                            suppressed.append(v)
                        else:
                            viols.append(v)
                            stop.set()
                elif tag in ("SIMERROR", "NONDET"):
                    with lock:
                        errors.append((tag, json.loads(js)))
                elif tag == "STATS":
                    with lock:
                        stats.append(json.loads(js))
                elif tag == "SAMPLE":
                    with lock:
                        samples.append(json.loads(js))
            except ValueError:
                pass

    t1 = time.time()
    threads = []
    for i, r in enumerate(runners):
        c = r.base() + ["--prop", prop, "--seed", str(seed), "--count", "1000000000", "--offset", str(i), "--stride", str(nworkers), "--time", str(secs), "--dup", "25", "--cpu", "10", "--pin", str(cpus[i % len(cpus)]), "--all", "--samples", "1" if i < 3 else "0"] + extra
        p = subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        procs.append(p)
        th = threading.Thread(target=reader, args=(i, p))
        th.start()
        threads.append(th)
    grace = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if stop.is_set() and grace is None:
            grace = time.time() + 1.0
        if grace and time.time() > grace or time.time() - t1 > secs + 120:
            for p in procs:
                if p.poll() is None:
                    p.kill()
    for th in threads:
        th.join()
    dt = time.time() - t1
    # ---- violations: confirm, minimise, write the replay file
    replay = None
    confirmed = None
    rejected = []
    seen = set()
    for v in sorted(viols, key=lambda v: v["steps"]):
        if confirmed or (v["cls"], kind_of(v["msg"])) in seen and len(seen) > 5:
            continue
        seen.add((v["cls"], kind_of(v["msg"])))
        run = runners[v["worker"]]
        with tempfile.TemporaryDirectory() as td:
            f = os.path.join(td, "plan")
            a = run.single(prop, v["seed"], save=f, tier_args=extra)
            b = run.single(prop, v["seed"], tier_args=extra)
            if not a or not b or a["hash"] != b["hash"] or (a["status"], a["cls"]) != (b["status"], b["cls"]) or a["status"] != 2 or not os.path.exists(f):
                rejected.append((v, a, b))
                continue
            text = open(f).read()
            c = run.plan(text)
            if not c or c["status"] != 2 or c["cls"] != a["cls"]:
                rejected.append((v, a, c))
                continue
            small, tries = minimise(run, text, a["cls"], a["msg"], 45)
            c1, c2 = run.plan(small), run.plan(small)
            if not c1 or not c2 or c1["status"] != 2 or c1["hash"] != c2["hash"]:
                small, c1 = text, c
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            replay = os.path.join(HERE, "replays", "%s-%s.plan" % (prop, v["seed"]))
            libs = "+".join(os.path.basename(os.path.dirname(l)) for l in run.libs)
            with open(replay, "w") as o:
                o.write("# property %s\n# seed %s (VERIF_SEED=%d)\n# builds %s\n# expect %s: %s\n# hash %s\n# minimised in %d runs; replay: python3 check.py --replay %s\n" % (prop, v["seed"], seed, libs, c1["cls"], symbolise(c1["msg"], run.libs), c1["hash"], tries, os.path.relpath(replay, HERE)))
                o.write(small)
            confirmed = (v, c1)
            print("%s: %s: %s" % (prop, c1["cls"], symbolise(c1["msg"], run.libs)))
            print("found with plan seed %s: %s: %s" % (v["seed"], v["cls"], v["text"]))
            print(small.rstrip()[:3000])
    # ---- evidence
    tot = {"runs": 0, "steps": 0, "acc": 0, "switches": 0, "simtime": 0, "mt": 0, "dups": 0, "dupbad": 0, "violations": 0, "faultruns": 0}
    probes, proberuns, faults, ops = {}, {}, {}, {}
    hashes, ih = set(), set()
    for s in stats:
        for k in tot:
            tot[k] += s[k]
        merge(probes, s["probes"])
        merge(proberuns, s["proberuns"])
        merge(faults, s["faults"])
        merge(ops, s["ops"])
        hashes.update(s["hashes"])
        ih.update(s["ihashes"])
    if not stats:  # stopped at a violation
        tot["runs"] = max(1, len(viols))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if confirmed else 0,
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": "one evaluation = one simulated run of the plan generated from one seed (" + cfg["rule"] + "); non-trivial = it switched threads, injected a fault or reached a probe; distinct = different event hash (every scheduling decision, injected fault, call result and output content)",
            "samples": samples[:3] or [{"violation": v["text"], "seed": v["seed"]} for v in viols[:1]],
            "runs_per_hour": int(tot["runs"] / max(dt, 0.01) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(dt, 0.01) * 3600),
            "simulated_seconds": round(tot["simtime"] * 1e-9, 3),
            "scheduling_points": tot["steps"],
            "checked_memory_accesses": tot["acc"],
            "thread_switches": tot["switches"],
            "runs_with_thread_switches": tot["mt"],
            "distinct_interleavings": len(ih),
            "distinct_interleavings_measure": "hash of the sequence of (thread, kind of scheduling point, next thread) at every switch of a run",
            "runs_with_faults": tot["faultruns"],
            "faults_injected": faults,
            "probes_reached": probes,
            "runs_reaching_probe": proberuns,
            "operations": ops,
            "determinism_reruns": tot["dups"],
            "determinism_mismatches": tot["dupbad"],
            "builds": flav,
            "real_code": cfg.get("real", "all of stenos (API, SIMD block compressor, thread pool, zstd wrapper, timer, cvector), libzstd, libstdc++"),
            "simulated": "threads and scheduling, mutexes, condition variables, thread creation/join, clocks and sleep, memory allocator, hardware concurrency, CPUID" + cfg.get("stubs", ""),
            "search_seconds": round(dt, 1),
            "build_seconds": round(tb, 1),
            "known_findings_seen": len(suppressed),
        },
        "assumptions": [
            "sequentially consistent memory: weak-memory effects are only judged through happens-before race detection",
            "libzstd and libstdc++ are trusted and run atomically between scheduling points",
        ],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
        o.write("\n")
    for rx, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    log("%s: %d runs in %.1f s, %d distinct, %d interleavings, faults %s" % (prop, tot["runs"], dt, len(hashes), len(ih), faults))
    if confirmed:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if rejected:
        for v, a, b in rejected[:3]:
            print("ERROR: violation does not reproduce exactly: %s | %s | %s" % (v, a, b))
        return 2
    if errors or not stats or len(stats) < nworkers:
        for e in errors[:3]:
            print("ERROR: simulator: %s" % (e,))
        if len(stats) < nworkers:
            print("ERROR: %d of %d workers gave no statistics" % (nworkers - len(stats), nworkers))
        return 2
    return 0


def do_replay(path):
    text = open(path).read()
    flav = re.search(r"^# builds (\S+)", text, re.M)
    flav = flav.group(1).split("+") if flav else ["t"]
    built = B.build(flav)
    run = Runner(built[flav[0]][0], [built[f][1] for f in flav])
    r = run.plan(text, trace="--trace" in sys.argv)
    if not r:
        print("ERROR: no result")
        return 2
    want = re.search(r"^# hash (\S+)", text, re.M)
    print("status=%d %s: %s" % (r["status"], r["cls"], symbolise(r["msg"], run.libs)))
    print("hash %s%s" % (r["hash"], "" if not want else " (identical)" if want.group(1) == r["hash"] else " (recorded %s)" % want.group(1)))
    return 1 if r["status"] == 2 else 0 if r["status"] == 1 else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    a = ap.parse_args()
    try:
        if a.replay:
            return do_replay(a.replay)
        if a.prop not in PROPS:
            print("unknown property %s" % a.prop)
            return 2
        secs = a.secs or (PROPS[a.prop].get("secs", 40) if a.tier != "thorough" else 600)
        return do_check(a.prop, a.tier, secs, a.workers)
    except B.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
