#!/usr/bin/env python3
"""Runs the check of one property: builds the monitors against /repo's working tree,
runs them in parallel, judges what they report, writes evidence/<id>.json.

  check.py PROP [--tier quick|thorough] [--seed N]     run the check
  check.py --replay FILE                               run one recorded failing case again
  check.py --setup                                     build everything once

Exit 0: held on everything observed. Exit 1 + VIOLATION line: broken. Exit 3: no answer.
"""
import hashlib, json, math, os, re, resource, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(V, "out")
TARGET = os.path.join(V, "target")
H = os.path.join(V, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
ENV = dict(os.environ)
ENV.setdefault("HOME", "/root")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS"):
    ENV.pop(k, None)
ENV["CARGO_TERM_COLOR"] = "never"
ENV["RUST_BACKTRACE"] = "0"

# property -> (bin, engines of the quick tier, engines of the thorough tier)
N2 = ["dev", "release"]
PLAN = {}
for p in "B01 B02 B04 B05 B06 B07".split():
    PLAN[p] = ("vbuf", N2, N2 + ["asan", "miri"])
PLAN["B03"] = ("vbuf", ["dev", "release", "asan", "miri"], ["dev", "release", "asan", "miri", "msan"])
PLAN["B08"] = ("vbuf", N2, N2)
PLAN["B09"] = ("vbuf", ["dev", "release", "asan", "miri"], ["dev", "release", "asan", "miri"])
PLAN["B10"] = ("vcost", ["callgrind"], ["callgrind"])
for p in "C01 C02 C03 C04 C05 C06".split():
    PLAN[p] = ("vcnt", N2, N2 + ["miri"])
for p in "D01 D02 D03 D05 D06".split():
    PLAN[p] = ("vdsu", N2, N2 + ["miri"])
PLAN["B11"] = ("vcost", ["callgrind"], ["callgrind"])
PLAN["C07"] = ("vcost", ["callgrind"], ["callgrind"])
PLAN["X02"] = ("vmem", N2, N2)
PLAN["D04"] = ("vdsu", N2 + ["callgrind"], N2 + ["callgrind"])
for i in range(1, 16):
    PLAN["I%02d" % i] = ("vint", N2, N2 + ["miri"])
PLAN["X01"] = ("vthr", ["dev", "release", "miri", "tsan"], ["dev", "release", "miri", "tsan"])
# Workload multiplier (percent) of the native quick tier, so that a quick check takes some ten seconds.
SCALE = {"vbuf": 1000, "vcnt": 300, "vdsu": 500, "vint": 400, "vthr": 200, "vmem": 1000}
FAULTS = {"B09", "C06", "D06", "I15"}
SHARDS = 8

RULE = {
    "vbuf": "exhaustive small scopes (every capacity, storage offset, length, operation) and seeded random operation histories over many element types, executed on the real buffer and on a bounded-deque model with all views compared after each step; evaluations = operations executed under the monitor; distinct = different (capacity, storage offset, length, operation, element type) states met",
    "vcnt": "seeded random histories of counter operations over many key types and hashers, compared with a reference multiset after each step; evaluations = operations executed under the monitor; distinct = different abstract counter states and operation contexts met",
    "vdsu": "enumerated short and seeded random long histories of disjoint-set operations over many key types and hashers, compared with a relabelling partition model; evaluations = operations executed under the monitor; distinct = different partitions met",
    "vint": "all pairs of intervals (or bounds) over tables of boundary values of many types, plus seeded random histories and arithmetic, judged by a point-run model of a dense line; evaluations = operations executed under the monitor; distinct = different operand combinations met",
    "vthr": "seeded programs of concurrent readers on shared instances, separate instances on separate threads and instances handed between threads, compared with models; run natively and under race detectors; evaluations = operations executed by the threads; distinct = different (operation, instance shape) and digests met",
    "vmem": "seeded random histories of operations on all collections, and repeated workloads that store nothing new, under an allocator that meters the bytes held by library calls; evaluations = operations executed under the monitor; distinct = different (operation, sizes, number of instances) contexts met",
    "vcost": "exact instruction counts (callgrind) of operation batches at small and very large sizes, for every operation, storage offset, fill level and union shape; evaluations = batches measured; distinct = different (operation, configuration, size) batches",
}


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def src_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(H, "src")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(H, "Cargo.toml")):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def cargo(engine):
    """(command prefix, environment, directory of the binaries)"""
    env = dict(ENV)
    if engine == "dev":
        env["CARGO_TARGET_DIR"] = TARGET
        return ["cargo", "build", "--offline"], env, TARGET + "/debug"
    if engine in ("release", "callgrind"):
        env["CARGO_TARGET_DIR"] = TARGET
        return ["cargo", "build", "--offline", "--release"], env, TARGET + "/release"
    env["CARGO_TARGET_DIR"] = f"{TARGET}/{engine}"
    if engine == "miri":
        return ["cargo", "+nightly", "miri", "run", "--offline", "-q"], env, None
    flag = {"asan": "address", "tsan": "thread", "msan": "memory"}[engine]
    env["RUSTFLAGS"] = f"-Zsanitizer={flag}" + (" -Zsanitizer-memory-track-origins" if engine == "msan" else "")
    cmd = ["cargo", "+nightly", "build", "--offline", "--target", TRIPLE]
    if engine != "asan":
        cmd += ["-Zbuild-std"]
    return cmd, env, f"{TARGET}/{engine}/{TRIPLE}/debug"


def build(engine, binary):
    cmd, env, d = cargo(engine)
    env = dict(env)
    # never trust time stamps: a changed source forgets the old artefacts
    stamp = os.path.join(env["CARGO_TARGET_DIR"], ".src-" + engine)
    now = src_hash()
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    if not os.path.exists(stamp) or open(stamp).read() != now:
        if os.path.exists(stamp):
            os.remove(stamp)
        for sub in ("debug", "release", f"{TRIPLE}/debug", f"miri/{TRIPLE}/debug"):
            fp = os.path.join(env["CARGO_TARGET_DIR"], sub, ".fingerprint")
            if os.path.isdir(fp) and (engine in ("release", "callgrind")) == (sub == "release"):
                for x in os.listdir(fp):
                    if x.startswith(("advanced_collections-", "vh-")):
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    if engine == "miri":
        return None  # built by the first run
    r = subprocess.run(cmd + (["--bin", binary] if binary else []), cwd=H, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer(f"building {binary} for {engine} failed:\n{r.stdout[-4000:]}")
    open(stamp, "w").write(now)
    return os.path.join(d, binary or "")


CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT, signal.SIGTRAP}
SAN = re.compile(r"(?:ERROR|WARNING): (AddressSanitizer|ThreadSanitizer|MemorySanitizer): ?([^\n]*)")


def job_cmd(engine, exe, prop, seed, tier, shard, shards, scale, out, only=None):
    a = ["--prop", prop, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--shards", str(shards),
         "--scale", str(scale), "--out", out, "--repo", REPO]
    if only:
        a += ["--only", only]
    cmd, env, _ = cargo(engine)
    env = dict(env)
    if engine == "miri":
        env["MIRIFLAGS"] = ("" if shard % 2 == 0 else "-Zmiri-tree-borrows ") + f"-Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-seed={seed * 1000 + shard}"
        return cmd + ["--bin", exe, "--"] + a + ["--mode", "miri"], env
    if engine == "asan":
        env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:exitcode=66:allocator_may_return_null=1:symbolize=0"
    if engine == "tsan":
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:symbolize=0"
    if engine == "msan":
        env["MSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:symbolize=0"
    return [exe] + a, env


def run_job(job, deadline, stop=None):
    """Runs one process. Fills job['res']."""
    engine, out = job["engine"], job["out"]
    cmd, env = job["cmd"], job["env"]

    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if engine in ("dev", "release"):
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

    t0 = time.time()
    with open(out + ".log", "wb") as lf:
        p = subprocess.Popen(cmd, cwd=H, env=env, stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT,
                             preexec_fn=limits, start_new_session=True)
        rc, stopped = None, False
        while rc is None and time.time() < deadline and not stopped:
            try:
                rc = p.wait(0.2 if time.time() - t0 < 5 else 1)
            except subprocess.TimeoutExpired:
                stopped = stop is not None and stop.is_set()
        if rc is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    if stopped and rc is None:
        return  # another shard has already found a violation
    text = open(out + ".log", errors="replace").read()
    res = {"rc": rc, "wall": time.time() - t0, "kind": "error", "message": "", "where": ""}
    job["res"] = res
    j = None
    if engine == "miri":
        m = re.findall(r"^@result (\{.*\})$", text, re.M)
        if m:
            j = json.loads(m[-1])
        w = re.findall(r"^@case (.*)$", text, re.M)
        res["where"] = w[-1] if w else ""
    else:
        if os.path.exists(out + ".json"):
            j = json.load(open(out + ".json"))
        if os.path.exists(out + ".cur"):
            res["where"] = open(out + ".cur", errors="replace").read().strip()
    if rc is None:
        res["message"] = "time limit of the whole check reached"
    elif j and j["status"] == "ok" and rc == 0:
        res.update(kind="ok", data=j)
    elif j and j["status"] == "violation":
        res.update(kind="violation", message=j["message"], where=f"{j['phase']}:{j['case']}", trace=j.get("trace", ""))
    elif j and j["status"] == "error":
        res["message"] = "harness error: " + j["message"]
    else:
        m = SAN.search(text)
        if m and rc == 66 or m and rc == -signal.SIGABRT:
            if re.search("allocation-size-too-big|out-of-memory|failed to allocate|calloc-overflow", m[0] + m[2]):
                res["message"] = m[0]
            else:
                res.update(kind="violation", message=m[0], trace=text[m.start():m.start() + 3000])
        elif engine == "miri" and "error: Undefined Behavior" in text:
            i = text.index("error: Undefined Behavior")
            res.update(kind="violation", message=text[i:].split("\n")[0][:400], trace=text[i:i + 3000])
        elif engine == "miri" and ("error: abnormal termination" in text or "error: the evaluated program leaked" in text):
            i = text.index("error: ")
            res.update(kind="violation", message=text[i:].split("\n")[0][:400], trace=text[i:i + 3000])
        elif rc < 0 and -rc in CRASH:
            if res["where"]:
                res.update(kind="violation", message=f"the process died of {signal.Signals(-rc).name}", trace=text[-2000:])
            else:
                res["message"] = f"died of signal {-rc} before the first case: {text[-500:]}"
        else:
            res["message"] = f"exit {rc}: {text[-1500:]}"


def run_all(jobs, deadline, width):
    sem = threading.Semaphore(width)
    stop = threading.Event()

    def go(j):
        with sem:
            if stop.is_set():
                return
            run_job(j, deadline, stop)
            if j.get("res", {}).get("kind") == "violation":
                stop.set()
    ts = [threading.Thread(target=go, args=(j,)) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


# ---------------------------------------------------------------- cost rules
def cost_rules(prop, pieces):
    """pieces: list of (group, what, size, per-operation instructions). Yields (message, where)."""
    sizes = sorted({s for _, _, s, _ in pieces})
    by = {}
    for g, w, s, c in pieces:
        by.setdefault(g, {}).setdefault(s, []).append((c, w))
    for g, m in sorted(by.items()):
        if sizes[0] not in m or sizes[1] not in m:
            continue  # not measured completely
        small = max(c for c, _ in m[sizes[0]])
        second = max(c for c, _ in m[sizes[1]])
        for s in sorted(m)[1:]:
            if prop == "B10":
                limit = 1.5 * small + 16
            elif prop == "B11":
                limit = 2 * small + 60
            elif prop == "C07":
                if "listing" in g:
                    limit = 1.5 * second * math.log2(s) / math.log2(sizes[1]) + 100
                elif g in ("add existing", "look up", "sizes", "compare with few"):
                    limit = 1.25 * small + 30
                else:
                    limit = 1.5 * max(small, second) + 100
            elif g in ("repeated query", "repeated union"):
                limit = 1.1 * small + 24
            elif g == "add existing" or g == "sizes":
                limit = 1.25 * small + 24
            elif g == "cold query":
                limit = 1.5 * second + 60 * math.log2(s)
            else:
                limit = 1.5 * second + 150
            worst, w = max(m[s])
            if worst > limit:
                base = sizes[0] if prop in ("B10", "B11") or g in ("repeated query", "repeated union", "add existing", "sizes") else sizes[1]
                yield (f"[{prop}] {g}: {worst:.0f} instructions per operation with {s} elements ({w}), at most {limit:.0f} expected "
                       f"from the cost with {base}"), f"{g}/{w}/{s}"


SIZES = {("B10", "quick"): [64, 1024, 32768], ("B10", "thorough"): [64, 1000, 4096, 65536, 1 << 20],
         ("B11", "quick"): [64, 1024, 32768], ("B11", "thorough"): [64, 1000, 4096, 65536, 1 << 18],
         ("C07", "quick"): [64, 1024, 16384], ("C07", "thorough"): [64, 1024, 16384, 1 << 18],
         ("D04", "quick"): [2, 16, 1024, 32768], ("D04", "thorough"): [2, 16, 1024, 1 << 15, 1 << 18]}


def run_callgrind(prop, seed, tier, deadline):
    """Measures one size after the other, smallest first, and stops as soon as a rule is broken."""
    exe = build("callgrind", "vcost")
    pieces, err = [], []
    for k, size in enumerate(SIZES[prop, tier]):
        got, err = callgrind_stage(exe, prop, seed, tier, size, deadline)
        pieces += got
        if err or k >= (2 if prop == "D04" else 1) and list(cost_rules(prop, pieces)):
            break
    return pieces, err


def callgrind_stage(exe, prop, seed, tier, size, deadline):
    shards = {"B10": 9, "B11": 4, "C07": 6}.get(prop, 10)
    jobs = []
    for k in range(shards):
        d = f"{OUT}/{prop}.cg{k}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        c, env = job_cmd("callgrind", exe, prop, seed, tier, k, shards, 100, f"{d}/p")
        cmd = ["valgrind", "--tool=callgrind", "--instr-atstart=no", "--main-stacksize=67108864", f"--callgrind-out-file={d}/cg"] + c + ["--sizes", str(size)]
        jobs.append({"engine": "callgrind", "out": f"{d}/p", "cmd": cmd, "env": env, "dir": d})
    pieces, err = [], []

    def go(j):
        with open(j["out"] + ".log", "wb") as lf:
            p = subprocess.Popen(j["cmd"], env=j["env"], stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
        log_text = open(j["out"] + ".log", errors="replace").read()
        if rc != 0 or not os.path.exists(j["out"] + ".pieces"):
            err.append((rc, f"with {size} elements: " + log_text[-1500:]))
        # what was measured counts even if the run did not get to its end
        lines = open(j["out"] + ".pieces").read().split("\n")[:-1] if os.path.exists(j["out"] + ".pieces") else []
        for l in lines:
            i, g, w, s, per = l.split("\t")
            f = f"{j['dir']}/cg.{int(i) + 1}"
            head = open(f).read(4000) if os.path.exists(f) else ""
            m = re.search(r"^summary: (\d+)", head, re.M)
            if f"piece{i}" not in head or not m:
                err.append((rc, f"dump {f} is not piece {i}"))
                return
            pieces.append((g, w, int(s), int(m[1]) / int(per)))
        shutil.rmtree(j["dir"], ignore_errors=True)
    ts = [threading.Thread(target=go, args=(j,)) for j in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return pieces, err


# ---------------------------------------------------------------- one check
def known(prop):
    f = os.path.join(V, "known_findings.txt")
    v = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m[1] == prop:
                v.append((m[2], m[3]))
    return v


def check(prop, tier, seed):
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 5 * 3600)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    ev = f"{V}/evidence/{prop}.json"
    if os.path.exists(ev):
        os.remove(ev)
    binary, quick, thorough = PLAN[prop]
    engines = quick if tier == "quick" else thorough
    viol, errors, oks, covered = [], [], [], {}
    pieces = []
    for engine in engines:
        if viol:
            break
        e0 = time.time()
        try:
            if engine == "callgrind":
                pieces, errs = run_callgrind(prop, seed, tier, deadline)
                for rc, e in errs:
                    if rc is not None and rc < 0 and -rc in CRASH or re.search(r"SIGSEGV|SIGBUS|SIGABRT|Stack overflow", e):
                        viol.append({"engine": engine, "message": f"[{prop}] the measured program crashed: {e[-600:]}", "where": "crash"})
                    elif "panicked at /repo" in e or f"panicked at {REPO}" in e:
                        viol.append({"engine": engine, "message": f"[{prop}] panic while measuring: {e[-600:]}", "where": "panic"})
                    else:
                        errors.append(f"callgrind: exit {rc}: {e}")
                if not viol and len({p[2] for p in pieces}) > 1:
                    for msg, where in cost_rules(prop, pieces):
                        viol.append({"engine": engine, "message": msg, "where": where})
                covered[engine] = {"batches": len(pieces), "wall_s": round(time.time() - e0, 1)}
                continue
            exe = build(engine, binary)
        except NoAnswer as e:
            errors.append(str(e))
            continue
        n = SHARDS
        scale = SCALE.get(binary, 100) if tier == "quick" else 100
        if engine in ("asan", "msan", "tsan"):
            scale = 25 if tier == "quick" else 20
        if engine == "miri":
            scale = 100
            exe = binary
        jobs = []
        for k in range(n):
            out = f"{OUT}/{prop}.{engine}.{k}"
            for x in (".json", ".states", ".cur", ".log"):
                if os.path.exists(out + x):
                    os.remove(out + x)
            cmd, env = job_cmd(engine, exe, prop, seed, tier, k, n, scale, out)
            jobs.append({"engine": engine, "out": out, "cmd": cmd, "env": env, "shard": k, "scale": scale})
        run_all(jobs, deadline, SHARDS)
        agg = {"cases": 0, "operations": 0, "oracle_checks": 0, "wall_s": 0}
        for j in jobs:
            r = j.get("res")
            if r is None:
                continue
            if r["kind"] == "ok":
                d = r["data"]
                oks.append((engine, j, d))
                agg["cases"] += d["cases"]
                agg["operations"] += d["evals"]
                agg["oracle_checks"] += d["checks"]
                if d.get("capped"):
                    agg["stopped_early_by_time"] = True
            elif r["kind"] == "violation":
                viol.append({"engine": engine, "message": r["message"], "where": r["where"], "trace": r.get("trace", ""), "shard": j["shard"], "scale": j["scale"]})
            else:
                errors.append(f"{engine} shard {j['shard']}: {r['message']}")
        agg["wall_s"] = round(time.time() - e0, 1)
        covered[engine] = agg
        if not viol and not errors and agg["operations"] == 0:
            errors.append(f"{engine}: nothing was observed")

    # known findings do not count as violations
    rest, listed = [], known(prop)
    for v in viol:
        k = next((d for m, d in listed if re.search(m, v["message"])), None)
        if k:
            log(f"KNOWN-FINDING: property={prop} {k}")
        else:
            rest.append(v)
    viol = rest

    states, ops, phases, foreign, samples = set(), {}, {}, {}, []
    evals = 0
    for engine, j, d in oks:
        evals += d["evals"]
        for k, v in d["ops"].items():
            ops[k] = ops.get(k, 0) + v
        for k, v in d["phases"].items():
            k = k.split("/")[0]
            phases[k] = phases.get(k, 0) + v
        for k, v in d["foreign"].items():
            foreign[k] = foreign.get(k, 0) + v
        if len(samples) < 6:
            samples += [f"[{engine}] {s[:500]}" for s in d["samples"][:1]]
        f = j["out"] + ".states"
        if os.path.exists(f):
            b = open(f, "rb").read()
            states.update(b[i:i + 8] for i in range(0, len(b), 8))
    distinct = len(states)
    evals += len(pieces)
    distinct += len({(g, w, s) for g, w, s, _ in pieces})
    if pieces:
        for p in (pieces[0], pieces[len(pieces) // 2], pieces[-1]):
            samples.append(f"[callgrind] {p[0]}, {p[1]}, size {p[2]}: {p[3]:.1f} instructions per operation")
    cov = {
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": RULE[binary] + ("; " + RULE["vcost"] if pieces and binary != "vcost" else ""),
        "samples": samples or [v["message"][:500] for v in viol] or ["none"],
        "engines": covered, "operations_by_kind": ops, "cases_by_phase": phases,
        "mismatches_belonging_to_other_properties": foreign,
    }
    if pieces:
        c = {}
        for g, w, s, x in pieces:
            k = c.setdefault(g, {}).setdefault(str(s), [x, x])
            k[0], k[1] = min(k[0], round(x, 1)), max(k[1], round(x, 1))
        cov["instructions_per_operation_min_max"] = {g: {s: [round(a, 1), round(b, 1)] for s, (a, b) in m.items()} for g, m in c.items()}
    e = {"property": prop, "tier": tier, "seed": seed, "level": "fault_enumeration" if prop in FAULTS else "exploration",
         "coverage": cov, "assumptions": [
             "the property is decided only on the executions counted here",
             "the reference models in /verif/harness, rustc, std and the sanitizers are trusted"],
         "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(e, open(ev, "w"), indent=1)

    if viol:
        v = viol[0]
        rp = f"{OUT}/{prop}.replay.json"
        json.dump({"property": prop, "tier": tier, "seed": seed, "engine": v["engine"], "case": v["where"],
                   "shard": v.get("shard", 0), "scale": v.get("scale", 100), "message": v["message"], "trace": v.get("trace", "")[:20000],
                   "replay_cmd": f"python3 {V}/check.py --replay {rp}"}, open(rp, "w"), indent=1)
        log(f"{v['engine']} {v['where']}: {v['message'][:1500]}")
        log(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        for x in errors[:5]:
            log("ERROR", x[:3000])
        log(f"NO ANSWER property={prop}")
        return 3
    log(f"ok {prop} tier={tier} seed={seed}: {evals} operations observed, {distinct} distinct states, "
        + ", ".join(f"{k} {v['wall_s']}s" for k, v in covered.items()) + f", {time.time() - t0:.1f}s")
    return 0


def replay(f):
    r = json.load(open(f))
    prop, engine = r["property"], r["engine"]
    if engine == "callgrind":
        pieces, errs = run_callgrind(prop, r["seed"], r["tier"], time.time() + 3600)
        bad = [m for m, _ in cost_rules(prop, pieces)] or errs
        log("\n".join(str(b) for b in bad) or "not reproduced")
        return 1 if bad else 0
    binary = PLAN[prop][0]
    exe = build(engine, binary) or binary
    out = f"{OUT}/replay"
    for x in (".json", ".cur"):
        if os.path.exists(out + x):
            os.remove(out + x)
    cmd, env = job_cmd(engine, exe, prop, r["seed"], r["tier"], r["shard"], SHARDS, r["scale"], out, r["case"])
    j = {"engine": engine, "out": out, "cmd": cmd, "env": env}
    run_job(j, time.time() + 3600)
    log(json.dumps({k: v for k, v in j["res"].items() if k != "data"}, indent=1))
    return 1 if j["res"]["kind"] == "violation" else 0


def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        for e in ("dev", "release"):
            build(e, None)
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for i, x in enumerate(a):
        if x == "--tier":
            tier = a[i + 1]
        if x == "--seed":
            seed = int(a[i + 1])
    if prop not in PLAN:
        log("unknown property", prop)
        return 3
    try:
        return check(prop, tier, seed)
    except NoAnswer as e:
        log("ERROR", e)
        return 3


if __name__ == "__main__":
    sys.exit(main())
