#!/usr/bin/env python3
"""Deterministic-simulation checks for nova-simd.

  check.py run C01 [--tier quick|thorough]   decide one property on /repo's working tree
  check.py replay FILE                       re-execute a replay file
  check.py build                             compile every configuration (setup)
  check.py determinism [C01 ...]             run many seeds twice, at two worker counts, and diff the event digests

Exit codes: 0 held on everything explored, 1 violation (line VIOLATION property=<id> replay=<path>), 2 error of the check.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")
NCPU = max(1, min(8, os.cpu_count() or 1))

# the instruction-set configurations; the first three are the ones the repository's own tests are built in
CONFIGS = {
    "sse2":    ["-O1"],
    "sse41":   ["-O1", "-msse4.1"],
    "avx":     ["-O1", "-mavx"],
    "fma":     ["-O2", "-DNDEBUG", "-mavx2", "-mfma", "-ffp-contract=off"],
    "generic": ["-O1", "-U__SSE__", "-U__SSE2__"],
    "debug":   ["-O0"],
}
OFFICIAL = ("sse2", "sse41", "avx")
CPU_NEEDS = {"sse41": ["sse4_1"], "avx": ["avx"], "fma": ["avx2", "fma"]}

INST_FLAGS = ["-std=gnu++14", "-w", "-fsanitize=thread", "-fsanitize-coverage=trace-pc"]
WRAP = "-Wl," + ",".join("--wrap=" + s for s in
        "memcpy memmove memset".split())

# per property: configurations, seeded runs per configuration (quick / thorough) and wall-clock cap
PLAN = {
    "C01": dict(cfgs=["sse2", "sse41", "avx", "fma", "generic", "debug"], quick=20000, thorough=160000),
    "C02": dict(cfgs=["sse2", "sse41", "avx", "fma", "generic", "debug"], quick=60000, thorough=500000),
    "C03": dict(cfgs=["sse2", "sse41", "avx", "fma", "generic", "debug"], quick=14000, thorough=200000),
    "C04": dict(cfgs=["sse2", "sse41", "avx", "fma", "generic"], quick=24000, thorough=200000),
    "C05": dict(cfgs=["sse2", "sse41", "avx", "fma", "generic"], quick=20000, thorough=200000),
    "C06": dict(cfgs=["sse2", "sse41", "avx", "fma", "generic"], quick=40000, thorough=600000),
    "C07": dict(cfgs=["sse2", "sse41", "avx", "fma", "generic"], quick=40000, thorough=600000),
    "C08": dict(cfgs=["sse2", "sse41", "avx", "fma", "generic"], quick=40000, thorough=400000),
    "C09": dict(cfgs=["sse2", "sse41", "avx", "fma", "generic"], quick=32000, thorough=600000),
    "C10": dict(cfgs=["sse2", "sse41", "avx", "fma", "generic"], quick=48000, thorough=600000),
}
QUICK_CAP, THOROUGH_CAP = 240, 3000


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def fail(msg):
    log("ERROR:", msg)
    sys.exit(2)


def cpu_flags():
    try:
        m = re.search(r"^flags\s*:\s*(.*)$", open("/proc/cpuinfo").read(), re.M)
        return set(m.group(1).split()) if m else set()
    except OSError:
        return set()


def usable(cfg):
    f = cpu_flags()
    return not f or all(n in f for n in CPU_NEEDS.get(cfg, []))


# ------------------------------------------------------------------ building from /repo's working tree
def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "testsuite", "benchmarks"))
        for f in sorted(files):
            if f.endswith((".hpp", ".h", ".cpp", ".inl", ".ipp")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def dir_hash(d):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            h.update(f.encode() + b"\0" + open(os.path.join(root, f), "rb").read())
    return h.hexdigest()


def compile_one(job):
    out, cmd = job
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        os.replace(tmp, out)
    return out, r.returncode, r.stdout


def build(cfgs):
    """Returns {cfg: path of simhost} and a list of (cfg, reason) that could not be built."""
    th, sh = tree_hash(), dir_hash(SIM)
    inst = sorted(f for f in os.listdir(os.path.join(SIM, "inst")) if f.endswith(".cpp"))
    harness = sorted(f for f in os.listdir(SIM) if f.endswith(".cpp"))
    jobs, need, skipped = [], {}, []
    hk = hashlib.sha256(("h" + sh).encode()).hexdigest()[:16]
    hdir = os.path.join(BUILD, "h-" + hk)
    keep = {os.path.basename(hdir)}
    os.makedirs(hdir, exist_ok=True)
    for f in harness:
        o = os.path.join(hdir, f + ".o")
        if not os.path.exists(o):
            jobs.append((0, (o, ["g++", "-std=gnu++17", "-O2", "-Wall", "-c", os.path.join(SIM, f)])))
    for c in CONFIGS:
        d = os.path.join(BUILD, c + "-" + hashlib.sha256((th + sh + repr(CONFIGS[c]) + repr(INST_FLAGS)).encode()).hexdigest()[:16])
        keep.add(os.path.basename(d))
        if c not in cfgs:
            continue
        if not usable(c):
            skipped.append((c, "this CPU lacks " + ",".join(CPU_NEEDS[c])))
            continue
        need[c] = d
        os.makedirs(d, exist_ok=True)
        if os.path.exists(os.path.join(d, "simhost")):
            continue
        for f in inst:
            o = os.path.join(d, f + ".o")
            if not os.path.exists(o):
                heavy = 0 if f.startswith(("unroll", "ternary", "binary", "quat")) else 1
                jobs.append((heavy, (o, ["g++"] + INST_FLAGS + CONFIGS[c] + ["-I" + REPO, "-I" + os.path.join(SIM, "inst"), "-c", os.path.join(SIM, "inst", f)])))
    for e in os.listdir(BUILD):
        if e not in keep:
            shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
    bad = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for out, rc, text in ex.map(compile_one, [j for _, j in sorted(jobs, key=lambda x: (x[0], x[1][0]))]):
            if rc:
                bad.setdefault(os.path.basename(os.path.dirname(out)), []).append((out, text[-3000:]))
    if os.path.basename(hdir) in bad:
        fail("harness does not compile: " + bad[os.path.basename(hdir)][0][1])
    res = {}

    def link(c):
        d = need[c]
        exe = os.path.join(d, "simhost")
        if not os.path.exists(exe):
            cmd = ["g++", "-no-pie", "-Wl,-z,now,--allow-multiple-definition"] + [os.path.join(hdir, f + ".o") for f in harness] + [os.path.join(d, f + ".o") for f in inst if os.path.exists(os.path.join(d, f + ".o"))] + [WRAP, "-ldl", "-lpthread"]
            _, rc, text = compile_one((exe, cmd))
            if rc:
                fail("link failed: " + text[-2000:])
        return c, exe
    for c in list(need):
        b = bad.get(os.path.basename(need[c]), [])
        for out, text in b:      # a group of entry points that cannot be instantiated is left out, the others are still decided
            what = os.path.basename(out)[:-len(".cpp.o")]
            log("configuration %s, entry points %s do not compile, skipped:\n%s" % (c, what, text))
            skipped.append((c + "/" + what, "does not compile: " + text.strip().split("\n")[0][:200]))
        if b and not any(os.path.exists(os.path.join(need[c], f + ".o")) for f in inst):
            del need[c]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for c, exe in ex.map(link, list(need)):
            res[c] = exe
    return res, skipped


# ------------------------------------------------------------------ running
def clean_env(cpu=None):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C"}
    if cpu is not None:
        e["SIM_CPU"] = str(cpu)
    return e


def parse(out):
    r = {"faults": {}, "stat": {}, "viol": None, "msg": "", "err": None, "digest": None, "digests": []}
    for l in out.split("\n"):
        w = l.split(" ", 2)
        if w[0] == "STAT":
            r["stat"][w[1]] = int(w[2])
        elif w[0] == "FAULT":
            r["faults"][w[1]] = int(w[2])
        elif w[0] == "VIOL":
            r["viol"] = (int(w[1]), w[2])
        elif w[0] == "MSG":
            r["msg"] = l[4:]
        elif w[0] == "ERR":
            r["err"] = l[4:]
        elif w[0] == "DIGEST":
            r["digest"] = w[1]
        elif w[0] == "D":
            r["digests"].append(l)
    return r


def call(exe, args, cpu=None, timeout=None):
    try:
        p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=clean_env(cpu), timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return None, {"faults": {}, "stat": {}, "viol": None, "msg": "", "err": "timeout", "digest": None, "digests": []}
    return p.returncode, parse(p.stdout)


def free_cpus():
    try:
        c = sorted(os.sched_getaffinity(0))
    except AttributeError:
        c = list(range(NCPU))
    return c[:8] or [0]


def decide(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    exes, skipped = build(plan["cfgs"])
    tb = time.time() - t0
    log("built %s in %.1f s" % (",".join(exes), tb))
    if not exes:
        fail("nothing to run")
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cpus = free_cpus()
    per_cfg = plan[tier]
    cap = QUICK_CAP if tier == "quick" else THOROUGH_CAP
    deadline = time.time() + cap
    # shards: every configuration is cut into equal strided pieces, processed from a queue by one worker per cpu
    shards = []
    pieces = max(len(cpus), 8) * (1 if tier == "quick" else 8)
    for k in range(pieces):
        for c in exes:
            n = (per_cfg - k + pieces - 1) // pieces
            if n > 0:
                shards.append((c, k + 10000000 * list(CONFIGS).index(c), n, pieces))      # every configuration has its own seeds
    results, stop = [], [False]
    import queue, threading
    q = queue.Queue()
    for i, s in enumerate(shards):
        q.put((i, s))
    lock = threading.Lock()

    def worker(cpu):
        while True:
            try:
                i, (c, first, n, stride) = q.get_nowait()
            except queue.Empty:
                return
            left = deadline - time.time()
            if stop[0] or left < 1:
                continue
            pre = os.path.join(work, "s%d" % i)
            rc, r = call(exes[c], ["run", prop, c, seed, first, n, stride, "%.1f" % left, pre], cpu, left + 120)
            r.update(i=i, cfg=c, rc=rc, pre=pre)
            with lock:
                results.append(r)
                if rc != 0:
                    stop[0] = True
    ths = [threading.Thread(target=worker, args=(c,)) for c in cpus]
    [t.start() for t in ths]
    [t.join() for t in ths]
    results.sort(key=lambda r: r["i"])

    # determinism: a sample of the seeds again, in other processes on other cpus
    det = {"seeds_rerun": 0, "mismatches": 0}
    if not stop[0]:
        def again(k):
            c = list(exes)[k % len(exes)]
            pre = os.path.join(work, "d%d" % k)
            a = call(exes[c], ["run", prop, c, seed, k, 6, 997, 0, pre, "--digests"], cpus[k % len(cpus)], 300)[1]
            b = call(exes[c], ["run", prop, c, seed, k, 6, 997, 0, pre, "--digests"], cpus[(k + 3) % len(cpus)], 300)[1]
            return len(a["digests"]), a["digests"] != b["digests"] or not a["digests"]
        with cf.ThreadPoolExecutor(len(cpus)) as ex:
            for n, bad in ex.map(again, range(2 * len(exes))):
                det["seeds_rerun"] += n
                det["mismatches"] += bad
        if det["mismatches"]:
            fail("nondeterministic execution: the same seed gave two different event digests")

    errs = [r for r in results if r["rc"] not in (0, 1)]
    viols = [r for r in results if r["rc"] == 1 and r["viol"]]
    rcode, replay = 0, None
    if viols:
        viols.sort(key=lambda r: (r["viol"][0], r["cfg"]))
        for strict in (True, False):        # prefer a violation that repeats bit for bit
            for v in viols[:8]:
                replay = replay or confirm(prop, exes[v["cfg"]], v, seed, work, strict)
        if not replay:
            fail("violation of seed %d (%s) did not repeat" % (viols[0]["viol"][0], viols[0]["msg"]))
        rcode = 1
    elif errs:
        fail("simulation error in %s: %s (rc %s)" % (errs[0]["cfg"], errs[0]["err"], errs[0]["rc"]))

    write_evidence(prop, tier, seed, results, exes, skipped, t0, tb, rcode, det, work)
    shutil.rmtree(work, ignore_errors=True)
    if rcode:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    else:
        tot = sum(r["stat"].get("runs", 0) for r in results)
        print("OK property=%s runs=%d configurations=%s wall=%.1fs" % (prop, tot, ",".join(exes), time.time() - t0))
    sys.stdout.flush()
    sys.exit(rcode)


def confirm(prop, exe, v, seed, work, strict):
    """Gate: same seed again gives the same violation; the script replays in a fresh process; the minimised script too.
    Not strict: the code under test is itself nondeterministic; the script must violate the property again within a few replays."""
    src = v["pre"] + ".script"
    vs, cls = v["viol"]
    first = vs - seed * 1000000000
    if strict:
        _, again = call(exe, ["run", prop, v["cfg"], seed, first, 1, 1, 0, os.path.join(work, "again")], timeout=600)
        _, r1 = call(exe, ["replay", src], timeout=600)
        _, r2 = call(exe, ["replay", src], timeout=600)
        if again["viol"] != v["viol"] or not r1["viol"] or r1["viol"][1] != cls or r1["digest"] != r2["digest"] or r2["viol"] != r1["viol"]:
            log("violation of seed %d (%s) did not repeat exactly: %s / %s / %s" % (vs, v["msg"], again["msg"], r1["msg"], r2["msg"]))
            return None
    else:
        for _ in range(12):
            _, r1 = call(exe, ["replay", src], timeout=600)
            if r1["viol"]:
                break
        else:
            return None
    os.makedirs(REPLAYS, exist_ok=True)
    dst = os.path.join(REPLAYS, "%s-%s-%d.replay" % (prop, v["cfg"], vs))
    mini = os.path.join(work, "min.script")
    best, msg, dig = src, r1["msg"], r1["digest"]
    if strict:
        call(exe, ["min", src, mini, cls, 25], timeout=200)
    if strict and os.path.exists(mini):
        _, m1 = call(exe, ["replay", mini], timeout=600)
        _, m2 = call(exe, ["replay", mini], timeout=600)
        if m1["viol"] and m1["viol"][1] == cls and m1["digest"] == m2["digest"] and m1["viol"] == m2["viol"]:
            best, msg, dig = mini, m1["msg"], m1["digest"]
    with open(dst, "w") as f:
        f.write("# property %s, configuration %s (%s), seed %d\n# violation: %s: %s\n# digest %s\n# replay: python3 check.py replay <this file>\n" %
                (prop, v["cfg"], " ".join(CONFIGS[v["cfg"]]), vs, cls, msg, dig))
        if not strict:
            f.write("# the violation recurs but not bit for bit: the code under test is itself nondeterministic\n")
        f.write(open(best).read())
    log("violation: %s: %s" % (cls, msg))
    return os.path.relpath(dst, VERIF) if dst.startswith(VERIF + os.sep) else dst


REAL = ["every nova-simd header under test, compiled from /repo's working tree and executed natively", "libm, libc, C++ runtime", "the CPU's SSE2/SSE4.1/AVX/FMA execution"]
STUB = ["thread scheduler (one parked thread released at a time at instrumented points)", "audio host / callers", "lock and one-time-initialisation blocking (modelled as yields)", "NEON and AltiVec back ends: not run (no such CPU)"]

RULES = {
    "C01": "one seed draws 2-4 tasks with 1-3 calls each (main entry point swept over the op table by seed), data, buffer packing and a schedule of slices; non-trivial: at least one task was suspended in the middle of a call while another ran; distinct by (calls, sizes, slice sequence)",
    "C02": "one seed draws 4-7 calls, each buffer on its own page run between unmapped pages, inputs write-protected; non-trivial: buffers border guard pages; distinct by (calls, sizes, offsets in page)",
    "C03": "one seed draws 1-2 tasks, a schedule and a kill/restart plan; every step of every call is a crash point at which all outputs are inspected; non-trivial: a call was suspended or killed half way; distinct by (calls, sizes, slices)",
    "C04": "one seed draws 2-4 tasks with hostile sample data; peers are stopped forever at drawn points; non-trivial: a peer was stalled or suspended inside a call; distinct by (calls, sizes, slices)",
    "C05": "one seed draws 2-3 tasks, each with its own rounding / flush-to-zero / denormals-are-zero mode; the control state is inspected at every step; non-trivial: different modes and a mid-call switch; distinct by (calls, sizes, slices, modes)",
    "C06": "one seed draws 1-4 meter voices, a data class and a history of blocks (size, scalar/SIMD form, reset, lost block, snapshot/crash/restore of the meter cells) interleaved by the scheduler; non-trivial: at least two blocks with more than one form or size; distinct by (calls, sizes, faults)",
    "C07": "one seed draws ramped operations (swept over the op table), operand positions, start/slope and a history of block sizes, forms, lost and retargeted blocks; non-trivial: at least two blocks or a long one; distinct by (calls, sizes, faults)",
    "C08": "one seed draws one arena and a history of memory operations on abutting, shifted and reused regions with hostile bit patterns; non-trivial: at least three operations; distinct by (calls, sizes, offsets)",
    "C09": "one seed draws operations (swept over the op table), a partition into blocks, placements, forms and corrupted neighbours, and compares each sample with the same sample processed on its own; non-trivial: at least two partitions or placements compared; distinct by (calls, sizes, offsets)",
    "C10": "one seed draws an operation (swept over the op table), operands weighted towards branch points, and a history of form switches; non-trivial: at least two forms used; distinct by (calls, sizes, forms)",
}


def write_evidence(prop, tier, seed, results, exes, skipped, t0, tb, rcode, det, work):
    st, fl, percfg, seen = {}, {}, {}, set()
    traces = set()
    samples = []
    for r in results:
        for k, v in r["stat"].items():
            st[k] = max(st.get(k, 0), v) if k == "ops" else st.get(k, 0) + v
        for k, v in r["faults"].items():
            fl[k] = fl.get(k, 0) + v
        percfg[r["cfg"]] = percfg.get(r["cfg"], 0) + r["stat"].get("runs", 0)
        try:
            b = open(r["pre"] + ".traces", "rb").read()
            traces.update((r["cfg"], x) for x in struct.unpack("<%dQ" % (len(b) // 8), b))
            seen.update((r["cfg"], x) for x in open(r["pre"] + ".seen").read().split())
            if len(samples) < 2:
                s = open(r["pre"] + ".sample").read()
                if s:
                    samples.append({"configuration": r["cfg"], "script": s.split("\n")[:40]})
        except OSError:
            pass
    wall = time.time() - t0
    sim_wall = max(0.001, wall - tb)
    runs = st.get("runs", 0)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(traces),
        "rule": RULES.get(prop, ""),
        "samples": samples or [{"note": "no run completed"}],
        "oracle_checks": st.get("checks", 0),
        "nontrivial_runs": st.get("nontrivial", 0),
        "library_calls_executed": st.get("calls", 0),
        "process_images_forked": st.get("processes", 0),
        "runs_per_hour": int(runs / sim_wall * 3600),
        "seeds_per_hour": int(runs / sim_wall * 3600),
        "simulated_time": {"scheduler_steps": st.get("steps", 0), "audio_samples": st.get("samples", 0), "audio_seconds_at_48kHz": round(st.get("samples", 0) / 48000.0, 3)},
        "context_switches": st.get("switches", 0),
        "fault_kinds_injected": fl,
        "distinct_interleavings_measure": "distinct (calls, sizes, schedule/placement) signatures among non-trivial runs",
        "runs_per_configuration": percfg,
        "configurations_skipped": [{"configuration": c, "reason": w} for c, w in skipped],
        "entry_points_exercised": len(seen),
        "entry_points_total": st.get("ops", 0) * len(exes),
        "determinism": det,
        "components_real": REAL,
        "components_stubbed": STUB,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": ["callers honour the documented preconditions: n >= 1, alignment and length granularity of the SIMD variants",
                          "scheduling points are the compiler-visible memory accesses and basic blocks of the library code; libm runs atomically",
                          "x86-64 back ends only"],
          "violations": rcode}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def replay(path):
    cfg = None
    for l in open(path):
        if l.startswith("cfg "):
            cfg = l.split()[1]
    if cfg not in CONFIGS:
        fail("not a replay file: " + path)
    exes, skipped = build([cfg])
    if cfg not in exes:
        fail("configuration %s not available: %s" % (cfg, skipped))
    rc, r = call(exes[cfg], ["replay", path], timeout=900)
    print("digest", r["digest"])
    if rc == 1:
        prop = next(l.split()[1] for l in open(path) if l.startswith("prop "))
        print("%s: %s" % (r["viol"][1], r["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif rc == 0:
        print("no violation")
    else:
        print("error:", r["err"])
    sys.exit(rc if rc in (0, 1) else 2)


def determinism(props):
    exes, _ = build(list(CONFIGS))
    bad = n = 0
    cpus = free_cpus()
    jobs = [(p, c, s) for p in props for c in PLAN[p]["cfgs"] if c in exes for s in range(12)]
    for width in (len(cpus), 3):
        def one(j):
            p, c, s = j
            out = []
            for k in range(2):
                pre = os.path.join(BUILD, "det-%s-%s-%d-%d" % (p, c, s, k))
                _, r = call(exes[c], ["run", p, c, 7, s, 12, 41, 0, pre, "--digests"], cpus[(s + k) % len(cpus)], 900)
                out.append(r["digests"])
                for suf in (".traces", ".sample", ".seen", ".script"):
                    if os.path.exists(pre + suf):
                        os.remove(pre + suf)
            return j, out[0]
        with cf.ThreadPoolExecutor(width) as ex:
            res = dict(ex.map(one, jobs))
        if width == len(cpus):
            ref = res
        for j in jobs:
            n += len(res[j])
            if res[j] != ref[j] or not res[j]:
                bad += 1
                print("MISMATCH", j)
    print("determinism: %d seed executions compared at two worker counts, %d mismatching shards" % (n, bad))
    sys.exit(2 if bad else 0)


def main():
    os.makedirs(BUILD, exist_ok=True)
    a = sys.argv[1:]
    if not a:
        fail(__doc__)
    if a[0] == "build":
        exes, skipped = build(list(CONFIGS))
        print("built", ",".join(exes), "skipped", skipped)
        return
    if a[0] == "replay":
        return replay(os.path.abspath(a[1]))
    if a[0] == "determinism":
        return determinism(a[1:] or list(PLAN))
    if a[0] == "run":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        if a[1] not in PLAN:
            fail("unknown property " + a[1])
        return decide(a[1], "thorough" if tier == "thorough" else "quick", seed)
    fail(__doc__)


if __name__ == "__main__":
    main()
