#!/usr/bin/env python3
"""Runs the monitors that decide one property: run.py PROPERTY, or run.py --replay FILE.

Builds the harness against /repo's working tree, runs the property's workloads
(natively under the monitors, under AddressSanitizer, under Miri), keeps what
concerns the property, shrinks and stores a failing case, writes the evidence.
Exit: 0 held on everything explored, 1 violated, 2 the check itself failed."""

import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
WORK = os.path.join(ROOT, "work")
TARGET = os.path.join(ROOT, "target")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
CORES = 8
T0 = time.time()

MIRI_BASE = "-Zmiri-tree-borrows -Zmiri-disable-isolation"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- builds

def cargo(args, target, env=None, tool=()):
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, target), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.run(["cargo", *tool, *args], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sim_build():
    """The sanitizer's instrumentation, with the harness's own runtime (sim.rs) in place of the sanitizer's."""
    flags = "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Zmerge-functions=disabled --cfg rcsv_sim"
    rc, out = cargo(["build", "--offline", "-q", "--release", "--bin", "rcsv", "--target", "x86_64-unknown-linux-gnu"], "sim", {"RUSTFLAGS": flags}, ("+nightly",))
    if rc == 0:
        # Its memory model has to give the known outcomes of known programs
        p = subprocess.run([os.path.join(TARGET, BIN["sim"]), "litmus"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rc, out = p.returncode, out + p.stdout
    return rc, out


BUILDS = {
    "debug": lambda: cargo(["build", "--offline", "-q", "--bin", "rcsv"], "native"),
    "release": lambda: cargo(["build", "--offline", "-q", "--release", "--bin", "rcsv"], "native"),
    "asan": lambda: cargo(["build", "--offline", "-q", "--bin", "rcsv", "--target", "x86_64-unknown-linux-gnu"], "asan",
                          {"RUSTFLAGS": "-Zsanitizer=address --cfg rcsv_noshadow"}, ("+nightly",)),
    "sim": lambda: sim_build(),
    "probe": lambda: cargo(["build", "--offline", "-q", "--bin", "probe"], "probe"),
    # Building and starting it once makes the parallel runs that follow start quickly
    "miri": lambda: cargo(["miri", "run", "--offline", "-q", "--bin", "rcsv", "--", "traits", "rc", "1", "1", "0"], "miri",
                          {"MIRIFLAGS": MIRI_BASE}, ("+nightly",)),
}


def forget_stale(which):
    """cargo goes by modification times; go by the contents of the files instead."""
    h = hashlib.sha256()
    for base in (os.path.join(ROOT, "..", "repo", "src"), HARNESS):
        for d, subs, files in sorted(os.walk(base)):
            subs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read())
    for f in ("Cargo.toml",):
        h.update(open(os.path.join(ROOT, "..", "repo", f), "rb").read())
    for w in which:
        t = {"debug": "native", "release": "native"}.get(w, w)
        stamp = os.path.join(TARGET, "stamp-" + w)
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h.hexdigest():
            for d, subs, files in os.walk(os.path.join(TARGET, t)):
                if os.path.basename(d) == ".fingerprint":
                    for x in subs:
                        if x.startswith(("rc_slice-", "rcsv-")):
                            shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                    subs[:] = []
            os.makedirs(TARGET, exist_ok=True)
            with open(stamp, "w") as f:
                f.write(h.hexdigest())


def build(which):
    if os.environ.get("RCSV_SKIP_BUILD"):
        return
    forget_stale(which)
    with cf.ThreadPoolExecutor(5) as ex:
        for w, (rc, out) in zip(which, ex.map(lambda w: BUILDS[w](), which)):
            if rc != 0 and not (w == "miri" and "@STATS" in out):
                if w == "miri" and ("Undefined Behavior" in out or "@FAIL" in out):
                    continue  # the workloads will report it
                log(out[-6000:])
                log("BUILD FAILED:", w)
                sys.exit(2)


BIN = {"sim": "sim/x86_64-unknown-linux-gnu/release/rcsv", "debug": "native/debug/rcsv", "release": "native/release/rcsv", "asan": "asan/x86_64-unknown-linux-gnu/debug/rcsv", "probe": "probe/debug/probe"}


def command(engine, args, miriflags=""):
    """Command line and environment for one run of the harness."""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    env.pop("RUSTFLAGS", None)
    if engine == "miri":
        env.update(CARGO_TARGET_DIR=os.path.join(TARGET, "miri"), MIRIFLAGS=(MIRI_BASE + " " + miriflags).strip())
        return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", "rcsv", "--", *args], env
    if engine == "asan":
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0"
    return [os.path.join(TARGET, BIN[engine]), *args], env


# ---------------------------------------------------------------- jobs

class Job:
    """A workload: `args` may contain {seed} and {secs}."""

    def __init__(self, engine, args, weight=1, share=1.0, miri="", label=None):
        self.engine, self.args, self.weight, self.share, self.miri = engine, args, weight, share, miri
        self.label = label or (engine + " " + " ".join(a for a in args if not a.startswith("{") and not a.isdigit()))


def seq(engine, profs, fams, items, share=1.0, ops=60, ln=64):
    return [Job(engine, ["seq", f, i, p, "{seed}", "100000000", str(ops), str(ln), "{secs}"], share=share) for p in profs for f in fams for i in items]


def conc(themes, share=1.0, engine="release", reps=2):
    return [Job(engine, ["conc", t, "{seed}", "100000000", str(reps), "{secs}"], weight=3, share=share) for t in themes]


def inj(themes, share=1.0, engine="release", reps=2):
    """Concurrent programs whose threads are preempted at chosen instructions."""
    return [Job(engine, ["inj", t, "{seed}", "100000000", str(reps), "{secs}"], weight=2, share=share) for t in themes]


def sim(themes, share=1.0, reps=24):
    """Concurrent programs on simulated threads: controlled schedules, race detection, weak memory."""
    return [Job("sim", ["sim", t, "{seed}", "100000000", str(reps), "{secs}"], share=share) for t in themes]


def reent(engine, fams, share=1.0, ops=40):
    return [Job(engine, ["reent", f, "{seed}", "100000000", str(ops), "{secs}"], share=share) for f in fams]


def extreme(engine, fams, items, share=1.0, ops=60):
    return [Job(engine, ["extreme", f, i, "{seed}", "100000000", str(ops), "{secs}"], share=share) for f in fams for i in items]


def traits(engine, fams, share=1.0):
    return [Job(engine, ["traits", f, "{seed}", "100000000", "{secs}"], share=share) for f in fams]


def mconc(themes, share=1.0):
    """Concurrent programs under Miri: races, weak memory, preemption at every basic block."""
    out = []
    for k, t in enumerate(themes):
        rate = ["0.02", "0.1", "0.3", "0.05"][k % 4]
        out.append(Job("miri", ["concfew", t, "{seed}", "100000000", "{secs}"], share=share, miri="-Zmiri-seed={ms} -Zmiri-preemption-rate=%s -Zmiri-disable-validation" % rate, label="miri concfew %s rate %s" % (t, rate)))
    return out


def mseq(profs, fams, items, share=1.0):
    """Histories under Miri; validity checks of every value triple the cost, so a third of the time goes to runs with them."""
    js = []
    for part, flag in ((0.34, ""), (0.66, " -Zmiri-disable-validation")):
        for j in seq("miri", profs, fams, items, share * part, ops=40, ln=12):
            j.miri = "-Zmiri-seed={ms}" + flag
            j.label += flag
            js.append(j)
    return js


RC, ARC, BOTH = ["rc"], ["arc"], ["rc", "arc"]
ALLP = ["base", "tree", "view", "parts", "grant", "weak", "mut", "iter", "panic"]
THEMES = ["all", "tree", "create", "getmut", "intomut", "weak", "mut", "reent"]

JOBS = {
    "C01": lambda: seq("debug", ["base", "tree", "weak", "grant", "mut", "iter", "parts"], RC, ["tok"]) + seq("debug", ["base", "tree"], RC, ["zst", "wide"]) + seq("release", ["base", "tree"], RC, ["tok"]) + reent("debug", RC, 2),
    "C02": lambda: seq("debug", ["base", "tree", "weak", "grant", "mut", "iter", "parts"], ARC, ["tok"]) + seq("debug", ["base"], ARC, ["zst", "wide"]) + reent("debug", ARC) + sim(["all", "tree", "create", "intomut", "mut", "weak", "getmut", "reent"], 2) + conc(["all", "create"]) + inj(["create"]) + mconc(["create", "mut"]),
    "C03": lambda: seq("debug", ["base", "tree", "mut", "iter", "parts"], BOTH, ["tok"]) + seq("debug", ["base"], BOTH, ["u64", "wide", "b3"]) + seq("debug", ["mut", "iter"], BOTH, ["u64"]) + reent("debug", BOTH) + sim(["all", "create", "intomut", "mut", "tree", "weak", "reent"]) + conc(["all"]),
    "C04": lambda: seq("debug", ["view", "tree"], BOTH, ["tok", "u64", "b3"]) + seq("release", ["view"], BOTH, ["wide", "u8"]) + sim(["create", "tree"]) + conc(["create"]),
    "C05": lambda: seq("debug", ["parts"], BOTH, ["tok", "u8", "zst", "unit", "b3"]) + seq("release", ["parts"], BOTH, ["tok", "u64"]) + extreme("debug", BOTH, ["unit", "u8"]) + extreme("release", BOTH, ["unit"]),
    "C06": lambda: seq("debug", ["grant", "weak", "base"], RC, ["tok", "u64", "zst"]) + seq("release", ["grant", "tree"], RC, ["tok"]) + reent("debug", RC) + mseq(["grant"], RC, ["tok"]),
    "C07": lambda: seq("debug", ["grant", "weak", "base"], ARC, ["tok"]) + seq("debug", ["grant"], ARC, ["u64", "zst"]) + sim(["getmut", "intomut", "weak", "all", "getmut", "intomut"], 3) + conc(["getmut", "intomut"]) + inj(["getmut", "intomut"]) + mconc(["getmut", "intomut", "all", "weak"], 2),
    "C08": lambda: seq("debug", ["weak", "grant", "base"], BOTH, ["tok"]) + seq("debug", ["weak"], BOTH, ["u64", "zst"]) + reent("debug", BOTH) + sim(["weak", "all", "weak", "intomut"], 3) + conc(["weak"]) + inj(["weak"]) + mconc(["weak", "weak", "intomut"]),
    "C09": lambda: seq("debug", ["mut"], BOTH, ["tok", "u64", "zst", "wide"]) + seq("release", ["mut"], BOTH, ["tok", "b3"]) + sim(["mut", "intomut"], 2) + conc(["mut"]) + mseq(["mut"], BOTH, ["tok"]),
    "C10": lambda: seq("debug", ["iter"], BOTH, ["tok", "u64", "zst", "wide", "b3"]) + seq("release", ["iter"], BOTH, ["tok"]) + extreme("release", BOTH, ["unit", "u8"]),
    "C11": lambda: traits("debug", BOTH) * 3 + traits("release", BOTH),
    "C12": lambda: seq("debug", ["panic"], BOTH, ["tok", "zst", "u64", "wide"]) + seq("release", ["panic"], BOTH, ["tok"]) + seq("debug", ["base", "iter"], BOTH, ["tok"]) + sim(["reent", "all"], 2) + mseq(["panic"], BOTH, ["tok"]),
    "C13": lambda: seq("debug", ["base", "parts", "iter", "grant"], BOTH, ["zst"]) + seq("debug", ["base", "mut"], BOTH, ["alignz", "unit"]) + extreme("debug", BOTH, ["unit", "alignz", "u8"]) + extreme("release", BOTH, ["unit", "alignz"]) + mseq(["base"], BOTH, ["alignz"]),
    "C14": lambda: mconc(["getmut", "all", "create", "intomut", "weak", "mut", "tree", "reent"], 4) + sim(THEMES, 4) + conc(["all"]) + conc(["all"], engine="asan") + inj(["all"], engine="asan"),
    "C15": lambda: [Job("probe", [], share=0.1, label="probe")],
    "C16": lambda: reent("debug", BOTH, 2) + reent("release", BOTH) + sim(["all", "create", "intomut", "weak", "reent"], 2) + conc(["all", "reent"]) + seq("debug", ["panic", "base"], BOTH, ["tok"]) + inj(["all"]) + mconc(["all", "reent", "weak"]) + mseq(["base"], ARC, ["tok"])
                   + [Job("miri", ["reent", f, "{seed}", "100000000", "25", "{secs}"], miri="-Zmiri-seed={ms}") for f in BOTH],
    "C17": lambda: mseq(["base", "tree", "parts", "grant", "mut", "iter", "panic", "weak"], BOTH, ["tok"], 2) + mseq(["base"], BOTH, ["u64", "zst", "wide"], 2)
                   + [Job("miri", ["reent", f, "{seed}", "100000000", "25", "{secs}"], share=2, miri="-Zmiri-seed={ms}") for f in BOTH]
                   + seq("asan", ["base", "iter", "mut", "parts", "tree"], BOTH, ["tok"]) + seq("asan", ["base"], BOTH, ["u8"]) + reent("asan", BOTH),
}

# Counters that must not be zero: the monitors have to have seen these happen
NEED = {
    "C01": ["op.CloneLeft", "op.SplitL", "op.DropS", "op.PNext", "ops-in-drop"], "C02": ["op.CloneLeft", "op.SplitL", "op.DropS", "ops-in-drop", "~interleaved"],
    "C03": ["op.DropS", "op.MSplitL", "op.IConsume", "~interleaved"], "C04": ["op.CloneRight", "op.SplitR"],
    "C05": ["op.PNext", "op.PNextBack", "op.PClone", "op.MPNext", "op.MPNextBack", "parts-exhausted"],
    "C06": ["get_mut-some", "get_mut-none-strong", "get_mut-none-weak", "into_mut-ok", "into_mut-err"], "C07": ["get_mut-some", "into_mut-ok", "into_mut-err", "get_mut-none", "~interleaved"],
    "C08": ["upgrade-some", "upgrade-none", "~interleaved"], "C09": ["op.MSplitL", "op.MIntoImmut", "op.MWrite", "op.MClone"], "C10": ["op.INext", "op.INextBack", "op.ISplitFrom", "op.ISplitTo"],
    "C11": [], "C12": ["op.ArmDrop", "op.ArmClone", "op.Invalid", "panicking-destructors"], "C13": ["op.SParts", "split_off_to"], "C14": ["~interleaved"], "C15": [], "C16": ["ops-in-drop", "ops-in-destructors", "~interleaved"], "C17": ["op.CloneLeft", "ops-in-drop"],
}

RULES = {
    "seq": "a history is a random tape of up to 60 operations (profile-weighted, with random subsets of operations left out) on up to 24 handles of one family and item type; two histories are distinct if the sequences of (operation, resulting arrangement of handles) differ; non-trivial means items were dropped in it (or, for items without drop, that it ran at least one operation)",
    "conc": "a program hands handles of one buffer to 2-3 threads with 1-5 operations each (in theme reent also up to 3 operations and 2 panics per thread inside destructors); an execution is identified by the program, the outcomes of fallible operations and the order in which the threads' stamps fell; executions are distinct if these differ (for simulated threads: if the program or the points at which threads took turns differ)",
    "reent": "a program acts on handles whose items' destructors themselves call the library; non-trivial means a destructor did act or an item owned a handle; distinct by sequence of (operation, nesting depth)",
    "extreme": "a random program over a buffer of up to usize::MAX zero-sized items or 2^18 bytes; non-trivial means at least 5 operations took effect; distinct by size and operation sequence",
    "traits": "a pair of item vectors over a small alphabet, each shown through several kinds of slices; non-trivial means one is not empty; distinct by item type and contents",
    "probe": "one (library type, kind of item, Send or Sync) combination",
}

QUICK_SECS = 40.0
THOROUGH_SECS = 560.0


class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.viol = []
        self.foreign = {}
        self.stats = {}      # engine label -> totals
        self.counts = {}
        self.sigs = {}       # engine -> set
        self.states = set()
        self.places = set()
        self.sets_extra = {}
        self.samples = []
        self.errors = []
        self.runs = 0
        self.rows = []


RES = Result()
STOP = threading.Event()


def seed_for(label, k, attempt):
    h = 1469598103934665603
    for ch in f"{SEED}/{label}/{k}/{attempt}":
        h = ((h ^ ord(ch)) * 1099511628211) & ((1 << 64) - 1)
    return h >> 8


def read_sigs(prefix):
    out = {}
    for kind in ("hist", "state", "conc", "reent", "extreme", "traits", "place"):
        p = f"{prefix}.{kind}"
        if os.path.exists(p):
            b = open(p, "rb").read()
            out[kind] = set(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
            os.unlink(p)
    return out


UB_RE = re.compile(r"(Undefined Behavior[^\n]*|error: memory leaked[^\n]*|error: the evaluated program (?:deadlocked|leaked)[^\n]*|error: deadlock[^\n]*|AddressSanitizer: [^\n]*|error: abnormal termination[^\n]*|error: the program aborted[^\n]*)")
UNSUP_RE = re.compile(r"error: (unsupported operation[^\n]*|resource exhaustion[^\n]*)")


def classify_crash(prop, job, rc, text):
    """A run that ended without a verdict of its own: (is a violation of this property, kind, message)"""
    m = UB_RE.search(text)
    if m:
        msg = m.group(1)
        where = re.findall(r"(/repo/src/[^\s:]+:\d+)", text[m.start():])
        if where:
            msg += " at " + where[0]
        return True, "UB", msg
    if UNSUP_RE.search(text):
        return False, "ERROR", UNSUP_RE.search(text).group(0)
    if rc < 0 and -rc in (4, 6, 7, 8, 11):
        return True, "CRASH", "the process died of signal %d" % -rc
    if rc in (134, 139, 136, 132, 135):
        return True, "CRASH", "the process died of signal %d" % (rc - 128)
    return False, "ERROR", "exit %d: %s" % (rc, text[-1500:])


def run_job(prop, job, k, secs, tmp):
    end = time.time() + secs
    attempt = 0
    while not STOP.is_set():
        left = end - time.time()
        if attempt > 0 and (left < 2 or attempt > 12):
            return
        s = max(1.0, left)
        seed = seed_for(job.label, k, attempt)
        prefix = os.path.join(tmp, f"{k}.{attempt}")
        args = [a.replace("{seed}", str(seed)).replace("{secs}", "%.1f" % s) for a in job.args]
        cmd, env = command(job.engine, args, job.miri.replace("{ms}", str(seed % 1000003)))
        env["RCSV_SIGS"] = prefix
        if job.engine == "miri":
            env["RCSV_PROGRESS"] = "1"
            env["RCSV_WATCH"] = "1"
        else:
            env["RCSV_PROGRESS"] = prefix + ".progress"
        attempt += 1
        limit = s * 2 + 180
        try:
            p = subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
            try:
                out, err = p.communicate(timeout=limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                out, err = p.communicate()
                with RES.lock:
                    RES.errors.append(f"{job.label}: no answer within {limit:.0f} s")
                return
        except OSError as e:
            with RES.lock:
                RES.errors.append(f"{job.label}: {e}")
            return
        verdict = None
        last_seed = None
        st = None
        for line in out.splitlines():
            if line.startswith("@FAIL "):
                v = json.loads(line[6:])
                if verdict is None or (prop in v["tags"] and prop not in verdict["tags"]):
                    verdict = v
            elif line.startswith("@STATS "):
                st = json.loads(line[7:])
            elif line.startswith("@SEED "):
                last_seed = line[6:].strip()
            elif line.startswith("@ROW "):
                with RES.lock:
                    RES.rows.append(json.loads(line[5:]))
        sg = read_sigs(prefix)
        with RES.lock:
            RES.runs += 1
            if st:
                t = RES.stats.setdefault(st["engine"] + "/" + job.engine, {"runs": 0})
                t["runs"] += 1
                for key, v in st.items():
                    if isinstance(v, int):
                        t[key] = t.get(key, 0) + v
                for key, v in st["counts"].items():
                    RES.counts[key] = RES.counts.get(key, 0) + v
                if "interleaved" in st:
                    RES.counts["~interleaved"] = RES.counts.get("~interleaved", 0) + st["interleaved"]
                if len(RES.samples) < 6:
                    RES.samples.append((job, seed))
            for kind, s_ in sg.items():
                if kind == "state":
                    RES.states |= s_
                elif kind == "place":
                    RES.places |= s_
                else:
                    RES.sigs.setdefault(kind, set()).update(s_)
        if not os.path.exists(prefix + ".progress"):
            pass
        elif last_seed is None:
            b = open(prefix + ".progress", "rb").read(8)
            if len(b) == 8:
                last_seed = str(struct.unpack("<Q", b)[0])
        if p.returncode == 0 and verdict is None:
            return
        if verdict and verdict.get("seed") == "0" and last_seed:
            verdict["seed"] = last_seed
        if verdict is None:
            if p.returncode == 66 or p.returncode == 64:
                with RES.lock:
                    RES.errors.append(f"{job.label}: {err[-500:]}")
                return
            hit, kind, msg = classify_crash(prop, job, p.returncode, err + "\n" + out)
            if not hit:
                with RES.lock:
                    RES.errors.append(f"{job.label}: {msg}")
                return
            verdict = {"kind": kind, "tags": [prop], "msg": msg, "engine": job.args[0] if job.args else "probe", "fam": job.args[1] if len(job.args) > 1 else "",
                       "item": job.args[2] if len(job.args) > 2 else "", "seed": last_seed or "0", "case": "", "detail": err[-6000:]}
        if prop in verdict["tags"]:
            if os.environ.get("RCSV_ALL_FAILS"):
                log("FAIL", job.label, verdict["kind"], verdict["msg"][:200])
            with RES.lock:
                RES.viol.append((job, seed, verdict, args))
            STOP.set()
            return
        with RES.lock:
            key = ",".join(verdict["tags"]) + ": " + verdict["kind"]
            RES.foreign[key] = RES.foreign.get(key, 0) + 1


def run_all(prop, jobs, total):
    """Share `total` seconds of wall time among the jobs, CORES at a time."""
    load = sum(j.weight * j.share for j in jobs)
    unit = total * CORES / load
    # No more than the whole time for one
    secs = {id(j): min(total, max(1.5, unit * j.share)) for j in jobs}
    tmp = os.path.join(WORK, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    free = [CORES]
    cond = threading.Condition()
    order = sorted(range(len(jobs)), key=lambda i: (-jobs[i].weight * secs[id(jobs[i])], i))
    threads = []

    def work(i):
        try:
            run_job(prop, jobs[i], i, secs[id(jobs[i])], tmp)
        except Exception as e:  # a bug here must not look like success
            with RES.lock:
                RES.errors.append(f"driver: {jobs[i].label}: {e!r}")
        finally:
            with cond:
                free[0] += jobs[i].weight
                cond.notify_all()

    pending = list(order)
    while pending and not STOP.is_set():
        with cond:
            pick = next((i for i in pending if jobs[i].weight <= free[0]), None)
            if pick is None:
                cond.wait(1)
                continue
            free[0] -= jobs[pick].weight
        pending.remove(pick)
        t = threading.Thread(target=work, args=(pick,))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()
    shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- replays

def replay_seq(engine, fam, item, text, prop, kind, timeout=20):
    cmd, env = command(engine, ["replay", fam, item, "-"])
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=env, input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return kind == "HANG"
    for line in p.stdout.splitlines():
        if line.startswith("@FAIL "):
            v = json.loads(line[6:])
            return prop in v["tags"] and v["kind"] == kind
    if kind in ("CRASH", "UB") and p.returncode not in (0, 3):
        return classify_crash(prop, None, p.returncode, p.stderr + p.stdout)[1] == kind
    return False


def shrink(engine, fam, item, text, prop, kind, budget):
    lines = [l for l in text.splitlines() if l.strip()]
    head, ops = lines[0], lines[1:]
    end = time.time() + budget
    test = lambda o: time.time() < end and replay_seq(engine, fam, item, "\n".join([head] + o) + "\n", prop, kind)
    if kind == "HANG" or not test(ops):
        return text
    n = 2
    while len(ops) > 1 and time.time() < end:
        size = max(1, len(ops) // n)
        for i in range(0, len(ops), size):
            cand = ops[:i] + ops[i + size:]
            if cand and test(cand):
                ops, n = cand, max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    return "\n".join([head] + ops) + "\n"


def case_text(job, verdict):
    """The tape of a sequential history, regenerated from its seed if need be."""
    if verdict.get("case"):
        return verdict["case"]
    a = job.args
    cmd, env = command("debug" if os.path.exists(os.path.join(TARGET, BIN["debug"])) else job.engine, ["show", a[3], verdict["seed"], a[6], a[7]])
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return "\n".join(l for l in p.stdout.splitlines() if not l.startswith("@"))


def write_replay(prop, job, seed, verdict, args):
    d = os.path.join(WORK, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, verdict["engine"], int(time.time() * 1000) % 10**9))
    doc = {"property": prop, "engine": job.engine, "workload": job.args[0] if job.args else "probe", "label": job.label, "kind": verdict["kind"], "message": verdict["msg"],
           "miriflags": job.miri.replace("{ms}", str(seed % 1000003)), "case_seed": verdict["seed"], "run_args": args, "tier": TIER, "verif_seed": SEED}
    if verdict.get("detail"):
        doc["detail"] = verdict["detail"]
    try:
        if doc["workload"] == "seq":
            text = case_text(job, verdict)
            text = shrink(job.engine, job.args[1], job.args[2], text, prop, verdict["kind"], 25 if job.engine != "miri" else 60)
            doc.update(fam=job.args[1], item=job.args[2], case=text)
            cmd, env = command(job.engine, ["replay", job.args[1], job.args[2], "-"])
            env["RCSV_TRACE"] = "1"
            p = subprocess.run(cmd, cwd=HARNESS, env=env, input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60)
            doc["trace"] = p.stdout.splitlines()[-200:]
        else:
            doc["case"] = verdict.get("case", "")
    except Exception as e:
        doc["note"] = "shrinking failed: %r" % e
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path, doc


def exact_args(doc):
    """Arguments that run only the failing case."""
    a, w, s = doc["run_args"], doc["workload"], doc["case_seed"]
    if w == "reent":
        return ["reent", a[1], s, "1", a[4], "0", "exact"]
    if w == "extreme":
        return ["extreme", a[1], a[2], s, "1", a[5], "0", "exact"]
    if w == "traits":
        return ["traits", a[1], s, "1", "0", "exact"]
    if w == "sim":
        return ["sim", a[1], s, "1", a[4], "0", "exact"]
    if w in ("conc", "inj"):
        return [w, a[1], s, "100000000", a[4], "60", "exact"]  # the same program until it fails again
    return a  # interpreter: the run that found it, which is deterministic


def do_replay(path):
    doc = json.load(open(path))
    build([doc["engine"]])
    if doc["workload"] == "seq":
        cmd, env = command(doc["engine"], ["replay", doc["fam"], doc["item"], "-"], doc["miriflags"])
        inp = doc["case"]
    else:
        cmd, env = command(doc["engine"], exact_args(doc), doc["miriflags"])
        inp = None
    env["RCSV_TRACE"] = "1"
    p = subprocess.run(cmd, cwd=HARNESS, env=env, input=inp, text=True)
    sys.exit(1 if p.returncode != 0 else 0)


# ---------------------------------------------------------------- findings and evidence

def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            m = re.match(r"known: property=(C\d\d) match=/(.*)/ (.*)", l)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def samples():
    out = []
    for job, seed in RES.samples:
        e = {"workload": job.label, "seed": seed}
        try:
            a = job.args
            if a and a[0] == "seq" and os.path.exists(os.path.join(TARGET, BIN["debug"])):
                cmd, env = command("debug", ["show", a[3], str(seed), a[6], a[7]])
                tape = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=env, timeout=20).stdout
                cmd, env = command("debug", ["replay", a[1], a[2], "-"])
                env["RCSV_TRACE"] = "1"
                e["history"] = subprocess.run(cmd, input=tape, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, timeout=20).stdout.splitlines()[:40]
            elif a and a[0] in ("conc", "concfew", "inj", "sim"):
                b = "release" if os.path.exists(os.path.join(TARGET, BIN["release"])) else None
                if b:
                    cmd, env = command(b, ["showconc", a[1], str(seed)])
                    e["program"] = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=env, timeout=20).stdout.splitlines()
            elif a and a[0] in ("reent", "extreme"):
                ex = exact_args({"run_args": a, "workload": a[0], "case_seed": str(seed)})
                if os.path.exists(os.path.join(TARGET, BIN["debug"])):
                    cmd, env = command("debug", ex)
                    env["RCSV_TRACE"] = "1"
                    e["program"] = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=env, timeout=20).stdout.splitlines()[:60]
        except Exception as x:
            e["note"] = repr(x)
        out.append(e)
    for r in RES.rows[:12]:
        out.append(r)
    return out


def evidence(prop, nviol, known_hits):
    evals = sum(t.get("histories", 0) + t.get("programs", 0) for t in RES.stats.values())
    distinct = sum(len(s) for s in RES.sigs.values())
    engines = sorted({k.split("/")[0] for k in RES.stats})
    if engines == ["probe"]:
        distinct = sum(t.get("sigs", 0) for t in RES.stats.values()) * 2
    cov = {
        "evaluations": evals, "distinct_nontrivial": min(distinct, evals),
        "rule": "; ".join("%s: %s" % (e, RULES[e]) for e in engines),
        "samples": samples(),
        "by_engine": RES.stats, "observed": dict(sorted(RES.counts.items())),
        "distinct_arrangements_of_handles": len(RES.states), "distinct_instructions_preempted_at": len(RES.places), "runs": RES.runs,
        "failures_of_other_properties": RES.foreign, "known_findings_hit": known_hits, "inconclusive": RES.errors[:10],
    }
    doc = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
           "assumptions": ["monitored executions only: histories, schedules and sizes outside those run are not covered",
                           "native runs on x86-64 show no weaker memory orders than TSO; the simulated threads and Miri, which model weaker ones, cover the rest for the programs they ran"],
           "wall_s": round(time.time() - T0, 1), "violations": nviol}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        do_replay(sys.argv[2])
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        build(["debug", "release", "asan", "sim", "probe", "miri"])
        return
    prop = sys.argv[1]
    jobs = JOBS[prop]()
    os.makedirs(WORK, exist_ok=True)
    if not os.environ.get("RCSV_SKIP_BUILD"):
        ev = os.path.join(EVID, prop + ".json")
        if os.path.exists(ev):
            os.unlink(ev)
    build(sorted({j.engine for j in jobs}))
    log("built after %.1f s; %d workloads" % (time.time() - T0, len(jobs)))
    total = float(os.environ.get("RCSV_SECS") or (THOROUGH_SECS if TIER == "thorough" else QUICK_SECS))
    run_all(prop, jobs, total)
    known, fresh = [], []
    for v in RES.viol:
        k = next((x for x in known_findings() if x[0] == prop and x[1].search(v[2]["msg"])), None)
        (known.append((v, k)) if k else fresh.append(v))
    for _, k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    evidence(prop, len(fresh), [k[2] for _, k in known])
    for e in RES.errors[:5]:
        log("inconclusive:", e)
    for f, n in RES.foreign.items():
        log("failures of other properties (not judged here): %s x%d" % (f, n))
    if fresh:
        # Prefer the case that is easiest to read
        fresh.sort(key=lambda v: (v[0].engine == "miri", v[0].args[:1] != ["seq"]))
        path, doc = write_replay(prop, *fresh[0])
        print("%s: %s [%s]" % (doc["kind"], doc["message"], doc["label"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    seen = sum(t.get("histories", 0) + t.get("programs", 0) for t in RES.stats.values())
    missing = [n for n in NEED[prop] if not RES.counts.get(n)]
    t = RES.stats.get("conc/sim")
    if t is not None and not RES.foreign and not (t.get("sim_switches") and t.get("accesses_checked") and t.get("stale_loads")):
        missing.append("simulated threads")
    if seen == 0 or (missing and not RES.foreign):
        log("nothing observed" if seen == 0 else "never observed: %s" % ", ".join(missing))
        sys.exit(2)
    if len(RES.errors) > len(jobs) // 2:
        log("most workloads gave no answer")
        sys.exit(2)
    print("%s held on %d histories and programs (%.0f s)" % (prop, seen, time.time() - T0))


main()
