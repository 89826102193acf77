#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's working tree.

  python3 check.py C07            VERIF_TIER (quick|thorough) and VERIF_SEED from the environment
  python3 check.py --setup        builds the two standard builds
  python3 check.py --replay FILE  replays a file a VIOLATION line named

exit 0 held on everything explored, 1 violation (line VIOLATION property=.. replay=..), 2 no verdict.
"""
import atexit, glob, hashlib, json, os, subprocess, sys, threading, time, shutil, re, signal
from itertools import zip_longest

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, "harness")
REPO = "/repo"
EV = os.path.join(HERE, "evidence")
RUN = os.path.join(EV, "run-%d" % os.getpid())  # of this process alone
REPLAY = os.path.join(EV, "replay")
TRIPLE = "x86_64-unknown-linux-gnu"
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv[:-1]:
    TIER = sys.argv[sys.argv.index("--tier") + 1]
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = max(2, os.cpu_count() or 2)
T0 = time.time()

RULES = {
    "C01": "numerals (all digit counts, point positions, signs, exponents, leading zeros); non-trivial: well-formed by the independent reader, so value, sign and scale were compared with it",
    "C02": "byte strings: numerals, near misses, noise, over-long runs, each with a previous destination value; non-trivial: acceptance was compared with the independent reader and the destination was inspected",
    "C03": "values of all layouts times requested digit counts; non-trivial: the text was compared with the model's text",
    "C04": "values reached by parsing and by operations; non-trivial: the text has at most 65 digits and was read back and probed",
    "C05": "triples of related values; non-trivial: all nine comparisons were checked against the exact order",
    "C06": "pairs of values plus re-written and re-computed forms of each; non-trivial: at least one pair of equal values was hashed",
    "C07": "pairs of related values (complements, one ulp apart, shifted, full storage); non-trivial: the outcome was compared with the exact sum or difference",
    "C08": "pairs of related values, products aimed at the capacity limits; non-trivial: the outcome was compared with the exact product",
    "C09": "pairs built from chosen quotients and remainders, and related values, times requested digits; non-trivial: the outcome was compared with the exact quotient",
    "C10": "pairs built from chosen quotients and remainders, and related values; non-trivial: the outcome was compared with the exact remainder",
    "C11": "values (ties, chains of nines, all layouts) times positions, over dirty destinations; non-trivial: both forms were compared with exact rounding",
    "C12": "operations times previous contents of the destination (fresh, arbitrary, negative, full, an operand's copy); non-trivial: all outcomes were compared by probing",
    "C13": "integers (bit and decimal boundaries, units patterns, random); non-trivial: at least one integer type was converted and compared",
    "C14": "values around the range limits, ties, and arbitrary values; non-trivial: both conversions were compared with the model",
    "C15": "hostile calls (81-digit operands, extreme parameters, arbitrary bytes); non-trivial: the call was made and its outcome class judged",
    "C16": "hostile calls under library precondition checks, AddressSanitizer, MemorySanitizer and Miri; non-trivial: the call was made and its text validated",
    "C17": "hostile calls, random and coverage-selected, executed in every build; non-trivial: the call could be made and its transcript was compared between all builds",
    "C18": "programs of 3 to 16 steps over four registers; non-trivial: at least one step succeeded and all steps were compared with re-read twins and the model",
    "C20": "values from every source (parser, integers, operations, fresh and used destinations); non-trivial: at least one value's accessors were compared with its text and its sign was set both ways",
    "C21": "triples of related values, a rounding position, a shift; non-trivial: every law whose exact results fit was evaluated on both sides",
    "C22": "hostile calls, long texts and runs of thousands of calls; non-trivial: the call was made and its comparisons, CPU time and heap use were judged",
    "C23": "hostile calls, random and coverage-selected, executed on a 64-bit, a 32-bit and a big-endian target; non-trivial: the call could be made and its transcript was compared between targets",
    "C24": "values from every source (parser, integers, operations, fresh and used destinations); non-trivial: memory held while the value, its copies and its used copies were alive was measured",
    "C19": "clusters of related hostile calls in three orders (separate processes) and on concurrent threads; non-trivial: the call could be made and its transcripts were compared",
}


def say(*a):
    print(*a, flush=True)


class NoVerdict(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, case=None, build=None, kind="run", extra=None):
        self.what, self.case, self.build, self.kind, self.extra = what, case, build, kind, extra or {}


# ---- builds --------------------------------------------------------------------------------------
NOENV = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "MIRIFLAGS", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN")}
BUILDS = {
    # name: (cargo args, env, binary)
    "plain": (["build", "--release"], {}, "target/release/fxdmon"),
    "checked": (["build", "--profile", "checked", "--target-dir", "target-san"], {"RUSTC_WRAPPER": os.path.join(H, "wrap.sh")}, "target-san/checked/fxdmon"),
    "debug": (["build"], {}, "target/debug/fxdmon"),
    "size": (["build", "--profile", "size"], {}, "target/size/fxdmon"),
    "tsan": (["+nightly", "build", "-Zbuild-std", "--profile", "checked", "--target", TRIPLE, "--target-dir", "target-thread"], {"RUSTFLAGS": "-Zsanitizer=thread"}, f"target-thread/{TRIPLE}/checked/fxdmon"),
    "asan": (["+nightly", "build", "-Zbuild-std", "--release", "--target", TRIPLE, "--target-dir", "target-address"], {"RUSTFLAGS": "-Zsanitizer=address"}, f"target-address/{TRIPLE}/release/fxdmon"),
    "msan": (["+nightly", "build", "-Zbuild-std", "--release", "--target", TRIPLE, "--target-dir", "target-memory"], {"RUSTFLAGS": "-Zsanitizer=memory"}, f"target-memory/{TRIPLE}/release/fxdmon"),
}
# 32-bit build: the sandbox has the 32-bit run-time libraries but not the start files and link names
T32 = "i686-unknown-linux-gnu"
CRT = os.path.join(H, "target-word32", "crt")
E32 = {"FXDMON_NO_RT": "1", "RUSTFLAGS": f"--cfg fxdmon_no_rt -Clink-arg=-B{CRT} -Clink-arg=-L{CRT}"}
BUILDS["word32"] = (["+nightly", "build", "-Zbuild-std", "--release", "--target", T32, "--target-dir", "target-word32"], E32, f"target-word32/{T32}/release/fxdmon")
BUILDS["word32checked"] = (["+nightly", "build", "-Zbuild-std", "--profile", "checked", "--target", T32, "--target-dir", "target-word32"], E32, f"target-word32/{T32}/checked/fxdmon")
TBE = "s390x-unknown-linux-gnu"  # 64 bits, the other byte order
MIRI = {"FXDMON_NO_RT": "1", "RUSTFLAGS": "--cfg fxdmon_no_rt"}


def cargo(args, env, timeout=800):
    e = dict(NOENV)
    e.update(env)
    e["CARGO_NET_OFFLINE"] = "true"
    if "miri" not in args:
        i = 1 if args[0].startswith("+") else 0
        args = args[: i + 1] + ["--offline"] + args[i + 1 :]
    return subprocess.run(["cargo"] + args, cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def sources():
    """digest of the code under test"""
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for n in sorted(fs):
            p = os.path.join(d, n)
            if n.endswith((".rs", ".toml", ".lock")) and os.path.isfile(p):
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def forget(target_dir):
    """cargo decides by modification times; here the contents of /repo decide. A target directory last
    used for other contents forgets what it knows of them."""
    d, h = os.path.join(H, target_dir), sources()
    stamp = os.path.join(d, "sources.sha256")
    if os.path.isdir(d) and (not os.path.exists(stamp) or open(stamp).read() != h):
        # the stable cargo keeps .fingerprint/fxd-<hash>, the nightly one build/fxd/<hash>/fingerprint
        for pat in ("/**/.fingerprint/fxd*", "/**/build/fxd*"):
            for p in glob.glob(d + pat, recursive=True, include_hidden=True):
                shutil.rmtree(p, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    with open(stamp, "w") as fh:
        fh.write(h)


def build(names, optional=()):
    """builds in parallel; returns {name: binary}; raises NoVerdict when a required build fails"""
    out, err = {}, {}

    def one(n):
        a, e, b = BUILDS[n]
        try:
            r = cargo(a, e)
            if r.returncode == 0:
                out[n] = os.path.join(H, b)
            else:
                err[n] = r.stdout[-3000:]
        except Exception as x:
            err[n] = str(x)

    # builds sharing a target directory would only wait for each other: one thread per directory
    groups = {}
    for n in list(names) + list(optional):
        groups.setdefault(BUILDS[n][2].split("/")[0], []).append(n)
    for g in groups:
        forget(g)
    ts = [threading.Thread(target=lambda g=g: [one(n) for n in g]) for g in groups.values()]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for n in names:
        if n in err:
            raise NoVerdict(f"build {n} failed:\n{err[n]}")
    return out, {n: err[n][-300:] for n in optional if n in err}


# ---- processes -----------------------------------------------------------------------------------
STARTED = []


def sweep(*_):
    """ends what this check started and is still running (each in a process group of its own)"""
    for p in STARTED:
        if p.poll() is None:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass


atexit.register(sweep)
signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))


def started(p):
    STARTED.append(p)
    return p


def spawn(cmd, env=None, out=None):
    e = dict(NOENV)
    e.update(env or {})
    f = open(out, "w") if out else subprocess.PIPE
    return started(subprocess.Popen(cmd, cwd=H, env=e, stdout=f, stderr=subprocess.STDOUT, text=True, start_new_session=True))


def wait(p, timeout):
    """(rc, output); rc None on timeout"""
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o or ""
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            p.kill()
        o, _ = p.communicate()
        return None, o or ""


def run1(cmd, timeout, env=None):
    return wait(spawn(cmd, env), timeout)


def f(name):
    return os.path.join(RUN, name)


# ---- workers -------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.n = self.held = self.skip = self.mut = self.feat = 0
        self.edges = (0, 0)
        self.classes = 0
        self.outcomes, self.samples, self.maps, self.per = {}, [], [], {}

    def add(self, j, build):
        self.n += j["executions"]
        self.held += j["held"]
        self.skip += j["not_observed"]
        self.mut += j["mutated"]
        self.classes = max(self.classes, j["classes"])
        self.feat = max(self.feat, j["features"])
        if j["edges_total"]:
            self.edges = (max(self.edges[0], j["edges_hit"]), j["edges_total"])
        for k, v in j["outcomes"].items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        if len(self.samples) < 8:
            self.samples += j["samples"][:2]
        self.per[build] = self.per.get(build, 0) + j["executions"]

    def distinct(self):
        m = 0
        for p in self.maps:
            if os.path.exists(p):
                with open(p, "rb") as fh:
                    m |= int.from_bytes(fh.read(), "little")
                os.unlink(p)
        return bin(m).count("1")


def workers(prop, bins, plan, secs, stats, oprop=None):
    """plan: list of build names, one worker each. Raises Violation or NoVerdict."""
    ps = []
    for i, b in enumerate(plan):
        tag = f"{prop}-{i}"
        cmd = [bins[b], "run", "--prop", oprop or prop, "--seed", str(SEED * 1000 + i), "--secs", str(secs),
               "--out", f(tag + ".json"), "--dump", f(tag + ".dump"), "--distinct-out", f(tag + ".map"), "--corpus-out", f(tag + ".corpus")]
        env = {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=99:handle_segv=0:handle_abort=0", "MSAN_OPTIONS": "halt_on_error=1:exitcode=99"}
        ps.append((b, tag, spawn(cmd, env, f(tag + ".log"))))
        stats.maps.append(f(tag + ".map"))
    bad, lost = [], []
    # the first worker that ends early with something to report ends the others
    end = time.time() + secs + 240
    while any(p.poll() is None for _, _, p in ps) and time.time() < end:
        if any(p.poll() not in (None, 0) for _, _, p in ps):
            time.sleep(1)
            for _, _, p in ps:
                if p.poll() is None:
                    p.terminate()
            break
        time.sleep(0.1)
    for b, tag, p in ps:
        rc, _ = wait(p, max(1, end - time.time()))
        if rc == -15:
            continue
        log = open(f(tag + ".log")).read()
        if rc == 0:
            stats.add(json.load(open(f(tag + ".json"))), b)
        elif rc == 1:
            j = json.load(open(f(tag + ".json")))
            stats.add(j, b)
            v = j["violations"][0]
            bad.append(Violation(v["what"], v["case"], b, "run"))
        elif rc in (77, 78):
            case = open(f(tag + ".dump"), "rb").read().decode()
            rr, ro = replay_case(oprop or prop, bins[b], case)
            what = "the process crashed (abort, signal or failed library precondition)" if rc == 77 else "no progress within 20 s of CPU time"
            if rr in (1, 77, 78):
                bad.append(Violation(f"{what}: {(log + ro).strip()[-400:]}", case, b, "run"))
            else:
                lost.append(f"{b} worker ended with {rc}, not confirmed by replay: {log[-300:]}")
        elif rc == 99 or "Sanitizer" in log:
            case = open(f(tag + ".dump"), "rb").read().decode() if os.path.exists(f(tag + ".dump")) else None
            bad.append(Violation("sanitizer report: " + log[:1500], case, b, "run", {"cmd": " ".join(p.args)}))
        else:
            lost.append(f"{b} worker ended with {rc}: {log[-500:]}")
    if bad:
        raise bad[0]
    if lost:
        raise NoVerdict("; ".join(lost))
    return ps


def replay_case(prop, binary, case):
    p = f("replay.case")
    with open(p, "w") as fh:
        fh.write(case)
    return run1([binary, "replay", "--prop", prop, "--case", p, "--dump", f("replay.dump")], 120)


# ---- the checks ----------------------------------------------------------------------------------
def generic(prop):
    secs = 60 if TIER == "quick" else 600
    bins, _ = build(["plain", "checked"])
    st = Stats()
    n = max(1, CORES // 2)
    workers(prop, bins, ["plain"] * n + ["checked"] * (CORES - n), secs, st)
    return st, {}


def chunks(corpora, per, limit):
    """the cases of the rarest paths (half of the room), then an even spread of the others"""
    def cases(p):
        return [x for x in open(p).read().split("%%\n") if x] if os.path.exists(p) else []

    rare = []
    for group in zip_longest(*[cases(c + ".rare") for c in corpora]):
        rare += [x for x in group if x]
    pick = list(dict.fromkeys(rare))[: per * limit // 2]
    cs = [x for c in corpora for x in cases(c)]
    room = per * limit - len(pick)
    if cs:
        step = max(1.0, len(cs) / room)
        pick += [cs[int(i * step)] for i in range(int(len(cs) / step))]
    # rare cases are spread over the chunks, so that no chunk is much longer than the others
    k = max(1, -(-len(pick) // per))
    pick = [x for j in range(k) for x in pick[j::k]]
    out = []
    for i in range(0, len(pick), per):
        p = f(f"chunk-{i // per}")
        open(p, "w").write("%%\n".join(pick[i : i + per]) + "%%\n")
        out.append((p, pick[i : i + per]))
    return out[:limit]


def miri_many(args_list, flags, timeout, par, until=None, target=()):
    """runs fxdmon under Miri once per argument list, starting none after `until`; returns [(rc, output)]"""
    res = [(None, "not started")] * len(args_list)
    it = iter(range(len(args_list)))
    lock = threading.Lock()

    def go():
        while True:
            with lock:
                i = next(it, None)
            if i is None or (until and time.time() > until):
                return
            e = dict(NOENV)
            e.update(MIRI)
            e["MIRIFLAGS"] = flags
            e["CARGO_NET_OFFLINE"] = "true"
            p = subprocess.Popen(["cargo", "+nightly", "miri", "run", "--release", "--target-dir", "target-miri", *target, "--"] + args_list[i],
                                 cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            started(p)
            res[i] = wait(p, timeout)

    ts = [threading.Thread(target=go) for _ in range(par)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


def miri_prepare(target=()):
    """builds sysroot and harness for Miri; None or why it is unavailable"""
    e = dict(MIRI)
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    forget("target-miri")
    try:
        r = cargo(["+nightly", "miri", "run", "--release", "--target-dir", "target-miri", *target, "--", "list"], e, 400)
    except Exception as x:
        return str(x)
    return None if r.returncode == 0 and "C16" in r.stdout else r.stdout[-1500:]


MIRI_UB = re.compile(r"error: (Undefined Behavior|unsupported operation|abnormal termination|memory leaked|the evaluated program)[^\n]*")


def c16():
    secs = 45 if TIER == "quick" else 400
    bins, missing = {}, {}
    mi = {}

    def mp():
        mi["why"] = miri_prepare()

    t = threading.Thread(target=mp)
    t.start()
    bins, missing = build(["plain", "checked"], ["asan", "msan"])
    t.join()
    st = Stats()
    plan = ["plain", "checked", "checked", "checked"]
    plan += ["asan"] * 2 if "asan" in bins else []
    plan += ["msan"] * 2 if "msan" in bins else []
    ps = workers("C16", bins, plan, secs, st)
    ex = {}
    if mi["why"] is None:
        # coverage-selected cases, interpreted
        per, limit = (30, 3 * CORES) if TIER == "quick" else (60, 12 * CORES)
        ch = chunks([f(tag + ".corpus") for _, tag, _ in ps], per, limit)
        flags = "-Zmiri-disable-isolation"
        res = miri_many([["replay-many", "--prop", "C16", "--bare", "1", "--verbose", "1", "--cases", p, "--secs", "90" if TIER == "quick" else "240"] for p, _ in ch],
                        flags, 300 if TIER == "quick" else 600, CORES, T0 + 550 if TIER == "quick" else None)
        done = lost = 0
        for (p, cases), (rc, o) in zip(ch, res):
            m = re.search(r"DONE (\d+) (\d+)", o)
            if rc == 0 and m:
                done += int(m.group(2))
                continue
            at = [int(x) for x in re.findall(r"^CASE (\d+)", o, re.M)]
            case = cases[at[-1]] if at and at[-1] < len(cases) else None
            u = MIRI_UB.search(o)
            v = re.search(r"VIOLATED [^\n]*", o)
            if rc is not None and ((u and "unsupported" not in u.group(1) and "evaluated" not in u.group(1)) or v):
                raise Violation("Miri: " + (o[u.start() :][:1500] if u else v.group(0)), case, "miri", "miri")
            lost += 1
            ex.setdefault("miri_lost", []).append(o[-300:])
        if done == 0:
            missing["miri"] = "no case completed: " + str(ex.get("miri_lost", [""])[0])
        st.per["miri"] = done
        st.n += done
        st.held += done
        ex["miri_cases"] = done
        ex["miri_chunks_without_verdict"] = lost
    else:
        missing["miri"] = mi["why"][-300:]
    if len(missing) == 3:
        raise NoVerdict("no sanitizer engine could be built: " + json.dumps(missing))
    ex["engines_unavailable"] = missing
    return st, ex


def digests(binary, n, out, args):
    p = spawn([binary, "outcomes", "--out", out, "--dump", out + ".dump"] + args)
    return p


def load(p):
    import array
    a = array.array("Q")
    with open(p, "rb") as fh:
        a.frombytes(fh.read())
    return a


def case_at(binary, args, i):
    p = f("at.case")
    run1([binary, "outcomes", "--index", str(i), "--case-out", p] + args, 120)
    return open(p).read()


def transcript(binary, case, portable=False):
    p = f("tr.case")
    open(p, "w").write(case)
    rc, o = run1([binary, "transcript", "--case", p, "--dump", p + ".dump"] + (["--portable", "1"] if portable else []), 60)
    return f"exit {rc}" if rc else o.strip()


def c17():
    names = ["plain", "checked", "debug", "size"]
    bins, _ = build(names)
    st = Stats()
    # coverage-guided selection in the instrumented build, so that rare paths are compared as well
    workers("C17", bins, ["checked"] * CORES, 15 if TIER == "quick" else 150, st)
    st.n = st.held = st.skip = 0
    st.per = {}
    corpus = [f(f"C17-{i}.corpus") for i in range(CORES)]
    n, shards = (250_000, 8) if TIER == "quick" else (2_000_000, 16)
    jobs = [["--seed", str(SEED * 77 + s), "--n", str(n)] for s in range(shards)]
    jobs += [["--cases", c] for c in corpus if os.path.exists(c)]
    distinct = set()
    compared = 0
    # a pool of processes over (job, build)
    todo = [(k, b) for k in range(len(jobs)) for b in names]
    todo.sort(key=lambda x: x[1] != "debug")
    lock, rcs = threading.Lock(), {}

    def go():
        while True:
            with lock:
                if not todo:
                    return
                k, b = todo.pop(0)
            rcs[k, b] = wait(digests(bins[b], n, f(f"d-{k}-{b}"), jobs[k]), 700)

    ts = [threading.Thread(target=go) for _ in range(CORES)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k, a in enumerate(jobs):
        crashed = [b for b in names if rcs[k, b][0] in (77, 78)]
        if crashed:
            b = crashed[0]
            case = open(f(f"d-{k}-{b}.dump")).read()
            t = {x: transcript(bins[x], case) for x in names}
            if len(set(t.values())) > 1:
                raise Violation("outcomes differ between builds: " + json.dumps(t)[:1500], case, "all", "builds")
            raise NoVerdict(f"{b} ended with {rcs[k, b]} but all builds agree on its last case")
        for b in names:
            if rcs[k, b][0] != 0:
                raise NoVerdict(f"outcomes in {b}: {rcs[k, b]}")
        ds = {b: load(f(f"d-{k}-{b}")) for b in names}
        ref = ds["plain"]
        for b in names:
            if ds[b] != ref:
                i = next(i for i in range(len(ref)) if ds[b][i] != ref[i])
                case = case_at(bins["plain"], a, i)
                t = {x: transcript(bins[x], case) for x in names}
                raise Violation(f"outcomes differ between builds plain and {b}: " + json.dumps(t)[:1500], case, "all", "builds")
        live = [x for x in ref if x]
        compared += len(live)
        distinct.update(live)
        st.n += len(ref)
        for b in names:
            st.per[b] = st.per.get(b, 0) + len(ref)
            os.unlink(f(f"d-{k}-{b}"))
    st.held = compared
    st.skip = st.n - compared
    for m in st.maps:
        if os.path.exists(m):
            os.unlink(m)
    st.maps = []
    # samples: cases of this run
    st.samples = [case_at(bins["plain"], jobs[0], i).strip().replace("\n", " ; ") for i in (7, 5003, 90011)]
    st.outcomes = {}
    return st, {"distinct_nontrivial": len(distinct), "distinct_by": "distinct transcripts", "builds_compared": names}


def crt32():
    """start files and link names for the 32-bit build; None or why there can be none"""
    try:
        os.makedirs(CRT, exist_ok=True)
        for n in ("crti", "crtn", "crtbeginS", "crtendS"):
            subprocess.run(["gcc", "-m32", "-c", "-x", "assembler", "-", "-o", f"{CRT}/{n}.o"], input='.section .note.GNU-stack,"",@progbits\n', text=True, check=True)
        subprocess.run(["gcc", "-m32", "-c", os.path.join(H, "crt32.s"), "-o", CRT + "/Scrt1.o"], check=True)
        for n in ("libgcc.a", "libgcc_eh.a"):
            if not os.path.exists(f"{CRT}/{n}"):
                subprocess.run(["ar", "rcs", f"{CRT}/{n}"], check=True)
        for n in ("c", "m", "dl", "pthread", "rt", "util", "gcc_s"):
            at = glob.glob(f"/lib32/lib{n}.so.*")
            if not at:
                return f"no 32-bit lib{n}"
            if not os.path.islink(f"{CRT}/lib{n}.so"):
                os.symlink(at[0], f"{CRT}/lib{n}.so")
    except Exception as x:
        return str(x)


def read_cases(path):
    return [x for x in open(path, encoding="utf-8", errors="surrogateescape").read().split("%%\n") if x]


def first_end(binary, cases):
    """the case at which a build that cannot report it crashes or hangs"""
    lo, hi = 0, len(cases)  # fails with the first hi, not with the first lo

    def fails(a, b, limit):
        open(f("end.cases"), "w", encoding="utf-8", errors="surrogateescape").write("".join(x + "%%\n" for x in cases[a:b]))
        rc, _ = run1([binary, "outcomes", "--portable", "1", "--cases", f("end.cases"), "--out", f("end.out")], limit)
        return rc != 0

    while hi - lo > 1:
        mid = (lo + hi) // 2
        if fails(lo, mid, 60):
            hi = mid
        else:
            lo = mid
    return cases[lo] if fails(lo, hi, 60) else None


def c23():
    mi = {}

    def mp():
        mi["why"] = miri_prepare(("--target", TBE))

    t = threading.Thread(target=mp)
    t.start()
    why32 = crt32()
    names = ["word32", "word32checked"]
    if why32:
        bins, _ = build(["plain", "checked"])
        missing = {n: why32 for n in names}
    else:
        bins, missing = build(["plain", "checked"], names)
    t.join()
    names = [n for n in names if n in bins]
    st = Stats()
    workers("C23", bins, ["checked"] * CORES, 15 if TIER == "quick" else 150, st, "C17")
    corpus = [f(f"C23-{i}.corpus") for i in range(CORES)]
    st = Stats()
    distinct = set()
    n, shards = (150_000, 8) if TIER == "quick" else (1_500_000, 16)
    todo = list(range(shards)) + [c for c in corpus if os.path.exists(c)]
    lock, bad = threading.Lock(), []

    def one(job):
        # 64 bits writes the cases down, so that all judge the same ones
        path = job if isinstance(job, str) else f(f"w-{job}.cases")
        if not isinstance(job, str):
            rc, o = run1([bins["plain"], "outcomes", "--seed", str(SEED * 91 + job), "--n", str(n), "--write", path], 300)
            if rc != 0:
                raise NoVerdict("writing cases: " + o[-300:])
        cs = None
        out = {}
        for b in ["plain"] + names:
            out[b] = path + "." + b
            rc, o = run1([bins[b], "outcomes", "--portable", "1", "--cases", path, "--out", out[b]], 600)
            if rc != 0:
                case = first_end(bins[b], read_cases(path))
                if case and b != "plain":
                    raise Violation(f"{b} crashes or hangs ({rc}), 64 bits does not: {o[-300:]}", case, "all", "targets")
                raise NoVerdict(f"outcomes in {b}: {rc} {o[-300:]}")
        ref = load(out["plain"])
        for b in names:
            d = load(out[b])
            if d != ref:
                i = next((i for i in range(len(ref)) if i >= len(d) or d[i] != ref[i]))
                case = read_cases(path)[i]
                x = {k: transcript(bins[k], case, True) for k in ["plain"] + names}
                raise Violation(f"outcomes differ between 64 bits (plain) and {b}: " + json.dumps(x)[:1500], case, "all", "targets")
        with lock:
            for b in names:
                st.per[b] = st.per.get(b, 0) + len(ref)
            if names:
                st.n += len(ref)
                live = [x for x in ref if x]
                st.held += len(live)
                st.skip += len(ref) - len(live)
                distinct.update(live)
            if not st.samples:
                st.samples = [x.strip().replace("\n", " ; ") for x in read_cases(path)[7:30000:9001]]
        if not isinstance(job, str):
            os.unlink(path)
        for x in out.values():
            os.unlink(x)

    def go():
        while True:
            with lock:
                if not todo or bad:
                    return
                j = todo.pop(0)
            try:
                one(j)
            except Exception as x:
                bad.append(x)

    ts = [threading.Thread(target=go) for _ in range(CORES)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for x in sorted(bad, key=lambda x: not isinstance(x, Violation)):
        raise x
    ex = {"targets": {"reference": "x86_64 (64 bits, little endian)", "compared": names + (["miri " + TBE] if mi["why"] is None else [])}}
    if mi["why"] is None:
        per, limit = (40, 3 * CORES) if TIER == "quick" else (80, 12 * CORES)
        ch = chunks(corpus, per, limit)
        secs = "60" if TIER == "quick" else "240"
        res = miri_many([["outcomes", "--portable", "1", "--secs", secs, "--cases", p, "--out", p + ".be"] for p, _ in ch], "-Zmiri-disable-isolation", 500,
                        CORES, T0 + (330 if TIER == "quick" else 3000), ("--target", TBE))
        done = lost = 0
        for (p, cases), (rc, o) in zip(ch, res):
            if rc != 0:
                u = MIRI_UB.search(o)
                if rc is not None and u and "unsupported" not in u.group(1):
                    case = first_end_be(cases)
                    if case:
                        raise Violation("Miri on " + TBE + ": " + o[u.start():][:1500], case, "all", "targets")
                lost += 1
                ex.setdefault("miri_lost", []).append(o[-300:])
                continue
            d = load(p + ".be")
            rc, o = run1([bins["plain"], "outcomes", "--portable", "1", "--cases", p, "--out", p + ".le"], 300)
            if rc != 0:
                raise NoVerdict(f"outcomes in plain: {rc} {o[-300:]}")
            ref = load(p + ".le")
            for i in range(len(d)):
                if d[i] != ref[i]:
                    x = {"plain": transcript(bins["plain"], cases[i], True), TBE: transcript_be(cases[i])}
                    raise Violation(f"outcomes differ between x86_64 and {TBE}: " + json.dumps(x)[:1500], cases[i], "all", "targets")
            done += len(d)
            if not names:
                distinct.update(x for x in d if x)
        st.per["miri " + TBE] = done
        st.n += done
        st.held += done
        ex["miri_chunks_without_verdict"] = lost
        if not done:
            missing["miri " + TBE] = "no case completed: " + str(ex.get("miri_lost", [""])[0])
    else:
        missing["miri " + TBE] = mi["why"][-300:]
    if not st.held:
        raise NoVerdict("no other target could be built: " + json.dumps(missing))
    ex.update({"distinct_nontrivial": len(distinct), "distinct_by": "distinct transcripts", "targets_unavailable": missing})
    return st, ex


def transcript_be(case):
    open(f("be.case"), "w").write(case)
    rc, o = miri_many([["transcript", "--portable", "1", "--case", f("be.case")]], "-Zmiri-disable-isolation", 300, 1, None, ("--target", TBE))[0]
    lines = [x for x in o.splitlines() if not x.startswith("warning") and x.strip()]
    return f"exit {rc}: {o[-400:]}" if rc else (lines[-1] if lines else "")


def first_end_be(cases):
    for c in cases:
        if transcript_be(c).startswith("exit"):
            return c


def c19():
    bins, missing = {}, {}
    mi = {}

    def mp():
        mi["why"] = miri_prepare()

    t = threading.Thread(target=mp)
    t.start()
    bins, missing = build(["plain", "checked"], ["tsan"])
    t.join()
    st = Stats()
    ex = {}
    # 1. orders, in separate processes
    n, shards = (300_000, 4) if TIER == "quick" else (2_000_000, 12)
    distinct = set()
    ps = {}
    todo = [(s, o) for s in range(shards) for o in ("fwd", "rev", "shuf")]
    lock = threading.Lock()

    def go():
        while True:
            with lock:
                if not todo:
                    return
                s, o = todo.pop(0)
            b = bins["plain"] if s % 2 == 0 else bins["checked"]
            ps[s, o] = wait(digests(b, n, f(f"o-{s}-{o}"), ["--seed", str(SEED * 131 + s), "--n", str(n), "--order", o]), 700)

    ts = [threading.Thread(target=go) for _ in range(CORES)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for s in range(shards):
        a = ["--seed", str(SEED * 131 + s), "--n", str(n)]
        for o in ("fwd", "rev", "shuf"):
            if ps[s, o][0] != 0:
                raise NoVerdict(f"outcomes {o}: {ps[s, o]}")
        ref = load(f(f"o-{s}-fwd"))
        for o in ("rev", "shuf"):
            d = load(f(f"o-{s}-{o}"))
            if d != ref:
                i = next(i for i in range(len(ref)) if d[i] != ref[i])
                b = bins["plain"] if s % 2 == 0 else bins["checked"]
                raise Violation(f"case {i} of the workload (seed {a[1]}, {n} cases) has different outcomes in forward and {o} order", case_at(b, a, i), "plain", "order",
                                {"seed": a[1], "n": n, "order": o, "build": "plain" if s % 2 == 0 else "checked"})
        live = [x for x in ref if x]
        distinct.update(live)
        st.n += 3 * len(ref)
        st.held += 3 * len(live)
        for o in ("fwd", "rev", "shuf"):
            os.unlink(f(f"o-{s}-{o}"))
    ex["order_comparisons"] = 2 * st.held // 3
    # 2. threads
    secs = 25 if TIER == "quick" else 240

    def stress(binary, seed, env=None, extra=()):
        cf = f(f"stress-{seed}.cases")
        return run1([binary, "stress", "--seed", str(seed), "--secs", str(secs), "--threads", str(max(4, CORES)), "--case-out", cf] + list(extra), secs + 200, env) + (cf,)

    calls = over = groups = 0
    jobs = [("plain", SEED * 3 + 1, None)]
    if "tsan" in bins:
        jobs.append(("tsan", SEED * 3 + 2, {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}))
    else:
        ex["tsan_unavailable"] = missing.get("tsan")
    for b, seed, env in jobs:
        rc, o, cf = stress(bins[b], seed, env)
        m = re.search(r"STRESS calls=(\d+) groups=(\d+) overlapping=(\d+)", o)
        if "NOT-THREAD-SAFE" in o:
            raise Violation("the type is no longer Send + Sync", None, b, "stress", {"seed": seed})
        if "ThreadSanitizer" in o and rc == 66:
            raise Violation("ThreadSanitizer: " + o[:2500], None, b, "stress", {"seed": seed})
        if rc == 1 and "MISMATCH" in o:
            raise Violation(o[-1500:], open(cf).read(), b, "stress", {"seed": seed})
        if rc != 0 or not m:
            raise NoVerdict(f"stress in {b}: rc {rc} {o[-800:]}")
        ex[f"concurrent_calls_{b}"] = int(m.group(1))
        ex[f"overlapping_calls_{b}"] = int(m.group(3))
        ex[f"groups_{b}"] = int(m.group(2))
        st.n += int(m.group(1))
        st.held += int(m.group(1))
        st.per["threads " + b] = int(m.group(1))
    # 3. cold starts: the first calls of a process made by all threads at once
    todo = [("plain", SEED * 1009 + i) for i in range(300 if TIER == "quick" else 4000)]
    if "tsan" in bins:
        todo += [("tsan", SEED * 2003 + i) for i in range(60 if TIER == "quick" else 1000)]
    colds = []

    def starts():
        while True:
            with lock:
                if not todo:
                    return
                b, seed = todo.pop()
            cf = f(f"cold-{b}-{seed}.cases")
            a = [bins[b], "stress", "--cold", "1", "--threads", "4", "--groups", "24", "--seed", str(seed), "--case-out", cf]
            colds.append((b, seed, run1(a, 120, {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}), cf))

    ts = [threading.Thread(target=starts) for _ in range(max(2, CORES // 2))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for b, seed, (rc, o), cf in sorted(colds, key=lambda x: x[:2]):
        if "ThreadSanitizer" in o and rc == 66:
            raise Violation("ThreadSanitizer, first calls of a process: " + o[:2500], None, b, "stress", {"seed": seed, "cold": 1})
        if rc == 1 and "MISMATCH" in o:
            raise Violation("first calls of a process: " + o[-1500:], open(cf).read(), b, "stress", {"seed": seed, "cold": 1})
        m = re.search(r"STRESS calls=(\d+)", o)
        if rc != 0 or not m:
            raise NoVerdict(f"cold start in {b}: rc {rc} {o[-800:]}")
        ex["cold_starts_" + b] = ex.get("cold_starts_" + b, 0) + 1
        st.n += int(m.group(1))
        st.held += int(m.group(1))
        st.per["cold " + b] = st.per.get("cold " + b, 0) + int(m.group(1))
    # 4. Miri: its scheduler and race detector, several seeds
    if mi["why"] is None:
        k = CORES if TIER == "quick" else 4 * CORES
        res = miri_many([["stress", "--groups", "1", "--threads", "3", "--secs", "100000", "--seed", str(SEED * 50 + i)] if i < k else
                         ["stress", "--cold", "1", "--groups", "5", "--threads", "3", "--seed", str(SEED * 50 + i)] for i in range(2 * k)], "-Zmiri-disable-isolation -Zmiri-preemption-rate=0.05", 200 if TIER == "quick" else 600, CORES, T0 + 600 if TIER == "quick" else None)
        ok = 0
        for i, (rc, o) in enumerate(res):
            u = MIRI_UB.search(o)
            if rc == 0:
                ok += 1
            elif rc is not None and "MISMATCH" in o:
                raise Violation("under Miri: " + o[-1500:], None, "miri", "stress", {"seed": SEED * 50 + i, **({"cold": 1} if i >= k else {})})
            elif rc is not None and u and u.group(1) in ("Undefined Behavior",):
                raise Violation("Miri: " + o[u.start() :][:2000], None, "miri", "stress", {"seed": SEED * 50 + i, **({"cold": 1} if i >= k else {})})
        ex["miri_schedules"] = ok
    else:
        ex["miri_unavailable"] = mi["why"][-300:]
    if "tsan" not in bins and not ex.get("miri_schedules"):
        raise NoVerdict("no race detector available: " + json.dumps(missing))
    a = ["--seed", str(SEED * 131), "--n", str(n)]
    st.samples = [case_at(bins["plain"], a, i).strip().replace("\n", " ; ") for i in (7, 5003, 90011)]
    ex["distinct_nontrivial"] = len(distinct)
    ex["distinct_by"] = "distinct transcripts"
    return st, ex


# ---- verdict -------------------------------------------------------------------------------------
def known(prop):
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) case=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def evidence(prop, st, ex, violations, extra=None):
    cov = {
        "evaluations": st.n,
        "distinct_nontrivial": ex.pop("distinct_nontrivial", None),
        "rule": RULES[prop],
        "samples": st.samples[:8],
        "not_observed": st.skip,
        "executions_per_build": st.per,
    }
    if cov["distinct_nontrivial"] is None:
        cov["distinct_nontrivial"] = st.distinct()
    if st.outcomes:
        cov["outcomes_of_last_call"] = dict(sorted(st.outcomes.items(), key=lambda x: -x[1])[:30])
    if st.classes:
        cov["behaviour_classes_seen_by_one_worker"] = st.classes
    if st.edges[1]:
        cov["edges_of_code_under_test_hit_by_one_worker"] = st.edges[0]
        cov["edges_of_code_under_test"] = st.edges[1]
        cov["mutated_from_corpus"] = st.mut
    cov.update(ex)
    cov.update(extra or {})
    j = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": "exploration",
        "coverage": cov,
        "assumptions": ["the oracle (harness/src/model.rs, big.rs, props.rs) reads the property correctly", "rustc, LLVM and the sanitizer runtimes are correct"],
        "wall_s": round(time.time() - T0, 1),
        "violations": violations,
    }
    with open(os.path.join(EV, prop + ".json"), "w") as fh:
        json.dump(j, fh, indent=1)
    return cov


def main():
    os.makedirs(RUN, exist_ok=True)
    atexit.register(clean_up)
    os.makedirs(REPLAY, exist_ok=True)
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        try:
            build(["plain", "checked"])
            return 0
        except NoVerdict as e:
            say(e)
            return 2
    if a[:1] == ["--replay"]:
        return replay(a[1])
    prop = a[0]
    st, ex = Stats(), {}
    try:
        st, ex = {"C16": c16, "C17": c17, "C19": c19, "C23": c23}.get(prop, lambda: generic(prop))()
        for sig, what in known(prop):
            say(f"KNOWN-FINDING: property={prop} {what}")
        cov = evidence(prop, st, ex, 0)
        if st.held == 0 or cov["distinct_nontrivial"] < 2:
            say(f"no verdict: {prop} observed nothing")
            return 2
        say(f"HELD property={prop} tier={TIER} seed={SEED} evaluations={cov['evaluations']} distinct={cov['distinct_nontrivial']} wall={time.time() - T0:.0f}s")
        return 0
    except Violation as v:
        path = os.path.join(REPLAY, f"{prop}-{TIER}-{SEED}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "what": v.what, "case": v.case, "build": v.build, "kind": v.kind, "extra": v.extra, "seed": SEED}, fh, indent=1)
        evidence(prop, st, ex, 1, {"violation": v.what[:2000]})
        say(v.what[:3000])
        say("case: " + (v.case or "").strip().replace("\n", " ; "))
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    except NoVerdict as e:
        say(f"no verdict: {e}")
        return 2
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        say("no verdict: the check itself failed")
        return 2


def clean_up():
    shutil.rmtree(RUN, ignore_errors=True)
    for d in glob.glob(os.path.join(EV, "run*")):
        p = d.rsplit("-", 1)[-1]
        if not p.isdigit() or not os.path.exists("/proc/" + p):
            shutil.rmtree(d, ignore_errors=True)


def replay(path):
    j = json.load(open(path))
    prop, kind = j["property"], j["kind"]
    if kind == "run":
        b = j["build"]
        bins, _ = build([b])
        rc, o = replay_case(prop, bins[b], j["case"])
        say(o.strip())
        return 0 if rc == 0 else 1
    if kind == "builds":
        bins, _ = build(["plain", "checked", "debug", "size"])
        t = {b: transcript(bins[b], j["case"]) for b in bins}
        for b, x in t.items():
            say(b, x)
        return 1 if len(set(t.values())) > 1 else 0
    if kind == "targets":
        crt32()
        bins, _ = build(["plain"], ["word32", "word32checked"])
        t = {b: transcript(bins[b], j["case"], True) for b in bins}
        t[TBE] = transcript_be(j["case"]) if miri_prepare(("--target", TBE)) is None else t["plain"]
        for b, x in t.items():
            say(b, x)
        return 1 if len(set(t.values())) > 1 else 0
    if kind == "order":
        x = j["extra"]
        bins, _ = build([x["build"]])
        fs = []
        for o in ("fwd", x["order"]):
            wait(digests(bins[x["build"]], x["n"], f("r-" + o), ["--seed", x["seed"], "--n", str(x["n"]), "--order", o]), 600)
            fs.append(load(f("r-" + o)))
        say("digests differ" if fs[0] != fs[1] else "digests agree")
        return 1 if fs[0] != fs[1] else 0
    if kind == "miri":
        open(f("m.case"), "w").write(j["case"] + "%%\n")
        rc, o = miri_many([["replay-many", "--prop", prop, "--bare", "1", "--cases", f("m.case")]], "-Zmiri-disable-isolation", 400, 1)[0]
        say(o[-3000:])
        return 0 if rc == 0 else 1
    if kind == "stress":
        b, seed = j["build"], str(j["extra"]["seed"])
        cold = j["extra"].get("cold")
        if b == "miri":
            rc, o = miri_many([["stress", "--cold", "1", "--groups", "5", "--threads", "3", "--seed", seed] if cold else
                               ["stress", "--groups", "1", "--threads", "3", "--secs", "100000", "--seed", seed]], "-Zmiri-disable-isolation -Zmiri-preemption-rate=0.05", 400, 1)[0]
        else:
            bins, _ = build([b])
            rc, o = 0, ""
            for _ in range(50 if cold else 1):
                rc, o = run1([bins[b], "stress", "--seed", seed] + (["--cold", "1", "--threads", "4", "--groups", "24"] if cold else ["--secs", "60", "--threads", "8"]), 200, {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"})
                if rc != 0:
                    break
        say(o[-3000:])
        return 0 if rc == 0 else 1
    return 2


if __name__ == "__main__":
    sys.exit(main())
