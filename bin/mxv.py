"""Driver shared by bin/check and bin/replay: builds, runs, shrinks, reports (Python stdlib only)."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
NPROC = 8
HOST = "x86_64-unknown-linux-gnu"

MIRI_BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
# name -> cargo arguments, environment, binary directory
CONFIGS = {
    "debug": dict(args=["build"], env={}, bindir="debug"),
    "pretty": dict(args=["build", "--features", "pretty"], env={}, bindir="debug"),
    "bare": dict(args=["build", "--no-default-features"], env={}, bindir="debug"),
    "release": dict(args=["build", "--release"], env={}, bindir="release"),
    "asan": dict(
        args=["+nightly", "build", "--target", HOST],
        env={"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"},
        bindir=HOST + "/debug",
    ),
    # ThreadSanitizer, with an instrumented standard library
    "tsan": dict(
        args=["+nightly", "build", "-Zbuild-std", "--target", HOST],
        env={"RUSTFLAGS": "-Zsanitizer=thread", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"},
        bindir=HOST + "/debug",
    ),
    # SanitizerCoverage counters for the coverage-guided runs
    "cov": dict(
        args=["build", "--target", HOST],
        env={"RUSTFLAGS": "--cfg mxv_cov -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
             "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Ccodegen-units=1"},
        bindir=HOST + "/debug",
    ),
    # exact undefined-behaviour detection; the experimental aliasing models are switched off
    "miri": dict(args=None, env={"MIRIFLAGS": MIRI_BASE + " -Zmiri-disable-stacked-borrows"}, bindir=None),
    # the same with the Tree Borrows aliasing model
    "miri-tb": dict(args=None, env={"MIRIFLAGS": MIRI_BASE + " -Zmiri-tree-borrows"}, bindir=None),
}
# the same builds on other terms
CONFIGS["pretty+forced"] = dict(CONFIGS["pretty"], base="pretty", env={"FORCE_COLOR": "1"})
CONFIGS["pretty+tty-nocolor"] = dict(CONFIGS["pretty"], base="pretty", env={"NO_COLOR": "1", "TERM": "xterm-256color"}, tty="stdout")
CONFIGS["pretty+stderr-tty"] = dict(CONFIGS["pretty"], base="pretty", env={"TERM": "xterm-256color"}, tty="stderr")
CONFIGS["pretty+tty-dumb"] = dict(CONFIGS["pretty"], base="pretty", env={"TERM": "dumb"}, tty="stdout")


def base(config):
    return CONFIGS[config].get("base", config)


CRASH_SIGNALS = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


class Trouble(Exception):
    """The machinery could not decide (exit 2)."""


def log(msg):
    print(msg, file=sys.stderr, flush=True)


def target_dir(config):
    root = os.environ.get("MXV_TARGET", os.path.join(HARNESS, "target"))
    return os.path.join(root, base(config).replace("miri-tb", "miri"))


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()


def dictionary():
    """Numbers in the code under test: fast paths, blocks and counters change behaviour around them. They bias the
    generators (as the dictionaries of fuzzers do) and decide nothing."""
    found = set()
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True)):
        code = re.split(r"^#\[cfg\(test\)\]", open(f, encoding="utf-8", errors="replace").read(), flags=re.M)[0]
        code = re.sub(r"//.*|\"(?:\\.|[^\"\\])*\"", " ", code)
        for a, b in re.findall(r"\b(\d+)(?:_?[ui](?:\d+|size))? *<< *(\d+)\b", code):
            if int(b) < 64:
                found.add(int(a) << int(b))
        for x in re.findall(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*?)(?:_?[ui](?:8|16|32|64|128|size)|_?f32|_?f64)?\b", code):
            try:
                found.add(int(x.replace("_", ""), 0))
            except ValueError:
                pass
        for t, n in re.findall(r"\b([ui])(8|16|32)::(?:MAX|MIN|BITS)", code):
            found.add((1 << int(n) - (t == "i")) - 1)
    found = sorted(v for v in found if 5 <= v < 1 << 63)
    both = sorted({v for v in found} | {2 * v for v in found if v < 1 << 40})
    return both if len(both) <= 64 else found[:64]


def env_for(config):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "FORCE_COLOR", "NO_COLOR", "CLICOLOR",
              "CLICOLOR_FORCE", "IGNORE_IS_TERMINAL", "COLORTERM"):
        e.pop(k, None)
    e["CARGO_TARGET_DIR"] = target_dir(config)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=16384"
    e["MXV_VERIF"] = VERIF
    e["MXV_DICT"] = ",".join(map(str, dictionary()))
    e.update(CONFIGS[config]["env"])
    return e


def build(config, binname, timeout=800):
    """Builds one binary from /repo's current tree. Cargo decides by time stamps; a change of the
    sources' contents forces a rebuild whatever the time stamps say."""
    td = target_dir(config)
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(td, ".mxv-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(td, ".mxv-stamp")
        want = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        env = env_for(config)
        nightly = ["+nightly"] if config.startswith("miri") or CONFIGS[config]["args"][0] == "+nightly" else []
        if old != want:
            if old:
                for extra in ([], ["--target", HOST], ["--release"]):
                    subprocess.run(["cargo"] + nightly + ["clean", "--offline", "-p", "matreex", "-p", "mxv"] + extra, cwd=HARNESS, env=env,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                shutil.rmtree(os.path.join(td, "miri"), ignore_errors=True)
            with open(stamp, "w") as f:
                f.write(want)
        if config.startswith("miri"):
            cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", binname, "--", "list"]
        else:
            cmd = ["cargo"] + CONFIGS[config]["args"] + ["--offline", "-q", "--bin", binname]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Trouble(f"building {binname} for {config} took over {timeout}s")
        if p.returncode != 0:
            raise Trouble(f"building {binname} for {config} failed:\n" + p.stderr.decode(errors="replace")[-6000:])
        log(f"[build] {binname} {config}: {time.time() - t:.1f}s")


def argv(config, binname, args):
    if config.startswith("miri"):
        return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", binname, "--"] + args
    return [os.path.join(target_dir(config), CONFIGS[config]["bindir"], binname)] + args


def limits(config):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if base(config) in ("debug", "release", "pretty", "bare", "cov"):
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        os.setsid()
    return f


class Done:
    def __init__(self, rc, out, err, stalled=False):
        self.rc, self.out, self.err, self.stalled = rc, out, err, stalled

    def crashed(self):
        """Ended abnormally by a fault of the program under test?"""
        if self.stalled:
            return False
        if self.rc < 0:
            return -self.rc in CRASH_SIGNALS
        if self.rc in (0, 10, 2):
            return False
        return "Undefined Behavior" in self.err or "ThreadSanitizer: data race" in self.err or "abnormal termination" in self.err or "the program aborted" in self.err \
            or "AddressSanitizer" in self.err or "deadlock" in self.err

    def why(self):
        lines = [l.strip() for l in self.err.splitlines() if l.strip()]
        for key in ("Undefined Behavior", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "abnormal termination", "panicked", "unsafe precondition", "error:"):
            for i, l in enumerate(lines):
                if key in l:
                    return " | ".join(lines[i:i + 3])[:600]
        sig = f"signal {signal.Signals(-self.rc).name}" if self.rc < 0 else f"exit status {self.rc}"
        return (sig + ": " + " | ".join(lines[-3:]))[:600]


def execute(config, binname, args, timeout, progress=None, stall=None, cwd=None):
    """Runs the binary. `stall`: seconds without a change of the progress file after which it is ended."""
    master = slave = None
    tty = CONFIGS[config].get("tty")
    if tty:
        try:
            master, slave = os.openpty()
        except OSError:
            pass
    p = subprocess.Popen(argv(config, binname, args), cwd=HARNESS, env=env_for(config), stdin=subprocess.DEVNULL,
                         stdout=slave if slave is not None and tty == "stdout" else subprocess.PIPE,
                         stderr=slave if slave is not None and tty == "stderr" else subprocess.PIPE, preexec_fn=limits(config))
    if slave is not None:
        os.close(slave)
    res = {}

    def terminal():
        buf = []
        while True:
            try:
                b = os.read(master, 65536)
            except OSError:
                b = b""
            if not b:
                break
            buf.append(b)
        os.close(master)
        res["tty"] = b"".join(buf).replace(b"\r\n", b"\n")

    def reader():
        t = None
        if master is not None:
            t = threading.Thread(target=terminal, daemon=True)
            t.start()
        res["o"], res["e"] = p.communicate()
        if t:
            t.join(20)
            res["o" if tty == "stdout" else "e"] = res.get("tty", b"")

    th = threading.Thread(target=reader, daemon=True)
    th.start()
    start, last, mtime, stalled = time.time(), time.time(), None, False
    while th.is_alive():
        th.join(0.02 if time.time() - start < 2 else 0.5)
        now = time.time()
        if progress and stall:
            try:
                m = os.stat(progress).st_mtime_ns
            except OSError:
                m = None
            if m != mtime:
                mtime, last = m, now
        else:
            last = start
        if th.is_alive() and (now - start > timeout or (stall and now - last > stall)):
            stalled = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            th.join(20)
            break
    return Done(p.returncode if p.returncode is not None else -9, res.get("o", b"").decode(errors="replace"),
                res.get("e", b"").decode(errors="replace")[-20000:], stalled)


# ---------------------------------------------------------------------------- single cases


CASE_TIMEOUT = {"miri": 240, "miri-tb": 240}


def one(config, binname, suite, scale, choices, timeout=None, extra=()):
    """Runs one case. Returns (failed?, message, normalised choices, description)."""
    args = ["one", f"suite={suite}", f"scale={scale}", "choices=" + ",".join(map(str, choices)), "verbose=1"] + list(extra)
    d = execute(config, binname, args, timeout or CASE_TIMEOUT.get(config, 60))
    return verdict(d, choices)


def verdict(d, choices):
    if d.rc in (0, 10) and not d.stalled:
        try:
            j = json.loads(d.out.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return (False, "unreadable output: " + d.out[-300:], choices, [])
        return (not j["ok"], j["msg"], j["choices"], j["desc"])
    if d.crashed():
        return (True, "crash: " + d.why(), choices, [])
    if d.stalled:
        return (None, "does not terminate", choices, [])
    return (False, f"undecided ({d.rc}): {d.err[-400:]}", choices, [])


def dumps(config, binname, suite, scale, choices):
    """What the case dumps, and its normalised choices and description."""
    args = ["one", f"suite={suite}", f"scale={scale}", "choices=" + ",".join(map(str, choices)), "verbose=1", "dump=1"]
    d = execute(config, binname, args, CASE_TIMEOUT.get(config, 60))
    try:
        j = json.loads(d.out.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return None, choices, []
    return j["dump"], j["choices"], j["desc"]


def differ(a, b, binname, suite, scale, choices):
    """Do the configurations `a` and `b` print different texts?"""
    x, norm, desc = dumps(a, binname, suite, scale, choices)
    y, _, _ = dumps(b, binname, suite, scale, choices)
    if x is None or y is None or x == y:
        return False, "the texts are the same", norm, desc
    for p, q in zip(x.split("\1"), y.split("\1")):
        if p != q:
            return True, f"the text differs between {a} and {b}:\n{p[:2000]}\n{q[:2000]}", norm, desc
    return True, f"the texts differ between {a} and {b}", norm, desc


def compare_dumps(check, results):
    """Cases with the same index must have dumped the same in every configuration."""
    seen, first, n = {}, None, 0
    for j, d, out, _ in results:
        if not j.get("dump") or not os.path.exists(out + ".dump"):
            continue
        for line in open(out + ".dump"):
            index, h = line.split()
            k = (j["suite"], int(index))
            if k not in seen:
                seen[k] = (h, j)
            else:
                n += 1
                if seen[k][0] != h and (first is None or k < first[0]):
                    first = (k, seen[k][1], j)
    check.extra_cov["texts_compared_between_configurations"] = n
    if not first or check.violations:
        return
    (suite, index), ja, jb = first
    stream = os.path.join(check.work, "differ.stream")
    execute(ja["config"], check.bin, ["one", f"suite={suite}", f"scale={ja['scale']}", f"seed={check.seed}", f"index={index}",
                                      f"stream={stream}"], 60)
    choices = [int(x) for x in open(stream).read().split()]
    def judge(c):
        return differ(ja["config"], jb["config"], check.bin, suite, ja["scale"], c)

    bad, msg, norm, desc = judge(choices)
    if not bad:
        check.troubles.append(f"{suite} case {index}: texts of {ja['config']} and {jb['config']} differ in the run but not again")
        return
    small, _ = shrink(ja["config"], check.bin, suite, ja["scale"], norm, msg, 30, judge)
    bad2, msg2, norm2, desc2 = judge(small)
    if bad2:
        norm, msg, desc = norm2, msg2, desc2
    check.violation(ja, norm, msg, desc, dict(compare=[ja["config"], jb["config"]]))


def shrink(config, binname, suite, scale, choices, msg, budget_s, judge=None):
    """Greedy choice-sequence shrinking; every candidate is judged by running it."""
    judge = judge or (lambda c: one(config, binname, suite, scale, c, 20))
    end = time.time() + budget_s
    best, best_msg = list(choices), msg
    seen = set()

    def attempt(batch):
        """Runs candidates in parallel, returns the first (in order) that still fails."""
        batch = [c for c in batch if tuple(c) not in seen]
        for c in batch:
            seen.add(tuple(c))
        if not batch or time.time() > end:
            return None
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for c, (bad, m, norm, _) in zip(batch, ex.map(judge, batch)):
                if bad:
                    n = norm if len(norm) <= len(c) and norm else c
                    while n and n[-1] == 0:
                        n = n[:-1]
                    return n, m
        return None

    def key(c):
        return (len(c), sum(min(v, 1 << 40) for v in c))

    improved = True
    while improved and time.time() < end:
        improved = False
        cands = []
        n = len(best)
        for k in (n // 2, n // 4, 8, 4, 2, 1):
            if k <= 0:
                continue
            cands += [best[:i] + best[i + k:] for i in range(0, n - k + 1, max(1, k // 2))][::-1]
        cands += [best[:i] + [0] * min(k, n - i) + best[i + k:] for k in (4, 1) for i in range(0, n) if any(best[i:i + k])]
        for i, v in enumerate(best):
            for w in ([v // 2, v - 1] if v > 1 else []):
                cands.append(best[:i] + [w] + best[i + 1:])
        cands = [c for c in cands if key(c) < key(best)]
        for i in range(0, len(cands), NPROC * 2):
            r = attempt(cands[i:i + NPROC * 2])
            if r and key(r[0]) < key(best):
                best, best_msg = r
                improved = True
                break
            if time.time() > end:
                break
    return best, best_msg


def locate(config, binname, suite, scale, seed, progress):
    """Choices of the case that was running when the process ended."""
    try:
        text = open(progress).read().splitlines()[0].split()
    except (OSError, IndexError):
        return None
    if text[0] == "exh":
        return [int(x) for x in text[1:]]
    stream = progress + ".stream"
    if text[0] == "guided":
        which = ["choices=" + ",".join(text[2:]), f"tail={text[1]}"]
    else:
        which = [f"seed={seed}", f"index={text[1]}"]
    execute(config, binname, ["one", f"suite={suite}", f"scale={scale}", f"stream={stream}"] + which, CASE_TIMEOUT.get(config, 60))
    try:
        return [int(x) for x in open(stream).read().split()]
    except OSError:
        return None


# ---------------------------------------------------------------------------- known findings


def known_findings(prop):
    """`finding: property=<id> match=<text> :: <what fails>` lines; `fixed:` lines suppress nothing."""
    res = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line and " match=" in line:
                head, what = line.split(" :: ", 1)
                res.append((head.split(" match=", 1)[1], what))
    return res


# ---------------------------------------------------------------------------- a whole check


class Check:
    def __init__(self, prop, tier, seed, spec):
        self.prop, self.tier, self.seed, self.spec = prop, tier, seed, spec
        self.bin = spec["bin"]
        self.t0 = time.time()
        self.work = os.path.join(OUT, f"{prop}.{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        self.cases = self.evals = self.nontrivial = 0
        self.hashes = {}
        self.labels, self.samples, self.per = {}, [], {}
        self.exhaustive = []
        self.violations = []
        self.extra_cov = {}
        self.troubles = []

    def jobs(self, runs, suites):
        for r in runs:
            names = r.get("suites") or suites
            for s in names:
                if s in r.get("exclude", ()):
                    continue
                n = r["n"]
                mode = r.get("mode", "rand")
                shards = r.get("shards") or (1 if mode != "rand" else max(1, min(NPROC, n // r.get("chunk", 2000))))
                for k in range(shards):
                    cfg = r["config"]
                    yield dict(config=cfg, suite=s, mode=mode, shard=k, shards=shards, scale=r.get("scale", 0),
                               n=10 ** 9 if mode == "exh" else (n + shards - 1 - k) // shards, timeout=r.get("timeout", 700),
                               stall=r.get("stall", 240 if cfg.startswith("miri") else 120), dump=r.get("dump"), secs=r.get("secs"))

    def run_job(self, j, ident):
        out = os.path.join(self.work, f"{ident}.json")
        prog = os.path.join(self.work, f"{ident}.progress")
        args = ["run", f"suite={j['suite']}", f"mode={j['mode']}", f"seed={self.seed}", f"n={j['n']}", f"shard={j['shard']}",
                f"shards={j['shards']}", f"scale={j['scale']}", f"out={out}", f"progress={prog}", "samples=2"]
        if j.get("dump"):
            args.append(f"dump={out}.dump")
        if j.get("secs"):
            args.append(f"secs={j['secs']}")
        t = time.time()
        d = execute(j["config"], self.bin, args, j["timeout"], prog, j["stall"])
        j["wall"] = time.time() - t
        j["out"] = out
        return j, d, out, prog

    def absorb(self, j, out):
        with open(out) as f:
            s = json.load(f)
        self.cases += s["cases"]
        self.evals += s["evals"]
        self.nontrivial += s["nontrivial"]
        raw = open(out + ".hashes", "rb").read()
        # the same cases in another build configuration count once
        self.hashes.setdefault(j["suite"], set()).update(struct.unpack(f"<{len(raw) // 8}Q", raw))
        for k, v in s["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        for x in s["samples"]:
            if len(self.samples) < 400:
                self.samples.append(x)
        key = f"{j['config']}/{j['suite']}" + {"exh": "/exhaustive", "guided": "/coverage-guided"}.get(j["mode"], "")
        p = self.per.setdefault(key, dict(cases=0, evals=0, wall_s=0.0))
        p["cases"] += s["cases"]
        p["evals"] += s["evals"]
        p["wall_s"] = round(p["wall_s"] + j["wall"], 1)
        if j["mode"] == "guided":
            p["kept"] = p.get("kept", 0) + s["corpus"][0]
            p["edges_reached"] = max(p.get("edges_reached", 0), s["corpus"][1])
            p["edges"] = s["corpus"][2]
        if j["mode"] == "exh":
            self.exhaustive.append(s["complete"])
        return s

    def run(self):
        runs = self.spec["runs"][self.tier]
        configs = []
        for r in runs:
            if base(r["config"]) not in configs:
                configs.append(base(r["config"]))
        for c in self.spec.get("needs", []):
            if c not in configs:
                configs.append(c)
        # miri and miri-tb share a target directory and build
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(build, c, self.bin) for c in configs]:
                f.result()
        first = configs[0]
        d = execute(first, self.bin, ["list"], 120)
        suites = d.out.split()
        if d.rc != 0 or not suites:
            raise Trouble("cannot list suites: " + d.err[-500:])
        jobs = list(self.jobs(runs, suites))
        # slow configurations first
        jobs.sort(key=lambda j: (not j["config"].startswith("miri"), j["config"] != "asan"))
        stop = threading.Event()
        results = []

        def work(a):
            i, j = a
            if stop.is_set():
                return None
            r = self.run_job(j, f"{i}-{j['config']}-{j['suite']}-{j['shard']}")
            if r[1].rc != 0 or r[1].stalled:
                stop.set()
            return r

        with cf.ThreadPoolExecutor(NPROC) as ex:
            results = [r for r in ex.map(work, enumerate(jobs)) if r]
        bad = []
        for j, d, out, prog in results:
            if d.rc in (0, 10) and not d.stalled and os.path.exists(out):
                s = self.absorb(j, out)
                if s["violation"]:
                    bad.append((j, s["violation"]["msg"], s["violation"]["choices"], False))
            elif d.crashed():
                c = locate(j["config"], self.bin, j["suite"], j["scale"], self.seed, prog)
                bad.append((j, "crash: " + d.why(), c, True))
            elif d.stalled:
                c = locate(j["config"], self.bin, j["suite"], j["scale"], self.seed, prog)
                bad.append((j, "does not terminate", c, True))
            else:
                self.troubles.append(f"{j['config']}/{j['suite']} shard {j['shard']} ended with {d.rc}: {d.err[-800:]}")
        for extra in self.spec.get("extras", []):
            extra(self, results)
        for j, msg, choices, confirm in bad[:3]:
            self.report(j, msg, choices, confirm)
            if self.violations:
                break
        return results

    def report(self, j, msg, choices, confirm):
        cfg, suite, scale = j["config"], j["suite"], j["scale"]
        if choices is None:
            self.troubles.append(f"{cfg}/{suite}: {msg}, and the case could not be located")
            return
        failed, m, norm, desc = one(cfg, self.bin, suite, scale, choices)
        if failed is None and msg == "does not terminate":
            self.violation(j, choices, "does not terminate (a case like this takes milliseconds)", [])
            return
        if not failed and msg != m and self.spec.get("nondeterministic"):
            for _ in range(20):
                failed, m, norm, desc = one(cfg, self.bin, suite, scale, choices)
                if failed:
                    break
        if not failed:
            # seen once but not again: a schedule-dependent failure is still one, if the oracle itself said so
            if not confirm:
                self.violation(j, choices, msg + " (schedule-dependent: not every replay shows it)", desc)
            else:
                self.troubles.append(f"{cfg}/{suite}: {msg}; not reproducible: {m}")
            return
        budget = 60 if cfg.startswith("miri") else 40
        small, m2 = shrink(cfg, self.bin, suite, scale, norm or choices, m, budget)
        f2, m3, norm2, desc2 = one(cfg, self.bin, suite, scale, small)
        if f2:
            self.violation(j, norm2 or small, m3, desc2)
        else:
            self.violation(j, norm, m, desc)

    def violation(self, j, choices, msg, desc, extra=None):
        rep = dict(property=self.prop, bin=self.bin, config=j["config"], suite=j["suite"], scale=j["scale"], choices=choices, message=msg,
                   description=desc, seed=self.seed, tier=self.tier)
        rep.update(extra or {})
        for text, what in known_findings(self.prop):
            if text in msg or any(text in d for d in desc):
                print(f"KNOWN-FINDING: property={self.prop} {what}", flush=True)
                return
        os.makedirs(OUT, exist_ok=True)
        h = hashlib.sha256(json.dumps([self.prop, j["config"], j["suite"], choices]).encode()).hexdigest()[:10]
        path = os.path.join(OUT, f"{self.prop}-{h}.replay.json")
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        log(f"[violation] {j['config']}/{j['suite']}: {msg}")
        for x in desc:
            log("    " + x)
        self.violations.append(path)

    def evidence(self):
        distinct = sum(len(v) for v in self.hashes.values())
        cov = dict(
            evaluations=self.evals,
            cases=self.cases,
            distinct_nontrivial=distinct,
            nontrivial_including_repeats=self.nontrivial,
            rule=self.spec["rule"],
            samples=pick(self.samples, 12),
            labels=self.labels,
            per_run=self.per,
        )
        if self.exhaustive:
            cov["exhaustive_subspaces_completed"] = sum(self.exhaustive)
            cov["exhaustive"] = bool(self.spec.get("exhaustive")) and all(self.exhaustive)
        cov.update(self.extra_cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.spec["level"], coverage=cov,
                  assumptions=self.spec.get("assumptions", []), wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)


def pick(samples, n):
    """Spread over the suites."""
    by = {}
    for s in samples:
        by.setdefault(s.split("]")[0], []).append(s)
    res = []
    while by and len(res) < n:
        for k in list(by):
            res.append(by[k].pop(0))
            if not by[k]:
                del by[k]
            if len(res) >= n:
                break
    return res


def main_check(prop, tier, seed, spec):
    c = Check(prop, tier, seed, spec)
    code = 2
    try:
        c.run()
        if c.violations:
            code = 1
        elif c.troubles:
            code = 2
        else:
            code = 0
        c.evidence()
    except Trouble as e:
        log(f"[trouble] {e}")
        code = 2
    finally:
        c.finish()
    for t in c.troubles:
        log(f"[trouble] {t}")
    for v in c.violations:
        print(f"VIOLATION property={prop} replay={v}", flush=True)
    distinct = sum(len(v) for v in c.hashes.values())
    print(f"{prop} {tier}: {c.cases} cases, {c.evals} evaluations, {distinct} distinct non-trivial, "
          f"{time.time() - c.t0:.0f}s -> {'VIOLATED' if code == 1 else 'held' if code == 0 else 'UNDECIDED'}", flush=True)
    return code
