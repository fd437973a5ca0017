"""Driver library: build harnesses from /repo's working tree, run them under instrumentation,
collect what the monitors observed, decide, and write the evidence file."""
import array, concurrent.futures, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BITLIB_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
NCPU = max(2, min(8, os.cpu_count() or 8))
WORDS = ["std::uint8_t", "std::uint16_t", "std::uint32_t", "std::uint64_t"]
SHORT = {"std::uint8_t": "u8", "std::uint16_t": "u16", "std::uint32_t": "u32", "std::uint64_t": "u64",
         "unsigned long long": "ull"}
STATE_FMT = "<QQ240s"

class HarnessError(Exception):
    pass

def cpu_flags():
    try:
        with open("/proc/cpuinfo") as f:
            m = re.search(r"^flags\s*:(.*)$", f.read(), re.M)
            return set(m.group(1).split()) if m else set()
    except OSError:
        return set()

NATIVE = ["-march=native"]
SAN = ["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]

class Build:
    """One compilation configuration of a harness."""
    def __init__(self, name, cxx="g++", std="c++17", flags=(), defs=(), san=False, weight=1.0, libs=(), words=None, slow=1.0, cpu=0):
        self.name, self.cxx, self.std = name, cxx, std
        self.flags, self.defs, self.libs = list(flags), list(defs), list(libs)
        self.san, self.weight, self.words = san, weight, words
        self.slow = slow
        self.cpu = cpu          # processor features hidden from the program (harness/cpu.hpp)
    def with_(self, **kw):
        b = Build(self.name, self.cxx, self.std, self.flags, self.defs, self.san, self.weight, self.libs, self.words, self.slow, self.cpu)
        for k, v in kw.items(): setattr(b, k, v)
        return b

# Sanitized configurations
G17S = Build("gcc17-asan-ubsan", "g++", "c++17", SAN, san=True)
G17HS = Build("gcc17-hwy-asan-ubsan", "g++", "c++17", SAN, ["BITLIB_HWY"], san=True)
G20PS = Build("gcc20-ptr-asan-ubsan", "g++", "c++20", SAN, ["ITER_PTR"], san=True)
C20S = Build("clang20-asan-ubsan", "clang++", "c++20", SAN, san=True)
C20HS = Build("clang20-hwy-asan-ubsan", "clang++", "c++20", SAN, ["BITLIB_HWY"], san=True)
# Optimised configurations
G17O = Build("gcc17-O2", "g++", "c++17", ["-O2"], weight=4)
G20O = Build("gcc20-O3-native-mixed", "g++", "c++20", ["-O3"] + NATIVE, ["ITER_MIXED"], weight=4)
G20HO = Build("gcc20-hwy-O2-native", "g++", "c++20", ["-O2"] + NATIVE, ["BITLIB_HWY"], weight=4)
C20O = Build("clang20-O2", "clang++", "c++20", ["-O2"], weight=4)
# Thread sanitizer
TSAN = ["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
G17T = Build("gcc17-tsan", "g++", "c++17", TSAN, san=True, libs=["-pthread"])
C20T = Build("clang20-tsan", "clang++", "c++20", TSAN, san=True, libs=["-pthread"])
G17HT = Build("gcc17-hwy-tsan", "g++", "c++17", TSAN, ["BITLIB_HWY"], san=True, libs=["-pthread"])
# Large data: undefined-behaviour checks at full optimisation
G17L = Build("gcc17-O2-ubsan", "g++", "c++17", ["-g1", "-O2", "-fsanitize=undefined", "-fno-sanitize-recover=all"], san=True)
G17HL = Build("gcc17-hwy-O2-native", "g++", "c++17", ["-O2"] + NATIVE, ["BITLIB_HWY"])
C20L = Build("clang20-O2-ubsan", "clang++", "c++20", ["-g1", "-O2", "-fsanitize=undefined", "-fno-sanitize-recover=all"], san=True)
C20HO = Build("clang20-hwy-O2-native", "clang++", "c++20", ["-O2"] + NATIVE, ["BITLIB_HWY"], weight=4)
G17HO = Build("gcc17-hwy-O2", "g++", "c++17", ["-O2"], ["BITLIB_HWY"], weight=4)

# Other sequences of words
PTR17S = Build("ptr-gcc17-asan-ubsan", "g++", "c++17", SAN, ["ITER_PTR"], san=True)
DQ17S = Build("deque-gcc17-asan-ubsan", "g++", "c++17", SAN, ["ITER_DEQUE"], san=True)
DQ20HS = Build("deque-clang20-hwy-asan-ubsan", "clang++", "c++20", SAN, ["ITER_DEQUE", "BITLIB_HWY"], san=True)
# Checked iterators of the standard library, and spies that count and check every access
G17D = Build("debug-gcc17", "g++", "c++17", ["-O1", "-g1"], ["_GLIBCXX_DEBUG"])
G17HD = Build("debug-gcc17-hwy", "g++", "c++17", ["-O1", "-g1"], ["_GLIBCXX_DEBUG", "BITLIB_HWY"])
G20D = Build("debug-gcc20", "g++", "c++20", ["-O1", "-g1"], ["_GLIBCXX_DEBUG"])
DQ17D = Build("debug-gcc17-deque", "g++", "c++17", ["-O1", "-g1"], ["_GLIBCXX_DEBUG", "ITER_DEQUE"])
SPY17 = Build("spy-gcc17", "g++", "c++17", ["-O2"], ["ITER_SPY"], weight=2)
SPY20 = Build("spy-clang20", "clang++", "c++20", ["-O2"], ["ITER_SPY"], weight=2)

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:malloc_context_size=6:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
    "LC_ALL": "C",
}

# The same programs on a processor without some of its vector extensions
def older_cpus(b):
    return [b.with_(name=b.name + "-" + n, cpu=l) for l, n in ((1, "no-avx512"), (2, "no-avx2"), (3, "no-popcnt"), (4, "no-xsave"))]

def classify(rc, text):
    """Kind of failure of a monitored process, from its exit status and report."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        k = "asan-" + m.group(1)
        if m.group(1) in ("SEGV",):
            k = "asan-SEGV"
        return k
    m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+?) \(", text)
    if m:
        return "tsan-" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"runtime error: (.*)", text)
    if m:
        t = m.group(1)
        for pat, k in (("shift exponent", "shift-exponent"), ("left shift of", "left-shift"), ("misaligned", "misaligned"),
                       ("overflow", "overflow"), ("null pointer", "null"), ("out of bounds", "bounds"), ("unreachable", "unreachable"),
                       ("not a valid value", "invalid-value"), ("missing return", "noreturn"), ("division by zero", "div0")):
            if pat in t:
                return "ubsan-" + k
        return "ubsan-" + re.sub(r"[^a-z]+", "-", t.lower())[:40]
    m = re.search(r"^Error: (attempt|.*iterator)", text, re.M)
    if m and rc in (-signal.SIGABRT, 134):
        return "iterator-debug"
    if "Assertion" in text and rc in (-signal.SIGABRT, 134):
        return "assert"
    if "terminate called" in text or "terminating" in text:
        return "terminate"
    if rc < 0:
        return "signal-%d" % -rc
    return "exit-%d" % rc

def frames(text, n=6):
    out = [m.group(0) for m in re.finditer(r"^Error: .*(?:\n .*)?", text, re.M)]
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*)", text):
        out.append(m.group(1)[:160])
        if len(out) >= n: break
    return out

class Known:
    def __init__(self, path=os.path.join(VERIF, "known-findings.json")):
        self.items = []
        if os.path.exists(path):
            with open(path) as f:
                self.items = json.load(f)["findings"]
    def match(self, prop, key):
        for it in self.items:
            if it.get("status") == "known" and it["property"] == prop and re.fullmatch(it["key"], key):
                return it
        return None

class Check:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="bitlib-vp-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
        self.known = Known()
        self.evals = self.events = self.checks = 0
        self.classes = {}
        self.samples = []
        self.distinct = set()
        self.violations = {}       # key -> info
        self.known_hit = {}
        self.configs = []
        self.inconclusive = []
        self.extra = {}
        self.assumptions = []
        self.rule = ""
        self.key_filter = None     # regex: which keys count for this property
        self.ignored = {}
        self.lock = threading.RLock()
        self.not_compiled = []
        self.queue = []
        self.runs = 0
        self.case_cpu_s = 40       # CPU time after which a single small case counts as a hang
        self.thorough = self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build
    def compile(self, src, build, defs=(), out=None, allow_fail=False):
        out = out or os.path.join(self.dir, "p%d" % (hash((src, build.name, tuple(defs))) & 0xffffffffffff))
        cmd = [build.cxx, "-std=" + build.std, "-w"] + build.flags + ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS]
        cmd += ["-D" + d for d in build.defs + list(defs)]
        cmd += [os.path.join(HARNESS, src), "-o", out] + build.libs
        # A harness may leave out internal helpers that the tree no longer has under that name (NO_<HELPER>):
        # what they did is then judged through the public operations only.
        optional = re.findall(r"#ifndef NO_(\w+)", open(os.path.join(HARNESS, src)).read())
        while True:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 0 or not optional: break
            errors = [l for l in p.stdout.splitlines() if "error:" in l]
            gone = [o for o in optional if any(re.search(r"\b_%s\b" % o.lower(), l) for l in errors)]
            if not gone: break
            optional = [o for o in optional if o not in gone]
            cmd[-3 - len(build.libs):-3 - len(build.libs)] = ["-DNO_" + o for o in gone]
            with self.lock: self.not_compiled.append({"config": build.name, "error": "left out: " + ", ".join(gone) + ": " + errors[0][-300:]})
        if p.returncode != 0:
            if allow_fail: return None
            raise HarnessError("compilation failed (%s): %s\n%s" % (build.name, " ".join(cmd), p.stdout[-3000:]))
        return out

    # ---------------------------------------------------------------- run
    def _exec(self, exe, args, cpu_s, wall_s, mem_gb=None):
        env = dict(os.environ); env.update(SAN_ENV)
        lim = "ulimit -c 0; ulimit -S -t %d; ulimit -H -t %d; " % (int(cpu_s), int(cpu_s) + 10)
        if mem_gb: lim += "ulimit -v %d; " % int(mem_gb * 2**20)
        cmd = ["/bin/sh", "-c", lim + 'exec "$0" "$@"', exe] + args
        errp = tempfile.NamedTemporaryFile(dir=self.dir, delete=False)
        try:
            p = subprocess.Popen(cmd, stdout=errp, stderr=subprocess.STDOUT, env=env, cwd=self.dir)
            try:
                rc = p.wait(timeout=wall_s)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = "wall"
            errp.flush()
            with open(errp.name, errors="replace") as f:
                f.seek(0, 2); size = f.tell(); f.seek(0)
                text = f.read(20000)
                if size > 20000: text += "\n...\n"
            if rc == -signal.SIGXCPU: rc = "cpu"
            return rc, text
        finally:
            errp.close(); os.unlink(errp.name)

    def _merge(self, path):
        with open(path) as f:
            o = json.load(f)
        with self.lock: self._merge_locked(o, path)
        return o

    def _merge_locked(self, o, path):
        self.evals += o["cases"]; self.events += o["events"]; self.checks += o["checks"]
        for k, v in o["classes"].items(): self.classes[k] = self.classes.get(k, 0) + v
        if len(self.samples) < 12:
            self.samples += o["samples"][:2 if len(self.samples) else 4]
        a = array.array("Q")
        if os.path.exists(path + ".distinct"):
            with open(path + ".distinct", "rb") as f: a.frombytes(f.read())
            os.unlink(path + ".distinct")
            self.distinct.update(a)
        os.unlink(path)

    def report(self, key, what, replay):
        if self.key_filter and not re.search(self.key_filter, key):
            self.ignored[key] = self.ignored.get(key, 0) + 1
            return "ignored"
        it = self.known.match(self.prop, key)
        if it:
            self.known_hit[it["key"]] = it
            return "known"
        if key not in self.violations:
            self.violations[key] = {"key": key, "what": what, "replay": replay}
        return "violation"

    def run_shard(self, exe, label, meta, frm, to, cpu_s=150, wall_s=600, extra=(), mem_gb=None):
        """Runs cases [frm,to) of one binary, restarting after crashes; merges what was observed."""
        with self.lock: self.runs += 1; tag = "%s-%d-%d" % (os.path.basename(exe), frm, self.runs)
        out = os.path.join(self.dir, tag + ".json"); st = os.path.join(self.dir, tag + ".st")
        restarts, retried = 0, False
        start = frm
        while start < to:
            if self.violations: return      # one witness is enough: the remaining work is skipped
            for f in (out, st):
                if os.path.exists(f): os.unlink(f)
            args = ["--seed", str(self.seed), "--from", str(start), "--to", str(to), "--out", out, "--state", st] + list(extra)
            rc, text = self._exec(exe, args, cpu_s, wall_s, mem_gb)
            base = dict(meta, seed=self.seed, label=label)
            if rc == 0:
                o = self._merge(out)
                for v in o["violations"]:
                    self.report(v["key"], "%s [%s]" % (v["what"], label), dict(base, case=v["case"]))
                return
            if rc in (96, 97):
                raise HarnessError("harness error in %s: %s" % (label, text[-1500:]))
            idx, ev, key = start, 0, "?"
            if os.path.exists(st):
                with open(st, "rb") as f: raw = f.read()
                if len(raw) >= struct.calcsize(STATE_FMT):
                    idx, ev, key = struct.unpack(STATE_FMT, raw[:struct.calcsize(STATE_FMT)])
                    key = key.split(b"\0")[0].decode("latin1") or "?"
            if rc in ("wall", "cpu") or rc == -signal.SIGKILL:
                # Decide on CPU time of the single case, never on the wall clock of a loaded machine
                hung = 0
                for _ in range(2):
                    if self.violations: return
                    r2, t2 = self._exec(exe, ["--seed", str(self.seed), "--from", str(idx), "--to", str(idx + 1), "--out", out, "--state", st] + list(extra), self.case_cpu_s, 600, mem_gb)
                    if r2 == "cpu": hung += 1
                if hung == 2:
                    v = self.report(key + ":hang", "case %d did not finish within %d s of CPU time (twice) [%s]" % (idx, self.case_cpu_s, label), dict(base, case=idx))
                    if v == "violation": return
                    start = idx + 1; restarts += 1
                    if restarts > 30: self.inconclusive.append(label + ": too many restarts"); return
                    continue
                if not retried:
                    retried = True; continue
                self.inconclusive.append("%s: stopped by the watchdog at case %d (rc=%s), single case terminates" % (label, idx, rc))
                return
            if classify(rc, text).startswith("tsan-"):
                # A race report is a witness in itself: whether the race shows again depends on the schedule
                kind = classify(rc, text)
                v = self.report("%s:%s" % (key, kind), "%s at %s [%s]" % (kind, "; ".join(frames(text, 4)), label),
                                dict(base, case=idx, report=text[-12000:], **{"from": start, "to": idx + 1}))
                if v == "violation": return
                start = idx + 1; restarts += 1
                if restarts > 40: self.inconclusive.append(label + ": too many restarts"); return
                continue
            # Crash or sanitizer report: confirm with the single case
            r2, t2 = self._exec(exe, ["--seed", str(self.seed), "--from", str(idx), "--to", str(idx + 1), "--out", out, "--state", st, "--verbose"] + list(extra), 120, 600, mem_gb)
            whole = False
            if r2 == 0:
                r3, t3 = self._exec(exe, args, cpu_s, wall_s, mem_gb)
                if r3 in (0, "wall", "cpu", 96, 97, -signal.SIGKILL):
                    if not retried:
                        retried = True; continue
                    self.inconclusive.append("%s: crash at case %d did not reproduce (%s)" % (label, idx, classify(rc, text)))
                    return
                t2, r2, whole = t3, r3, True
            kind = classify(r2 if isinstance(r2, int) else 1, t2)
            m = re.search(r"^CASE \d+: (.*)$", t2, re.M)
            what = "%s: %s at %s [%s]" % (kind, m.group(1) if m else key, "; ".join(frames(t2, 4)), label)
            rep = dict(base, case=idx, report=t2[-6000:])
            if whole: rep.update({"from": start, "to": idx + 1})
            v = self.report("%s:%s" % (key, kind), what, rep)
            if v == "violation": 
                return
            # keep what earlier cases of this shard observed, then go on behind the failing case
            if idx > start:
                rc4, _ = self._exec(exe, ["--seed", str(self.seed), "--from", str(start), "--to", str(idx), "--out", out, "--state", st] + list(extra), cpu_s, wall_s, mem_gb)
                if rc4 == 0:
                    o = self._merge(out)
                    for vv in o["violations"]:
                        self.report(vv["key"], "%s [%s]" % (vv["what"], label), dict(base, case=vv["case"]))
            start = idx + 1
            restarts += 1
            if restarts > 40:
                self.inconclusive.append(label + ": too many restarts"); return

    def run_matrix(self, src, builds, cases, defs=(), words=None, shards=1, extra=(), cpu_s=150, wall_s=600, mem_gb=None, jobs=None, salt=True, defer=False):
        """Compiles src for every build and word type in parallel, and runs `cases` (times the
        build's weight) cases of each."""
        builds = [b for k, b in enumerate(builds) if b not in builds[:k]]
        for b in builds:
            for w in (b.words or words or WORDS):
                self.queue.append(dict(src=src, b=b, w=w, salt=1 + builds.index(b) if salt else None, cases=cases, defs=list(defs), shards=shards, extra=list(extra), cpu_s=cpu_s, wall_s=wall_s, mem_gb=mem_gb))
        if not defer: self.flush(jobs)

    def flush(self, jobs=None):
        """Compiles and runs everything queued by run_matrix."""
        tasks, self.queue = self.queue, []
        ok = {}
        failed = []
        def work(t):
            if self.violations: return None
            b, w = t["b"], t["w"]
            d = t["defs"] + (["WORD=" + w] if w else [])
            label = "%s/%s" % (b.name, SHORT.get(w, w) if w else "-")
            try:
                exe = self.compile(t["src"], b, d)
            except HarnessError as e:
                failed.append((label, str(e), t["src"])); return None
            n = max(1, int(t["cases"] * b.weight))
            # a salt per configuration: configurations see different cases
            ex2 = t["extra"] + (["--salt", str(t["salt"])] if t["salt"] else []) + (["--cpu", str(b.cpu)] if b.cpu else [])
            with self.lock:
                ok[t["src"]] = True
                self.configs.append({"config": label, "cases": n, "workload": " ".join([t["src"]] + t["defs"])})
            return t, d, label, exe, n, ex2
        def shard(args, k):
            if self.violations: return
            t, d, label, exe, n, ex2 = args
            b, shards = t["b"], t["shards"]
            lo, hi = n * k // shards, n * (k + 1) // shards
            meta = {"src": t["src"], "build": b.name, "cxx": b.cxx, "std": b.std, "flags": b.flags, "defs": b.defs + d, "libs": b.libs, "extra": ex2}
            self.run_shard(exe, label, meta, lo, hi, t["cpu_s"], t["wall_s"], ex2, t["mem_gb"])
        with concurrent.futures.ThreadPoolExecutor(jobs or NCPU) as ex:
            pending = {ex.submit(work, t) for t in tasks}
            runs = []
            while pending:
                done, pending = concurrent.futures.wait(pending, return_when=concurrent.futures.FIRST_COMPLETED)
                for f in done:
                    a = f.result()
                    if a: runs += [ex.submit(shard, a, k) for k in range(a[0]["shards"])]
            for r in runs: r.result()
        # A configuration that does not compile is not judged (a newer standard or another compiler may
        # reject code that the project's own configuration accepts), but it is reported, and the
        # project's own compiler and standard must be among those that ran.
        if failed:
            self.not_compiled += [{"config": l, "error": e[-400:]} for l, e, _ in failed]
            if not self.violations and any(l.startswith("gcc17") or src not in ok for l, e, src in failed):
                self.missing_use()
            if not self.violations:
                for l, e, src in failed:
                    if l.startswith("gcc17") or src not in ok: raise HarnessError(e)

    def missing_use(self):
        """After a harness failed to build: does the library still compile, but not the use of it that this property
        speaks of (harness/uses.cpp)? Then that is the violation; anything else stays an error."""
        n = self.prop[1:].lstrip("0")
        if "USE == %s\n" % n not in open(os.path.join(HARNESS, "uses.cpp")).read(): return
        def ok(u):
            exe = self.compile("uses.cpp", Build("use" + u, "g++", "c++17", [], ["USE=" + u]), allow_fail=True)
            return exe and self._exec(exe, [], 60, 300)[0] == 0
        if ok("0") and not ok(n):
            b = Build("use" + n, "g++", "c++17", [], ["USE=" + n])
            self.report("use/-:does-not-compile", "a use of the library that this property needs no longer compiles, links or works (harness/uses.cpp, USE=%s)" % n,
                        {"src": "uses.cpp", "build": b.name, "cxx": b.cxx, "std": b.std, "flags": [], "defs": b.defs, "libs": [], "seed": self.seed, "case": 0, "use": n})

    # ---------------------------------------------------------------- verdict
    def finish(self):
        wall = time.time() - self.t0
        rep_dir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rep_dir, exist_ok=True)
        for f in os.listdir(rep_dir):
            if f.startswith(self.prop + "-"): os.unlink(os.path.join(rep_dir, f))
        cov = {
            "evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
            "samples": [s[:600] for s in self.samples[:12]],
            "monitored_calls": self.events, "oracle_comparisons": self.checks,
            "observed_classes": dict(sorted(self.classes.items())[:400]), "configurations": self.configs,
        }
        cov.update(self.extra)
        if self.known_hit: cov["known_findings_observed"] = sorted(self.known_hit)
        if self.not_compiled: cov["configurations_not_compiled"] = self.not_compiled
        if self.inconclusive: cov["inconclusive"] = self.inconclusive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known_hit[k]["what"]))
        if self.violations:
            for i, (k, v) in enumerate(sorted(self.violations.items())[:10]):
                rp = os.path.join(rep_dir, "%s-%d.json" % (self.prop, i))
                with open(rp, "w") as f: json.dump(v, f, indent=1)
                print("key=%s %s" % (k, v["what"][:500]))
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.inconclusive:
            print("INCONCLUSIVE property=%s %s" % (self.prop, "; ".join(self.inconclusive)[:1000]))
            return 2
        if self.evals == 0 or self.checks == 0 or not self.distinct:
            print("INCONCLUSIVE property=%s: nothing observed" % self.prop)
            return 2
        print("held property=%s evaluations=%d distinct=%d comparisons=%d wall=%.1fs" % (self.prop, self.evals, len(self.distinct), self.checks, wall))
        return 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def replay(path):
    with open(path) as f: v = json.load(f)
    r = v["replay"]
    c = Check("replay")
    try:
        if "src" not in r:
            print(json.dumps(v, indent=1)); return 0
        b = Build(r["build"], r["cxx"], r["std"], r["flags"], r["defs"], libs=r["libs"])
        c.seed = r["seed"]
        exe = c.compile(r["src"], b, allow_fail="use" in r)
        if not exe: print("does not compile"); return 1
        lo, hi = r.get("from", r["case"]), r.get("to", r["case"] + 1)
        rc, text = c._exec(exe, ["--seed", str(r["seed"]), "--from", str(lo), "--to", str(hi), "--out", os.path.join(c.dir, "o.json"), "--verbose"] + r.get("extra", []), 300, 600)
        print(text[-8000:]); print("exit", rc)
        return 0 if rc == 0 and "MISMATCH" not in text else 1
    finally:
        c.close()
