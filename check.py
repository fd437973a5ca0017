#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property of BitLib by monitoring executions
   check.py replay <file>                  re-execute the case recorded in a replay file
   check.py setup                          check that the tools are there"""
import concurrent.futures, os, re, subprocess, sys, traceback
import vlib
from vlib import *

OPS = ["copy", "move", "copy_backward", "fill", "count", "find", "equal", "reverse", "rotate",
       "shift_left", "shift_right", "swap_ranges", "transform1", "transform2"]
ULL = ["unsigned long long"]
ALG_RULE = ("A case is one call on a freshly placed range: even cases sweep a grid of (start bit, length, second start bit) around word "
            "boundaries, odd cases draw stratified lengths up to 24000 bits (rarely 4 million), data patterns, paddings and overlaps. "
            "Non-trivial: the range is not empty and the call has something to do; distinct by length, bit offsets, operation, "
            "variant, parameters and word type.")
SAN_ASSUME = ["The sanitizers see only what the workload executes; accesses inside an allocation but outside the range are caught by the frame comparison (writes only).",
              "Word types uint8_t..uint64_t and unsigned long long, little-endian x86-64, gcc 13 and clang 18."]

def alg_builds(c):
    return [G17S, G17HS, G20PS, C20HS, G20O, G20HO, C20HO, DQ17S, PTR17S] + ([C20S, G17O, G17HO, C20O, DQ20HS] if c.thorough else [])

# Operations of large.cpp: each check of an operation also sees it beyond 2^24, 2^31 and 2^32 bits
LARGE = ["copy", "copy_backward", "fill", "count", "find", "equal", "reverse", "rotate", "shift_left", "shift_right", "swap_ranges", "transform1",
         "construct", "insertN", "insertR", "resize", "erase", "push_back"]
def large_ops(c, ops):
    c.case_cpu_s = 300
    k = sorted({LARGE.index(o) for o in ops if o in LARGE})
    defs = ["OPMASK=%du" % sum(1 << x for x in k)]
    n = len(k) * c.pick(2, 12)
    for size, words in ((0, ["std::uint8_t", "std::uint32_t"]), (1, ["std::uint8_t", "std::uint64_t"]), (2, ["std::uint64_t"])):
        c.run_matrix("large.cpp", [G17L, G17HL], n if size else 2 * n, ["SIZECLASS=%d" % size] + defs, words=words, shards=c.pick(1, 4), cpu_s=900, wall_s=850, jobs=6, defer=True)
    if "rotate" in ops: rotate_far(c)

def rotate_far(c):
    c.run_matrix("large.cpp", [G17L], 2, ["SIZECLASS=3", "OPMASK=128u"], words=["std::uint64_t"], shards=2, cpu_s=900, wall_s=850, defer=True)

def alg(ops):
    mask = sum(1 << OPS.index(o) for o in ops)
    def f(c):
        c.rule, c.assumptions = ALG_RULE, SAN_ASSUME
        b = alg_builds(c)
        n = c.pick(24000, 240000) * len(ops)
        defs = ["OPMASK=%du" % mask]
        c.run_matrix("alg.cpp", b, n, defs, shards=c.pick(1, 4), defer=True)
        if "count" in ops: c.run_matrix("alg.cpp", older_cpus(G17S) + older_cpus(G17O), n, defs, shards=c.pick(1, 4), defer=True)
        c.run_matrix("alg.cpp", [G17S, G20O], n, defs, words=ULL, shards=c.pick(1, 4))
        if not c.violations: large_ops(c, ops); c.flush(6)
    return f

def frame(c):
    c.rule, c.assumptions = ALG_RULE, SAN_ASSUME
    c.key_filter = r":frame$"
    n = c.pick(60000, 1500000)
    c.run_matrix("alg.cpp", [G17S, G17HS, G20O, G20HO] + c.pick([], [G20PS, C20HS, C20S, G17O, C20HO]), n, shards=c.pick(1, 4))

SANKEY = r":(asan|ubsan|signal|assert|terminate|hang|exit)"
def memory(c):
    c.rule = ("A case is one library call (or one history of calls on a vector, iterator, reference or stream) in a build with address and "
              "undefined-behaviour sanitizers, on buffers that hold exactly the words of the range. Non-trivial: the operation has something "
              "to do; distinct by operation, sizes, offsets, parameters and word type.")
    c.assumptions = SAN_ASSUME
    c.key_filter = SANKEY
    n = c.pick(60000, 1200000); s = c.pick(1, 3); two = c.pick(["std::uint8_t", "std::uint64_t"], WORDS)
    c.run_matrix("alg.cpp", [G17S, G17HS, G20PS, C20HS] + c.pick([], [C20S, DQ17S, PTR17S, DQ20HS]), n, shards=s, defer=True)
    c.run_matrix("prim.cpp", [G17S, C20HS], c.pick(20000, 400000), shards=s, defer=True)
    for mode in (1, 2, 3, 4, 5, 6):
        c.run_matrix("vec.cpp", c.pick([G17S], [G17S, G17HS, C20S]), c.pick(800, 20000), ["MODE=%d" % mode], words=two, shards=s, defer=True)
    for mode in (1, 2, 3):
        c.run_matrix("iter.cpp", [G17S] + c.pick([], [C20HS]), c.pick(3000, 60000), ["MODE=%d" % mode], words=two, shards=s, defer=True)
    for mode in (1, 2):
        c.run_matrix("value.cpp", [G17S] + c.pick([], [C20HS]), c.pick(3000, 60000), ["MODE=%d" % mode], words=two, shards=s, defer=True)
    c.flush()

def iterators(c):
    c.rule = ("A case is one library call, or one history of calls on a vector, over checked iterators: those of the standard library's debug mode, or "
              "spies that know their sequence. Non-trivial: the operation has something to do; distinct by operation, sizes, offsets, parameters and word type.")
    c.assumptions = ["Debug-mode iterators check positions, accesses and validity after reallocation; comparing iterators of different sequences for equality is not judged.",
                     "Results are judged by the other properties."]
    c.key_filter = r":(iterator-debug|access|range|foreign|assert|signal)"
    n = c.pick(40000, 800000); s = c.pick(1, 3); two = c.pick(["std::uint8_t", "std::uint64_t"], WORDS)
    c.run_matrix("alg.cpp", [G17D, G17HD, SPY17] + c.pick([], [G20D, DQ17D, SPY20]), n, shards=s, defer=True)
    for mode in (1, 2, 3, 4, 5, 6, 7):
        c.run_matrix("vec.cpp", c.pick([G17D], [G17D, G17HD, G20D]), c.pick(700, 15000), ["MODE=%d" % mode], words=two, shards=s, defer=True)
    for mode in (1, 2, 3):
        c.run_matrix("iter.cpp", [G17D] + c.pick([], [G20D]), c.pick(3000, 60000), ["MODE=%d" % mode], words=two, shards=s, defer=True)
    c.flush()

def cost(c):
    c.rule = ("A case is one call of a range algorithm over iterators that count accesses to words. " + ALG_RULE)
    c.assumptions = ["Cost is the number of accesses to words of the sequence (an observed quantity, not time), for the portable paths; vector instructions access memory without the iterator."]
    c.key_filter = r":cost$"
    c.run_matrix("alg.cpp", [SPY17] + c.pick([], [SPY20]), c.pick(100000, 2500000), shards=c.pick(2, 4))

# by mode of vec.cpp: histories, growth, construction, copies, capacity, access
LARGE_VEC = {1: ["insertN", "insertR", "erase", "push_back"], 2: ["resize", "insertN", "push_back"], 3: ["construct", "push_back"], 4: ["push_back"], 5: ["resize", "insertN"], 6: ["construct"]}
def vec(mode, cases, thorough_cases, rule, extra_builds=(), ndebug=True):
    def f(c):
        c.rule, c.assumptions = rule, SAN_ASSUME
        b = [G17S, G17HS, C20HS] + list(extra_builds) + c.pick([], [C20S, G17O])
        c.run_matrix("vec.cpp", b, c.pick(cases, thorough_cases), ["MODE=%d" % mode], shards=c.pick(1, 4))
        if mode in LARGE_VEC and not c.violations: large_ops(c, LARGE_VEC[mode]); c.flush(6)
    return f

def also_limits(f, which):
    def g(c):
        f(c)
        c.run_matrix("alloc.cpp", [G17S, C20HS], c.pick(1500, 40000), ["LIMITS=%d" % which], words=["std::uint8_t", "std::uint64_t"])
    return g

def simple(src, mode, cases, thorough_cases, rule, builds=None, words=None):
    def f(c):
        c.rule, c.assumptions = rule, SAN_ASSUME
        b = list(builds or [G17S, G17HS, G20PS, C20HS]) + c.pick([], [C20S, G17O, C20HO])
        c.run_matrix(src, b, c.pick(cases, thorough_cases), ["MODE=%d" % mode] if mode else [], words=words, shards=c.pick(1, 4))
    return f

# ------------------------------------------------------------------ agreement of configurations
def agreement(c):
    """The same calls in every configuration; the recorded event logs are compared off line."""
    c.rule = ("A case is one call made identically (same data, same placement) in every configuration; its event is the returned value and every "
              "word of every buffer, without the bits the call leaves unspecified. " + ALG_RULE)
    c.assumptions = SAN_ASSUME + ["Each configuration is compared with the plain gcc C++17 -O0 build."]
    flags = cpu_flags()
    builds = [Build("gcc17-O0", "g++", "c++17", ["-O0"]), G17HS, G20PS, G20O, G20HO, C20HO, G17O,
              Build("gcc17-hwy-sse4", "g++", "c++17", ["-O2", "-march=x86-64-v2"], ["BITLIB_HWY"])]
    builds += older_cpus(builds[0])
    if "avx2" in flags and "bmi2" in flags:
        builds.append(Build("clang20-hwy-avx2", "clang++", "c++20", ["-O2", "-march=x86-64-v3"], ["BITLIB_HWY"]))
        builds.append(Build("gcc17-hwy-avx2", "g++", "c++17", ["-O3", "-march=x86-64-v3"], ["BITLIB_HWY", "ITER_MIXED"]))
    if c.thorough:
        builds += [C20S, C20O, G17HO, Build("clang20-hwy-O0", "clang++", "c++20", ["-O0"], ["BITLIB_HWY"]), Build("clang20-native-O3-ptr", "clang++", "c++20", ["-O3"] + NATIVE, ["ITER_PTR"])]
        if "avx512f" in flags and "avx512bw" in flags and "avx512vl" in flags:
            builds.append(Build("gcc17-hwy-avx512", "g++", "c++17", ["-O2", "-march=x86-64-v4"], ["BITLIB_HWY"]))
    n = c.pick(40000, 900000); shards = c.pick(1, 3)
    agreed = [0]
    exes = {}
    def comp(t):
        b, w = t
        if c.violations: return
        try: exes[(b.name, w)] = c.compile("alg.cpp", b, ["WORD=" + w])
        except HarnessError as e: c.not_compiled.append({"config": "%s/%s" % (b.name, SHORT[w]), "error": str(e)[-400:]})
    def extra(b): return ["--salt", "1"] + (["--cpu", str(b.cpu)] if b.cpu else [])
    def meta(b, w): return {"src": "alg.cpp", "build": b.name, "cxx": b.cxx, "std": b.std, "flags": b.flags, "defs": b.defs + ["WORD=" + w], "libs": b.libs, "extra": extra(b), "seed": c.seed}
    def one(t):
        b, w, k = t
        exe = exes.get((b.name, w))
        if not exe: return None
        lo, hi = n * k // shards, n * (k + 1) // shards
        tr = "%s.%d.trace" % (exe, k); out = "%s.%d.json" % (exe, k); st = "%s.%d.st" % (exe, k)
        for attempt in (0, 1):
            rc, text = c._exec(exe, ["--seed", str(c.seed), "--from", str(lo), "--to", str(hi)] + extra(b) + ["--out", out, "--state", st, "--trace", tr], 400, 800)
            if rc == 0: c._merge(out); break
            if rc in (96, 97): raise HarnessError(text[-1500:])
        idx = key = None
        if rc != 0 and os.path.exists(st):
            raw = open(st, "rb").read()
            idx, _, key = struct.unpack(STATE_FMT, raw[:struct.calcsize(STATE_FMT)]); key = key.split(b"\0")[0].decode("latin1")
        ev = {}
        if os.path.exists(tr):
            with open(tr) as f:
                for line in f:
                    p = line.split()
                    if len(p) == 3 and len(p[2]) == 16: ev[int(p[0])] = (p[1], p[2])
            os.unlink(tr)
        return rc, text, idx, key, ev
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for w in WORDS:
            list(ex.map(comp, [(b, w) for b in builds]))
            if (builds[0].name, w) not in exes: raise HarnessError("the reference configuration does not compile: %s" % c.not_compiled[-1])
            for b in builds:
                if (b.name, w) in exes: c.configs.append({"config": "%s/%s" % (b.name, SHORT[w]), "cases": n, "workload": "alg.cpp, event log"})
            for k in range(shards):
                res = list(ex.map(one, [(b, w, k) for b in builds]))
                ref = res[0]
                for b, r in zip(builds, res):
                    if r is None or r is ref: continue
                    common = ref[4].keys() & r[4].keys()
                    c.checks += len(common); agreed[0] += len(common)
                    diff = sorted(i for i in common if ref[4][i][1] != r[4][i][1])
                    for i in diff[:3]:
                        c.report("%s:disagree" % r[4][i][0], "case %d: %s gives event %s, %s gives %s" % (i, builds[0].name, ref[4][i][1], b.name, r[4][i][1]), dict(meta(b, w), case=i))
                    # one completes, the other does not: also a disagreement (the same case decides)
                    for x, y, bx in ((r, ref, b), (ref, r, builds[0])):
                        if x[0] != 0 and x[2] is not None and x[2] in y[4]:
                            if x[0] in ("wall",) or x[0] == -9: c.inconclusive.append("%s/%s stopped by the watchdog" % (bx.name, SHORT[w])); continue
                            c.report("%s:disagree" % x[3], "case %d: %s ends with %s, the other configuration completes: %s" % (x[2], bx.name, classify(x[0] if isinstance(x[0], int) else 1, x[1]), "; ".join(frames(x[1], 3))), dict(meta(bx, w), case=x[2]))
                if c.violations: break
            for b in builds:
                e = exes.pop((b.name, w), None)
                if e: os.unlink(e)
            if c.violations: break
    c.extra["events_compared"] = agreed[0]
    c.key_filter = None

# ------------------------------------------------------------------ concurrency
def race(c):
    c.rule = ("A case is one history of four threads that share a read-only range and vector, own word-disjoint parts of one buffer and own vectors; "
              "its interleaving is observed through a relaxed sequence counter. Non-trivial: at least four switches between threads were observed; "
              "distinct by the observed order of threads.")
    c.assumptions = ["ThreadSanitizer reports races between accesses that the executed histories make unordered; the harness orders nothing between thread start and join.",
                     "Concurrent use of bits that share a word is outside the property, as for std::vector<bool>."]
    c.run_matrix("race.cpp", [G17T, C20T, G17HT], c.pick(600, 8000), shards=c.pick(6, 24), jobs=4)

# ------------------------------------------------------------------ large data
def large(c):
    c.rule = ("A case is one operation on a range or vector of more than 2^24, 2^31 or 2^32 bits, every bit of the result compared 64 at a time. "
              "All are non-trivial; distinct by size and operation.")
    c.assumptions = ["Byte and 64-bit words at the largest sizes; ranges up to about 2^32 + 2^26 bits.", "Memory beyond the range is checked next to the range only."]
    c.case_cpu_s = 300
    c.run_matrix("large.cpp", [G17L, G17HL] + c.pick([], [C20L]), c.pick(36, 360), ["SIZECLASS=0"], cpu_s=600, wall_s=800, jobs=6)
    two = ["std::uint8_t", "std::uint64_t"]
    if c.violations: return
    # Texts and sequences of bools as long as that
    c.run_matrix("large.cpp", [G17L] + c.pick([], [C20L]), c.pick(4, 8), ["SIZECLASS=1", "TEXT"], words=c.pick(["std::uint64_t"], two), shards=4, cpu_s=900, wall_s=850, defer=True)
    c.run_matrix("large.cpp", [G17L, G17HL], c.pick(18, 72), ["SIZECLASS=1"], words=two, shards=c.pick(2, 4), cpu_s=900, wall_s=850, jobs=6)
    if c.violations: return
    rotate_far(c)
    c.run_matrix("large.cpp", [G17L, G17HL], c.pick(18, 36), ["SIZECLASS=2"], words=c.pick(["std::uint64_t"], two), shards=3, cpu_s=900, wall_s=850, jobs=5)

HIST_RULE = ("A case is one history of up to some dozens of operations on a vector, mirrored on a std::vector of bytes and compared completely after every "
             "operation. Non-trivial: the history changed the vector; distinct by its sequence of operations, sizes and word type.")
PROPS = {
    "C01": alg(["copy", "move"]), "C02": alg(["copy_backward"]), "C03": alg(["fill"]), "C04": alg(["count"]), "C05": alg(["find"]),
    "C06": alg(["equal"]), "C07": alg(["reverse"]), "C08": alg(["rotate"]), "C09": alg(["shift_left", "shift_right"]),
    "C10": alg(["swap_ranges"]), "C11": alg(["transform1", "transform2"]),
    "C12": frame, "C13": memory, "C15": agreement,
    "C16": vec(1, 3000, 60000, HIST_RULE),
    "C17": vec(3, 6000, 120000, "A case is one construction from a count, value, string, range of bits, bools or words, list, copy or move; the result is compared bit by bit with the source. Non-trivial: the vector is not empty; distinct by route, length and offset."),
    "C18": vec(2, 4000, 80000, "A case is one history that shrinks and grows a vector whose spare storage holds stale bits; after every growth all bits are compared. Non-trivial: the vector grew over storage used before; distinct by the sizes involved."),
    "C19": vec(4, 3000, 60000, "A case is one history of copies, moves, assignments and swaps among several vectors and modifications of single ones; all are compared with their models afterwards. Non-trivial: at least one transfer; distinct by the sequence of operations."),
    "C20": also_limits(vec(5, 2500, 50000, "A case is one observation of size, capacity, storage pointer and the allocations made through operator new during an operation or a history. Non-trivial: the vector is not empty; distinct by operation and sizes."), 1),
    "C21": vec(6, 4000, 80000, "A case is one vector whose bits are read and written through every kind of accessor, each seen through every other. Non-trivial: the vector is not empty; distinct by size, accessor and position."),
    "C22": simple("iter.cpp", 1, 12000, 250000, "A case is a pair of bit positions in a buffer; all arithmetic, comparison and access expressions of bit iterators over them are compared with integer arithmetic. Non-trivial: the buffer holds at least one word; distinct by positions and distance."),
    "C23": simple("iter.cpp", 2, 12000, 250000, "A case is a pair of bit positions in a buffer; all expressions of bit pointers over them are compared with integer arithmetic. Non-trivial: distinct positions; distinct by positions and distance."),
    "C24": simple("value.cpp", 1, 12000, 250000, "A case is one word and one or two bit positions on which every operation of bit values and bit references is compared with bool arithmetic, all other bits staying as they are. Distinct by positions, values and word type.", builds=[G17S, G17HS, C20HS]),
    "C25": simple("value.cpp", 2, 8000, 160000, "A case is one text (formatted, generated or hostile) read or written through bit values, references and vectors under some stream state. Non-trivial: not the empty text; distinct by text and stream state.", builds=[G17S, C20HS]),
    "C26": simple("prim.cpp", 0, 40000, 800000, "A case is one call of a word primitive with operands drawn from patterns and boundary values, compared with a bit-at-a-time definition. Distinct by primitive and operands.", builds=[G17S, G17HS, C20HS, G17O, G20O, C20HO]),
    "C27": race,
    "C28": also_limits(vec(7, 300, 6000, "A case is one operation on a vector repeated with the first, second, ... allocation failing until it succeeds; after each failure the vector is inspected. Non-trivial: at least one allocation failed; distinct by operation and sizes."), 2),
    "C29": large,
    "C31": iterators, "C32": cost,
    "C33": simple("words.cpp", 0, 60000, 1500000, "A case is one read, write, padded read, bound test, advance or word shift at a drawn position with drawn length on exactly sized storage, compared bit by bit with a model. Distinct by operation, position, length and word type.", builds=[G17S, G20PS, C20HS, G17O, G20O]),
    "C34": simple("overload.cpp", 0, 40000, 800000, "A case is one call of an overload set, or a short history of calls; the callables log who ran with what. Distinct by set, kind of argument and value.", builds=[G17S, C20S, G20O], words=["std::uint8_t", "std::uint64_t"]),
    "C35": simple("alloc.cpp", 0, 1500, 40000, "A case is one history of constructions, assignments, swaps and modifications of three vectors with allocators of several identities, some allocations failing; distinct by its operations and sizes.", builds=[G17S, C20S, G17O]),
    "C30": simple("iter.cpp", 3, 8000, 160000, "A case is one algorithm of the standard library applied to bit iterators and to a sequence of bytes with the same content. Non-trivial: the range is not empty; distinct by algorithm, length and offset."),
}
LEVEL = {"C28": "fault_enumeration"}

def main(argv):
    if len(argv) < 2: print(__doc__); return 2
    if argv[1] == "replay": return replay(argv[2])
    if argv[1] == "setup":
        for t in ("g++", "clang++"): subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
        print("ready"); return 0
    prop = argv[1]
    if len(argv) > 2: os.environ["VERIF_TIER"] = argv[2]
    c = Check(prop, LEVEL.get(prop, "exploration"))
    try:
        PROPS[prop](c)
        return c.finish()
    except HarnessError as e:
        if c.violations: return c.finish()
        print("HARNESS ERROR property=%s %s" % (prop, e)); return 3
    except Exception:
        traceback.print_exc(); print("HARNESS ERROR property=%s (see above)" % prop); return 3
    finally:
        c.close()

if __name__ == "__main__":
    sys.exit(main(sys.argv))
