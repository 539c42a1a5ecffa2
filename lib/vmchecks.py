"""C01..C13: the interpreter under generated bytecode."""
import concurrent.futures as cf
import json
import os
import struct

from vlib import *

VMDIR = os.path.join(REPO, "src", "vm")
VH = os.path.join(VERIF, "vm")
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,function", "-fno-sanitize-recover=all", "-g", "-fno-omit-frame-pointer"]
# name: (C compiler and flags, source, C++ compiler and flags, harness options)
CONFIGS = {
    "asan": (["clang", "-O1"] + ASAN, "vm.c", ["clang++", "-O1"] + ASAN, []),
    "asan_sw": (["clang", "-O1"] + ASAN, "switch", ["clang++", "-O1"] + ASAN, []),
    "asan_dbg": (["clang", "-O1", "-DDEBUG_VM"] + ASAN, "vm.c", ["clang++", "-O1", "-DDEBUG_VM"] + ASAN, ["debugvm=1"]),
    "gcc": (["gcc", "-O2", "-std=c89"], "vm.c", ["g++", "-O2"], []),
    "gcc_O0": (["gcc", "-O0"], "vm.c", ["g++", "-O2"], []),
    "gcc_O3": (["gcc", "-O3", "-std=c99"], "vm.c", ["g++", "-O2"], []),
    "gcc_Os_sw": (["gcc", "-Os"], "switch", ["g++", "-O2"], []),
    "clang": (["clang", "-O2"], "vm.c", ["g++", "-O2"], []),
    "clang_sw": (["clang", "-O2"], "switch", ["g++", "-O2"], []),
    "dbg": (["gcc", "-O2", "-DDEBUG_VM"], "vm.c", ["g++", "-O2", "-DDEBUG_VM"], ["debugvm=1"]),
    "tsan": (["clang", "-O1", "-g", "-fsanitize=thread"], "vm.c", ["clang++", "-O1", "-g", "-fsanitize=thread"], []),
}


def vmh(cfg):
    """Build the harness in the given configuration; returns the executable."""
    cc, src, cxx, _ = CONFIGS[cfg]
    source = os.path.join(VMDIR, "vm.c") if src == "vm.c" else os.path.join(VH, "vm_switch.c")
    # The harness object does not depend on vm.c, but on the flags of sanitizers.
    common = ["-fno-strict-aliasing", "-w", "-I" + VMDIR]
    inputs = [VMDIR, VH]
    cmds = [
        [cc + common + ["-c", source, "-o", "{out}/vm.o"],
         cxx + ["-std=c++17", "-w", "-I" + VMDIR, "-I" + VH, "-c", os.path.join(VH, "harness.cpp"), "-o", "{out}/h.o"]],
        cxx + ["{out}/h.o", "{out}/vm.o", "-o", "{out}/vmh", "-lpthread"],
    ]
    return build("vmh_" + cfg, inputs, cmds, "vmh")


ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0", TSAN_OPTIONS="halt_on_error=1:exitcode=66")


class VmRun:
    """Runs ranges of cases of one mode and collects statistics and candidates."""

    def __init__(self, chk):
        self.chk = chk
        self.stats = {}
        self.n = 0

    def plan(self, cfg, mode, total, opts=(), chunks=JOBS, seed=None, wrap=(), timeout=400):
        exe = vmh(cfg)
        seed = self.chk.seed if seed is None else seed
        size = max(1, (total + chunks - 1) // chunks)
        jobs = []
        for s in range(0, total, size):
            jobs.append((cfg, exe, mode, seed, s, min(size, total - s), list(opts) + CONFIGS[cfg][3], list(wrap), timeout))
        return jobs

    def _proc(self, job):
        cfg, exe, mode, seed, start, count, opts, wrap, timeout = job
        self.n += 1
        base = os.path.join(self.chk.tmp, "r%d_%d" % (self.n, start))
        rc, o, e = run_limited(wrap + [exe, mode, str(seed), str(start), str(count), base + ".out", base + ".pr"] + opts, timeout, env=ENV)
        lines = []
        try:
            for l in open(base + ".out"):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        except OSError:
            pass
        idx = None
        try:
            idx = struct.unpack("<Q", open(base + ".pr", "rb").read(8))[0]
        except Exception:
            pass
        for x in (base + ".out", base + ".pr"):
            try:
                os.unlink(x)
            except OSError:
                pass
        return rc, o, e, lines, idx

    def _job(self, job):
        """Returns (stats list, violations) and survives crashes."""
        cfg, exe, mode, seed, start, count, opts, wrap, timeout = job
        end = start + count
        found, stats = [], []
        crashes = 0
        while start < end and crashes < 3:
            rc, o, e, lines, idx = self._proc((cfg, exe, mode, seed, start, end - start, opts, wrap, timeout))
            for l in lines:
                if "stats" in l:
                    stats.append(l["stats"])
                else:
                    found.append((l["viol"], l["detail"], l["index"]))
            if rc == 0:
                break
            if idx is None or idx == 0xffffffffffffffff:
                # at the exit of the process (leaks); attribute to the range
                found.append(("sanitizer", san_summary(e), None, (start, end - start)))
                break
            crashes += 1
            kind = "no answer" if rc is None else "crash"
            # confirm on the single case
            rc2, o2, e2, l2, i2 = self._proc((cfg, exe, mode, seed, idx, 1, opts, wrap, 120))
            if rc2 != 0 and (rc is not None or rc2 is None):
                found.append((kind, "case %d: %s" % (idx, san_summary(e2 or e)), idx))
            elif rc is not None:
                # depends on what ran before
                found.append((kind, "cases %d..%d: %s" % (start, idx, san_summary(e)), None, (start, idx - start + 1)))
            start = idx + 1
        return job, stats, found

    def run(self, jobs):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for job, stats, found in ex.map(self._job, jobs):
                cfg, exe, mode, seed, start, count, opts, wrap, timeout = job
                for s in stats:
                    merge_stats(self.stats, s)
                    per = self.stats.setdefault("runs", {})
                    k = cfg + "/" + mode
                    per[k] = per.get(k, 0) + s["evaluations"]
                for f in found:
                    kind, detail, idx = f[:3]
                    r = f[3] if len(f) > 3 else (idx, 1)
                    files = {"replay.sh": "#!/bin/sh\n# rebuilds the harness (configuration %s) and repeats the case\n"
                                          "exec python3 %s/check.py --replay-vm %s %s %d %d %d %s\n" % (
                                              cfg, VERIF, cfg, mode, seed, r[0], r[1], " ".join(opts))}
                    if idx is not None and mode not in ("ops", "alloc", "init", "rangeapi", "threads"):
                        img = os.path.join(self.chk.tmp, "img")
                        txt = os.path.join(self.chk.tmp, "img.txt")
                        run_limited([exe, mode, str(seed), str(idx), "1", txt, img + ".pr", "dump=" + img], 60, env=ENV)
                        try:
                            files["case.qvm"] = open(img, "rb").read()
                            files["case.txt"] = open(txt).read()
                        except OSError:
                            pass
                    self.chk.violation(kind, "[%s, %s, seed %d, case %s] %s" % (cfg, mode, seed, r[0], detail), files)

    def coverage(self, rule, distinct=None):
        s = self.stats
        c = {"evaluations": s.get("evaluations", 0), "distinct_nontrivial": s.get("distinct", 0) if distinct is None else distinct,
             "rule": rule, "samples": [x[:1500] for x in s.get("samples", [])[:6]]}
        for k, v in s.items():
            if k not in ("samples", "evaluations", "distinct") and not (isinstance(v, (int, dict)) and not v):
                c[k] = v
        return c


def replay(args):
    cfg, mode, seed, start, count = args[0], args[1], args[2], args[3], args[4]
    exe = vmh(cfg)
    os.execve(exe, [exe, mode, seed, start, count, "/dev/stderr", "/tmp/vmh_progress"] + args[5:], ENV)


GEN = ("Images are generated: structured programs (functions, recursion, loops, switches, pointers, system calls, nested VM calls) and "
       "instruction soups with edge addresses and operands; distinct = different image bytes; ")
TRUST = ["the reference model vm/ref.hpp states the instruction set; what the specification leaves open is not compared",
         "compiler sanitizers report every violation they instrument",
         "x86-64 host, IEEE 754 single precision"]


def simple(chk, spec, rule, level="exploration", extra=None):
    """spec: list of (cfg, mode, quick count, thorough count, opts)."""
    build_all([lambda c=c: vmh(c) for c in sorted({s[0] for s in spec})])
    r = VmRun(chk)
    jobs = []
    for s in spec:
        n = chk.scale(s[2], s[3])
        if n:
            jobs += r.plan(s[0], s[1], n, s[4] if len(s) > 4 else (), chunks=JOBS * (4 if chk.thorough else 1))
    # long ones of all kinds first
    r.run(jobs)
    if extra:
        extra(r)
    chk.finish(level, r.coverage(rule), TRUST)


def c01(chk):
    simple(chk, [("asan", "confine", 4000, 60000), ("asan_sw", "confine", 1200, 20000, ["unspecms=25"]),
                 ("asan_dbg", "confine", 600, 10000), ("gcc", "confine", 2500, 60000), ("asan", "ctl", 500, 8000), ("asan", "call", 500, 8000)],
           GEN + "every run is watched by ASan/UBSan (exact-size allocations), red zones, read-only image pages and comparisons of all host memory the bytecode may not change")


def c02(chk):
    simple(chk, [("asan", "loader", 9000, 200000), ("asan_sw", "loader", 1500, 20000), ("gcc", "loader", 9000, 300000), ("asan_dbg", "loader", 1500, 20000)],
           "Well-formed images with damaged headers (overflow-prone section sizes), truncations, flipped bytes, added bytes; the verdict of an independent validator has to be met")


def c03(chk):
    simple(chk, [("gcc", "ops", 2200, 20000), ("asan", "ops", 900, 5000), ("clang_sw", "ops", 900, 5000), ("gcc", "sem", 6000, 150000),
                 ("asan", "sem", 1200, 20000), ("clang_sw", "sem", 1500, 20000)],
           GEN + "plus operand matrices (all pairs of edge values for each instruction, then random); the whole memory, the system call trace and the return value are compared with the model")


def c04(chk):
    simple(chk, [("gcc", "ctl", 8000, 150000), ("asan", "ctl", 2200, 30000), ("clang_sw", "ctl", 2000, 30000)],
           GEN + "calls, recursion, deep recursion through the stack end, computed jumps (jump tables), bad targets")


def c05(chk):
    simple(chk, [("gcc", "sys", 9000, 150000), ("asan", "sys", 2500, 30000), ("clang_sw", "sys", 2000, 30000)],
           GEN + "system calls with 0 to 15 arguments, memory access from the host, wide return values")


def c06(chk):
    simple(chk, [("gcc", "call", 9000, 150000), ("asan", "call", 2500, 30000), ("clang_sw", "call", 2000, 30000)],
           GEN + "several VM_Call in a row, nested VM_Call from system calls, two VMs that call each other")


def c07(chk):
    simple(chk, [("gcc", "rangeapi", 2000, 60000), ("asan", "rangeapi", 500, 10000), ("gcc", "range", 5000, 80000), ("asan", "range", 1500, 20000)],
           GEN + "address/length pairs around 0, the end of the memory, 2^31, 2^32, 2^63 and overflowing sums; block copies; valid ranges are touched")


def c08(chk):
    simple(chk, [("gcc", "err", 6000, 100000), ("asan", "err", 1500, 20000), ("clang_sw", "err", 1500, 20000)],
           GEN + "programs that fail in a specified way now and then, called again after the failure; the set of allowed error codes comes from the model")


def c09(chk):
    simple(chk, [("gcc", "alloc", 4000, 80000), ("asan", "alloc", 1500, 20000), ("asan_dbg", "alloc", 400, 5000)],
           GEN + "VM_Create with every allocation failing once, repeated create/call/free, double free, free from inside of a system call, NULL arguments", "fault_enumeration")


def c10(chk):
    def extra(r):
        n = chk.scale(48, 2000)
        jobs = r.plan("gcc", "det", n, ["unspecms=1500"], wrap=["valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=yes", "--leak-check=no"], seed=chk.seed + 1000003, timeout=800)
        r.run(jobs)
    simple(chk, [("gcc", "det", 4000, 60000), ("clang_sw", "det", 1200, 20000), ("asan", "det", 700, 10000)],
           GEN + "each program runs three times with different contents of fresh host memory and stack; everything observable has to be the same", extra=extra)


def c11(chk):
    cfgs = ["gcc", "gcc_O0", "gcc_O3", "gcc_Os_sw", "clang", "clang_sw", "dbg", "asan", "asan_sw"]
    build_all([lambda c=c: vmh(c) for c in cfgs])
    r = VmRun(chk)
    n = chk.scale(3000, 40000)
    parts = 4 if not chk.thorough else 16
    size = (n + parts - 1) // parts
    jobs, digests = [], {}
    for mode in ("cfg", "sem"):
        for k in range(parts):
            for c in cfgs:
                m = size if c not in ("asan", "asan_sw") else size // 3
                f = os.path.join(chk.tmp, "%s.%s.%d" % (c, mode, k))
                digests[(c, mode, k)] = f
                jobs.append((c, vmh(c), mode, chk.seed, k * size, m, CONFIGS[c][3] + ["digest=" + f], [], 600))
    r.run(jobs)
    compared = agree = 0
    for mode in ("cfg", "sem"):
        for k in range(parts):
            ref = {}
            for c in cfgs:
                try:
                    lines = [l.split() for l in open(digests[(c, mode, k)])]
                except OSError:
                    continue
                for w in lines:
                    if len(w) != 2 or w[1] == "-":
                        continue
                    if w[0] not in ref:
                        ref[w[0]] = (c, w[1])
                        continue
                    compared += 1
                    if ref[w[0]][1] != w[1]:
                        chk.violation("configurations differ", "mode %s seed %d case %s: %s and %s do not agree" % (mode, chk.seed, w[0], ref[w[0]][0], c),
                                      {"replay.sh": "#!/bin/sh\nfor c in %s %s; do python3 %s/check.py --replay-vm $c %s %d %s 1; done\n" % (ref[w[0]][0], c, VERIF, mode, chk.seed, w[0])})
                    else:
                        agree += 1
    cov = r.coverage(GEN + "the digests of all specified results (return values, errors, system call trace, memory after each call) of each build are compared")
    cov["configurations"] = cfgs
    cov["digests_compared"] = compared
    cov["distinct_nontrivial"] = cov["distinct_nontrivial"] // len(cfgs)
    chk.finish("exploration", cov, TRUST)


def c12(chk):
    simple(chk, [("tsan", "threads", 240, 4000), ("gcc", "threads", 400, 8000), ("asan", "threads", 80, 1000)],
           "Groups of 6 threads that create, call and free VMs from shared read-only images at the same time, with results compared per thread; distinct = images; ThreadSanitizer watches for races")


def c13(chk):
    simple(chk, [("gcc", "init", 3000, 50000), ("asan", "init", 800, 8000)],
           "Images with data/lit/bss sizes around word and power of two boundaries, in both file orders; all bytes of the VM memory are compared before the first instruction")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
          "C10": c10, "C11": c11, "C12": c12, "C13": c13}
