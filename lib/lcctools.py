"""Builds and runs the compiler tool chain out of tree; the native oracle."""
import glob
import os
import re
import shutil
import subprocess
import tempfile

from vlib import *

LCC = os.path.join(REPO, "lcc")
QDIR = os.path.join(REPO, "q3asm")
AUX = os.path.join(VERIF, "lcc")
VMDIR = os.path.join(REPO, "src", "vm")
KINDS = {
    "plain": ["gcc", "-O1"],
    "asan": ["gcc", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=shift-base,nonnull-attribute"],
    "msan": ["clang", "-g", "-O1", "-fsanitize=memory", "-fno-sanitize-recover=all"],
    "clang": ["clang", "-O2"],
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99", MSAN_OPTIONS="exitcode=99")
for _v in ("LCCINPUTS", "LCCDIR", "INCLUDE", "TMP", "TEMP", "TMPDIR"):
    ENV.pop(_v, None)
NATIVE = ["-m32", "-w", "-std=gnu89", "-trigraphs", "-fwrapv", "-fno-strict-aliasing", "-msse2", "-mfpmath=sse", "-fno-pie", "-no-pie",
          "-nostdlib", "-static", "-ffreestanding", "-fno-stack-protector", "-include", os.path.join(AUX, "native.h")]
GCCF = ["-frounding-math", "-fsingle-precision-constant"]
CLANGF = ["-cl-single-precision-constant"]


def lcctools(kind="plain"):
    """-> directory with lcc, q3cpp, q3rcc and q3asm"""
    inputs = [LCC, QDIR + "/q3asm.c", QDIR + "/cmdlib.c", QDIR + "/cmdlib.h", QDIR + "/opstrings.h", os.path.join(VMDIR, "vm.h")]
    inputs = [f for d in ("src", "cpp", "etc", "lburg") for f in glob.glob(os.path.join(LCC, d, "*")) if f.endswith((".c", ".h", ".md", ".y"))] + inputs[1:]
    cc = KINDS[kind] + ["-w", "-fno-strict-aliasing", "-fno-common"]
    objs, link = [], {"r": [], "c": [], "d": []}
    for p, d in (("r", "src"), ("c", "cpp"), ("d", "etc")):
        for f in sorted(glob.glob(os.path.join(LCC, d, "*.c"))):
            o = "{out}/%s_%s.o" % (p, os.path.basename(f)[:-2])
            # arithmetic in #if and line numbers beyond 2^31 are undefined for the input already
            no = ["-fno-sanitize=shift,signed-integer-overflow"] if kind == "asan" and (p == "c" or f.endswith("/src/input.c")) else []
            objs.append(cc + no + ["-c", "-o", o, f])
            link[p].append(o)
    steps = [objs + [KINDS[kind] + ["-w", "-o", "{out}/q3asm"] + sorted(glob.glob(QDIR + "/*.c")) + ["-lm"]],
             [KINDS[kind] + ["-o", "{out}/q3rcc"] + link["r"] + ["-lm"],
              KINDS[kind] + ["-o", "{out}/q3cpp"] + link["c"],
              KINDS[kind] + ["-o", "{out}/lcc"] + link["d"]]]
    return os.path.dirname(build("lcc_" + kind, inputs, steps, "lcc"))


def runner():
    inputs = [os.path.join(AUX, "run.cpp")] + [os.path.join(VMDIR, f) for f in os.listdir(VMDIR)]
    return build("lccrun", inputs, [["gcc", "-O2", "-w", "-c", "-I", VMDIR, "-o", "{out}/vm.o", os.path.join(VMDIR, "vm.c")],
                                    ["g++", "-O1", "-w", "-I", VMDIR, "-o", "{out}/run", os.path.join(AUX, "run.cpp"), "{out}/vm.o"]], "run")


def nativeobj():
    return build("lccnative", [os.path.join(AUX, f) for f in ("native.c", "native.h")],
                 [["gcc", "-m32", "-O1", "-std=gnu89", "-fno-pie", "-ffreestanding", "-fno-stack-protector", "-fno-tree-loop-distribute-patterns", "-w", "-c",
                   "-o", "{out}/native.o", os.path.join(AUX, "native.c")]], "native.o")


def run(cmd, d, timeout=20, env=None, preexec_fn=None, **kw):
    """-> rc (None: timeout), stdout, stderr"""
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, start_new_session=True, preexec_fn=preexec_fn, **kw)
    return wait_limited(p, None, timeout)


def compile_c(tools, d, c, asm=None, opts=(), timeout=20):
    return run([tools + "/lcc", "-DQ3_VM", "-S", "-Wf-target=bytecode"] + list(opts) + ["-o", asm or c[:-2] + ".asm", c], d, timeout)


def gcc_native(obj, d, files, exe, cc="gcc", o="-O0"):
    return run([cc, o] + NATIVE + (GCCF if cc == "gcc" else CLANGF) + ["-o", exe] + files + [obj], d, 60)


def vm_lines(out):
    """the lines a program printed, without messages of the VM"""
    return [l for l in out.decode("latin-1").split("\n") if (len(l) == 8 and re.fullmatch("[0-9a-f]{8}", l)) or l.startswith(("s ", "Com_Error", "unknown", "rejected"))]


def confirmed(obj, d, names, lines):
    """do other native compilers agree on the output? (rules out programs
    whose meaning depends on the compiler)"""
    for cc, o in (("gcc", "-O2"), ("clang", "-O0"), ("clang", "-O1")):
        rc, out, err = gcc_native(obj, d, names, "nx", cc, o)
        if rc:
            continue
        rc, out, err = run([d + "/nx"], d)
        if rc != 0 or vm_lines(out) != lines:
            return False
    return True


def mnemonics(asm, stat):
    for l in asm.split("\n"):
        m = l.split(None, 1)[0] if l.strip() else ""
        if m and m[0] != ";":
            stat[m] = stat.get(m, 0) + 1
