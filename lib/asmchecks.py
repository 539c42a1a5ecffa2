"""C20..C23: the assembler q3asm."""
import glob
import functools
import multiprocessing
import traceback
import os
import random
import re
import struct

import asmgen
import asmref
from vlib import *

QDIR = os.path.join(REPO, "q3asm")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g", "-O1"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99")
BAD_EXIT = 99


def q3asm(kind="plain"):
    src = sorted(glob.glob(os.path.join(QDIR, "*.c")))
    inputs = [QDIR + "/" + f for f in os.listdir(QDIR) if f.endswith((".c", ".h"))] + [os.path.join(REPO, "src", "vm", "vm.h")]
    cc = ["gcc", "-O2"] if kind == "plain" else ["gcc"] + SAN if kind == "asan" else ["clang", "-fsanitize=memory", "-fno-sanitize-recover=all", "-g", "-O1"]
    return build("q3asm_" + kind, inputs, [cc + ["-w", "-o", "{out}/q3asm"] + src + ["-lm"]], "q3asm")


class Result:
    pass


def environment(e):
    """not a failure of what is tested"""
    return isinstance(e, (MemoryError, AssertionError)) or isinstance(e, OSError) and not isinstance(e, FileNotFoundError)


def guarded(fn, a):
    """an output that a monitor cannot make sense of, or that is missing, is a violation"""
    try:
        return fn(a)
    except Exception as e:
        if environment(e):
            raise
        return {}, [(0, "no sense can be made of the output: " + traceback.format_exc()[-800:], {}, "")]


def pool_run(fn, args, jobs=JOBS):
    """run fn(args) in worker processes; yields results"""
    with multiprocessing.get_context("fork").Pool(jobs) as p:
        for r in p.imap_unordered(functools.partial(guarded, fn), args):
            yield r


def write_files(d, files):
    for n, t in files:
        with open(os.path.join(d, n), "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode("latin-1"))


def run_asm(exe, d, args, timeout=20, env=None, pre=None):
    """-> rc (None: timeout, negative: signal), stdout, stderr"""
    p = subprocess.Popen([exe] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, start_new_session=True, preexec_fn=pre)
    return wait_limited(p, None, timeout)


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


def parse_map(b):
    r = []
    for l in b.decode("latin-1").splitlines():
        m = re.fullmatch(r"(\d+)\s+([0-9a-fA-F]+) (\S+)", l)
        if not m:
            return None, l
        r.append((int(m[1]), int(m[2], 16), m[3]))
    return r, None


def first_diff(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return i
    return min(len(a), len(b))


def where(p, off):
    """describe an offset in the image"""
    if off < 32:
        return "header word %d" % (off // 4)
    off -= 32
    if off < p.header[3]:
        n = 0
        for i, (op, o) in enumerate(p.code):
            w = 1 + (0 if o is None else 1 if isinstance(o, bytes) else 4)
            if off < n + w:
                return "code, instruction %d (%s %r)" % (i, asmref.VM_OPS[op], o)
            n += w
        return "code padding"
    off -= p.header[3]
    if off < p.header[5]:
        return "data segment offset %d" % off
    return "lit segment offset %d" % (off - p.header[5])


def clean_dir(d):
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


def with_dir(fn):
    @functools.wraps(fn)
    def g(args):
        d = tempfile.mkdtemp(prefix="v_asm_")
        try:
            return fn(d, *args)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return g


# ---------------------------------------------------------------- C20

def link_case(exe, d, r, files, p, extra=(), outname="out", sub=None):
    """assemble in one way and compare; returns failure text or None"""
    for f in os.listdir(d):
        if f.startswith("out"):
            os.unlink(os.path.join(d, f))
    names = [n for n, _ in files]
    rc, o, e = run_asm(exe, d, list(extra) + ["-o", outname] + names)
    if rc != 0:
        return "exit status %s for a well-formed program: %s" % (rc, san_summary(e) if rc in (99, 1, None) and b"runtime error" in e else (e + o)[:300].decode("latin-1"))
    img = read(os.path.join(d, "out.qvm"))
    if img is None:
        return "exit status 0, but no image"
    if img != p.image:
        i = first_diff(img, p.image)
        return "image of %d bytes differs from the reference (%d bytes) at %d, %s: %s instead of %s" % (
            len(img), len(p.image), i, where(p, i), img[i:i + 8].hex(), p.image[i:i + 8].hex())
    if "-m" in extra:
        m, bad = parse_map(read(os.path.join(d, "out.map")) or b"")
        if m is None:
            return "bad line in map file: " + bad
        want = asmref.map_entries(p)
        if sorted(m) != want:
            x = sorted(set(m) ^ set(want))
            return "map file: %d entries instead of %d, first difference %s" % (len(m), len(want), x[:1])
    return None


@with_dir
def c20_case(d, exe, asan, seed, start, count):
    st = {"programs": 0, "instructions": 0, "lines": 0, "bytes": 0, "symbols": 0, "files": 0, "mnemonics": {}, "features": {}}
    bad = []
    for s in range(start, start + count):
        r = random.Random("c20 %d %d" % (seed, s))
        g = asmgen.Gen(r)
        text = g.files()
        files = [("f%d.asm" % i, t) for i, t in enumerate(text)]
        try:
            p = asmref.assemble(files)
        except (asmref.Unsupported, asmref.AsmError) as e:
            st["skipped"] = st.get("skipped", 0) + 1
            continue
        write_files(d, files)
        e = asan if s % 10 == 0 else exe
        extra = r.choice([[], [], ["-m"], ["-m"], ["-v"], ["-vq3"], ["-m", "-v", "-vq3"], ["-b", str(r.choice([1, 2, 3, 7, 100, 1023, 65536]))]])
        f = link_case(e, d, r, files, p, extra)
        st["programs"] += 1
        st["instructions"] += len(p.code)
        st["symbols"] += len(p.symbols)
        st["bytes"] += len(p.image)
        st["files"] += len(files)
        for k, v in g.counts.items():
            st["mnemonics"][k] = st["mnemonics"].get(k, 0) + v
            st["lines"] += v
        for k in g.feat:
            st["features"][k] = st["features"].get(k, 0) + 1
        if f:
            bad.append((s, f, dict(files), " ".join(["q3asm"] + extra + ["-o", "out"] + [n for n, _ in files])))
            if len(bad) > 3:
                break
    return st, bad


def edge_programs():
    """every mnemonic with every edge operand; large programs"""
    E = asmgen.EDGE
    out = []
    for m in asmref.MNEMONICS:
        o = asmref.MNEMONICS[m]
        L = ["code", "proc x 8 8"]
        if o == "SEX":
            L += ["%s %s" % (m, x) for x in ("1", "2", "1 5", "2 -7")]
        elif o in asmref.NO_OPERAND:
            L += [m, m + " 4", m + " 1"]
        else:
            L += [m] + ["%s %d" % (m, v) for v in E if o != "BLOCK_COPY" or 0 <= v < 0x7FFFFFF0]
            L += ["%s %d+%d" % (m, v, w) for v in (0, 5, -7, 0xFFFFFFFF) for w in (1, 0x7FFFFFFF)] if o != "BLOCK_COPY" else []
        L += ["endproc x 8 8"]
        out.append("\n".join(L) + "\n")
    L = ["code"]
    for i, (lo, ar) in enumerate([(a, b) for a in (0, 1, 2, 3, 4, 5, 255, 256, 1000, 32000) for b in (0, 1, 3, 4, 8, 248, 700)]):
        L += ["proc p%d %d %d" % (i, lo, ar)]
        L += ["ADDRLP4 %s" % e for e in ("0", "4", "0+4", "-4", "8-12", "%d" % lo)]
        L += ["ADDRFP4 %s" % e for e in ("0", "4", "0+4", "-4", "8-12", "%d" % ar)]
        L += ["ARGI4"] * min(62, (ar + 3) // 4) + ["CALLI4", "pop", "RETI4", "endproc p%d %d %d" % (i, lo, ar)]
    out.append("\n".join(L))
    # objects of all sizes and alignments in all orders
    L = []
    n = 0
    for al in (1, 2, 4, 8, 32):
        for seg, item in (("lit", "byte 1 %d"), ("data", "byte 4 %d"), ("bss", "skip %d"), ("lit", "address o0+%d"), ("data", "byte 1 %d"), ("data", "address o3-%d")):
            for k in (1, 3, 5):
                L += [seg, "align %d" % al, "LABELV o%d" % n] + [item % (n * 7 + j) for j in range(k)]
                n += 1
    out.append("\n".join(L))
    # many symbols; long code: instruction numbers beyond 16 bits
    L = ["code"]
    for i in range(6000):
        L += ["proc s%d 0 0" % i, "CNSTI4 %d" % i, "ADDRGP4 s%d" % ((i * 7919) % 6000), "EQI4 $%d" % i] + ["LABELV $%d" % i, "BREAK"] * 1 + ["CNSTI4 1"] * 8 + ["endproc s%d 0 0" % i]
    L += ["data", "LABELV tab"] + ["address s%d+%d" % (i, i) for i in range(0, 6000, 5)] + ["lit", "align 1", "LABELV text"] + ["byte 1 %d" % (i & 255) for i in range(70000)]
    L += ["bss", "align 4", "LABELV big", "skip 50000000", "LABELV end", "skip 1"]
    out.append("\n".join(L))
    return out


def C20(chk):
    exe, asan = build_all([lambda: q3asm("plain"), lambda: q3asm("asan")])
    st = {}
    n = chk.scale(12000, 150000)
    size = chk.scale(100, 400)
    jobs = [(exe, asan, chk.seed, s, size) for s in range(0, n, size)]
    nbad = 0
    for s, bad in pool_run(c20_case, jobs):
        merge_stats(st, s)
        for case, text, files, cmd in bad:
            chk.violation("case %d" % case, text, dict(files, **{"command.txt": cmd + "\n"}))
    d = tempfile.mkdtemp(dir=chk.tmp)
    progs = edge_programs()
    for i, t in enumerate(progs):
        files = [("f.asm", t)]
        p = asmref.assemble(files)
        write_files(d, files)
        for e in (exe, asan):
            f = link_case(e, d, None, files, p, ["-m"])
            if f:
                chk.violation("edge program %d" % i, f, {"f.asm": t, "command.txt": "q3asm -m -o out f.asm\n"})
                break
        st["programs"] += 1
        st["instructions"] += len(p.code)
    miss = [m for m in list(asmref.MNEMONICS) + asmref.IGNORED if m not in st["mnemonics"]]
    chk.notes.append("mnemonics never generated: %s" % miss)
    st["evaluations"] = st["programs"]
    chk.finish("exploration", st, ["programs close to the 4 MB image limit, non-ASCII symbols and unlabelled data are not judged"])


# ---------------------------------------------------------------- C21

ERRORS = ("dup_local", "dup_global", "dup_cross", "undef_code", "undef_data", "undef_local_other_file", "opcode", "token", "sex", "byte2", "frame",
          "args", "longline", "skip", "align", "many", "stack_symbol", "undef_branch", "case", "prefix")


def inject(r, kind, text):
    """add one error to the program; returns (texts, [(file index, line or None)], word expected in the message)"""
    fi = r.randrange(len(text))
    L = [t.split("\n") for t in text]
    for x in L:
        if x[-1] == "":
            x.pop()
    glob_ = []
    loc = {}
    for i, x in enumerate(L):
        loc[i] = []
        for l in x:
            w = l.split()
            if len(w) > 1 and w[0] in ("proc", "LABELV", "equ", "LABEL"):
                (loc[i] if w[1][0] == "$" else glob_).append(w[1])
    word = ""
    new = None
    if kind == "dup_local":
        c = [i for i in loc if loc[i]]
        if not c:
            return None
        fi = r.choice(c)
        word = r.choice(loc[fi])
        new = ["code", "LABELV " + word]
    elif kind in ("dup_global", "dup_cross"):
        if not glob_:
            return None
        word = r.choice(glob_)
        new = ["code", r.choice(["LABELV %s", "proc %s 0 0", "equ %s 5"]) % word]
    elif kind == "undef_code":
        word = "undefinedSymbol%d" % r.randrange(1000)
        new = ["code", "%s %s%s" % (r.choice(["ADDRGP4", "CNSTI4", "ADDRLP4", "ADDRFP4"]), word, r.choice(["", "+4", "-1"]))]
    elif kind == "undef_branch":
        word = "$99999"
        new = ["code", "%s %s" % (r.choice(["EQI4", "LTF4", "GEU4"]), word)]
    elif kind == "undef_data":
        word = "undefinedSymbol%d" % r.randrange(1000)
        new = ["data", "align 4", "LABELV object%d" % r.randrange(10**6), "address " + word]
    elif kind == "undef_local_other_file":
        if len(text) < 2:
            return None
        other = (fi + 1) % len(text)
        c = [n for n in loc[other] if n not in loc[fi]]
        if not c:
            return None
        word = r.choice(c)
        new = ["code", "ADDRGP4 " + word]
    elif kind in ("case", "prefix"):
        c = [n for n in glob_ if len(n) > 2]
        if not c:
            return None
        n = r.choice(c)
        word = n.swapcase() if kind == "case" else r.choice([n[:-1], n + "x"])
        if word in glob_ or not (word[0].isalpha() or word[0] == "_"):
            return None
        new = ["code", "ADDRGP4 " + word]
    elif kind == "opcode":
        word = r.choice(asmref.INVALID)
        new = ["code", word]
    elif kind == "token":
        word = r.choice(["foo", "CNSTI8", "ADDI", "cnsti4", "PROC", "endprocs", "byte1", "Address", "x", ".", "CNSTF8", "BREAKS", "datas"])
        new = ["code", word + r.choice(["", " 4"])]
    elif kind == "sex":
        new = ["code", "CVII4" + r.choice(["", " 3", " 4", " x", " 0", " -1"])]
    elif kind == "byte2":
        new = ["data", "align 4", "LABELV object%d" % r.randrange(10**6), "byte 2 %d" % r.randrange(65536)]
    elif kind == "frame":
        lo, ar = r.choice([(32768, 0), (0, 32768), (16384, 16384), (32759, 0), (100000, 8), (0x7FFFFFFF, 0), (-4, 0)])
        new = ["code", "proc object%d %d %d" % (r.randrange(10**6), lo, ar)]
    elif kind == "args":
        new = ["code"] + ["ARGI4"] * r.choice([63, 64, 100]) + ["CALLV"]
    elif kind == "longline":
        new = ["code", r.choice(["x" * 1024, "ADDRGP4 " + "y" * 3000, "x;" * 700, "CNSTI4 1" + " " * 1016])]
    elif kind == "skip":
        new = ["bss", "skip -%d" % r.choice([1, 4, 1000])]
    elif kind == "align":
        new = ["bss", "align %d" % r.choice([0, -1, 3, 12])]
    elif kind == "many":
        new = ["code"] + ["bogus"] * r.choice([128, 256, 512, 384])
    elif kind == "stack_symbol":
        new = ["bss", "LABELV " + r.choice(["_stackStart", "_stackEnd"])]
    # at the end, so that the segment of other objects is not changed, or at
    # the front, where every line names its segment
    pos = len(L[fi])
    L[fi][pos:pos] = new
    line = pos + len(new)
    if kind == "args":
        line = None
    if kind in ("many", "dup_global", "dup_cross", "stack_symbol"):
        line = None
    return ["\n".join(x) + "\n" for x in L], fi, line, word


@with_dir
def c21_case(d, exe, asan, seed, start, count):
    st = {"programs": 0, "erroneous": 0, "list_files": 0, "kinds": {}}
    bad = []
    for s in range(start, start + count):
        r = random.Random("c21 %d %d" % (seed, s))
        text = asmgen.Gen(r).files()
        e = asan if s % 12 == 0 else exe
        names = [("f%d.asm" % i) for i in range(len(text))]
        try:
            p = asmref.assemble(list(zip(names, text)))
        except (asmref.Unsupported, asmref.AsmError):
            continue
        fail = None
        clean_dir(d)
        if s % 3 == 0:
            # link through a list file, in any spelling
            sep = lambda: r.choice(["\n", " ", "\t", "\r\n", "\n\n  ", " // comment -o x\n", "\n//\n"])
            args = []
            body = sep() if r.random() < 0.3 else ""
            o_in = r.random() < 0.5
            k = r.randrange(len(names) + 1)
            inside, outside = names[:k], names[k:]
            for i, n in enumerate(inside):
                if o_in and i == r.randrange(max(1, k)):
                    body += "-o" + sep() + r.choice(['out', '"out"', "out.qvm"]) + sep()
                    o_in = False
                nn = n if r.random() < 0.5 else n[:-4]
                body += (nn if r.random() < 0.7 else '"%s"' % nn) + sep()
            if o_in:
                body += "-o out" + sep()
            o_given = "-o" in re.sub("//.*", "", body)
            write_files(d, list(zip(names, text)) + [("list.q3asm", body)])
            args = ["-f", r.choice(["list", "list.q3asm"])]
            if not o_given:
                args = r.choice([args + ["-o", "out"], ["-o", "out"] + args])
            elif r.random() < 0.3:
                args = ["-o", "wrong"] + args      # the list file comes later and wins
            if r.random() < 0.3:
                args = ["-b", str(r.choice([1, 5, 4096]))] + args
            args += [n if r.random() < 0.5 else n[:-4] for n in outside]
            rc, o, er = run_asm(e, d, args)
            st["list_files"] += 1
            if rc != 0:
                fail = "exit status %s: %s" % (rc, (er + o)[:300].decode("latin-1"))
            elif read(os.path.join(d, "out.qvm")) != p.image:
                fail = "wrong or no image"
            elif os.path.exists(os.path.join(d, "wrong.qvm")):
                fail = "output name of the list file ignored"
            files = dict(zip(names, text), **{"list.q3asm": body})
        else:
            kind = r.choice(ERRORS)
            x = inject(r, kind, text)
            if not x:
                continue
            text2, fi, line, word = x
            try:
                asmref.assemble(list(zip(names, text2)))
                continue
            except asmref.Unsupported:
                continue
            except asmref.AsmError:
                pass
            write_files(d, list(zip(names, text2)) + [("out.qvm", b"stale image")])
            args = r.choice([[], ["-m"], ["-v"], ["-b", "1"]]) + ["-o", "out"] + names
            rc, o, er = run_asm(e, d, args)
            st["erroneous"] += 1
            st["kinds"][kind] = st["kinds"].get(kind, 0) + 1
            msg = er.decode("latin-1")
            if rc is None:
                fail = "%s: does not terminate" % kind
            elif rc < 0 or rc == BAD_EXIT:
                fail = "%s: crash, %s" % (kind, san_summary(er))
            elif rc == 0:
                fail = "error of kind %s in %s not reported by the exit status" % (kind, names[fi])
            elif os.path.exists(os.path.join(d, "out.qvm")):
                fail = "%s: an image exists after a failed run" % kind
            elif line and "%s:%d" % (names[fi], line) not in msg:
                fail = "%s: the message does not name %s:%d: %s" % (kind, names[fi], line, msg[:200])
            elif word and word not in msg:
                fail = "%s: the message does not name %s: %s" % (kind, word, msg[:200])
            files = dict(zip(names, text2))
        st["programs"] += 1
        if fail:
            bad.append((s, fail, files, " ".join(["q3asm"] + args)))
            if len(bad) > 3:
                break
    return st, bad


def C21(chk):
    exe, asan = build_all([lambda: q3asm("plain"), lambda: q3asm("asan")])
    st = {}
    n = chk.scale(10000, 120000)
    size = chk.scale(100, 400)
    for s, bad in pool_run(c21_case, [(exe, asan, chk.seed, s, size) for s in range(0, n, size)]):
        merge_stats(st, s)
        for case, text, files, cmd in bad:
            chk.violation("case %d" % case, text, dict(files, **{"command.txt": cmd + "\n"}))
    # missing inputs and wrong command lines; the files that exist are correct
    d = tempfile.mkdtemp(dir=chk.tmp)
    write_files(d, [("a.asm", "code\nproc a 0 0\nendproc a 0 0\n"), ("ok.q3asm", "a"), ("bad.q3asm", "a nothere"), ("empty.q3asm", "// nothing\n"), ("quote.q3asm", '"a')])
    os.mkdir(os.path.join(d, "dir.asm"))
    cases = [[], ["-o"], ["-o", "out"], ["-o", "out", "nothere"], ["-o", "out", "a", "nothere"], ["-f"], ["-f", "nothere"], ["-f", "bad"], ["-f", "empty"],
             ["-f", "quote"], ["-b"], ["-b", "0", "-o", "out", "a"], ["-b", "-5", "-o", "out", "a"], ["-b", "x", "-o", "out", "a"], ["-x", "a"], ["--verbose", "a"],
             ["-o", "out", "dir"], ["-o", "out"] + ["a"] * 2, ["-o", "x" * 2000, "a"], ["-o", "out", "x" * 2000], ["-o", "", "a"], ["-o", "out", ""],
             ["-o", "out"] + ["a"] * 400, ["-o", "a.asm/x", "a"], ["-h"], ["--help"], ["-?"]]
    for args in cases:
        for e in (exe, asan):
            rc, o, er = run_asm(e, d, args)
            st["programs"] += 1
            help_ = args[:1] in (["-h"], ["--help"], ["-?"])
            if rc is None or rc < 0 or rc == BAD_EXIT or (rc == 0 and not help_) or [f for f in os.listdir(d) if f.endswith(".qvm")]:
                chk.violation("command line", "q3asm %s: exit status %s, %s" % (" ".join(args)[:200], rc, (san_summary(er) if rc == BAD_EXIT else sorted(os.listdir(d)))))
                break
            if help_ and b"-o OUTPUT" not in o + er:
                chk.violation("command line", "no usage message")
    st["command_lines"] = len(cases)
    for s, n in [(256, "256 errors"), (257, "257 errors")]:
        write_files(d, [("m.asm", "code\n" + "bogus\n" * (s // 2))])
        rc, o, er = run_asm(exe, d, ["-o", "out", "m.asm"])
        if rc == 0:
            chk.violation("exit status", "0 after " + n)
    st["evaluations"] = st["programs"]
    chk.finish("exploration", st, ["the text of messages is only searched for file:line and the symbol"])


# ---------------------------------------------------------------- C22

DICT = (list(asmref.MNEMONICS) + asmref.IGNORED + asmref.INVALID +
        "proc endproc byte skip align address equ code data lit bss export import LABELV LABEL CALLI4 ARGI4 RETI4 pop ADDRLP4 ADDRFP4 $1 $2 x y _stackStart _stackEnd "
        "0 1 2 4 8 -1 -4 3 256 4096 65536 4194304 4194300 2147483647 2147483648 -2147483648 4294967295 99999999999999999999 -99999999999999999999 1073741824 "
        "+ - -- ++ x+ x- 4+ 4- -x $ ; ;; \" % %s %n".split() + [
            "NIvO7b", "La4XRo", "xXQnWb",     # names whose hash value is the smallest integer
            "z" * 1000, "7" * 1000, "$" + "9" * 900, "+" * 500])


def mutate(r, t):
    b = bytearray(t.encode("latin-1"))
    for _ in range(r.choice([1, 1, 2, 4, 10, 40])):
        k = r.random()
        if k < 0.15 and b:
            b[r.randrange(len(b))] = r.randrange(256)
        elif k < 0.2 and b:
            del b[r.randrange(len(b)):r.randrange(len(b) + 1)]
        elif k < 0.25:
            b[r.randrange(len(b) + 1):0] = bytes(r.randrange(256) for _ in range(r.choice([1, 5, 50])))
        elif k < 0.95:
            L = bytes(b).split(b"\n")
            i = r.randrange(len(L))
            w = L[i].split(b" ")
            q = r.random()
            if q < 0.4:
                w[r.randrange(len(w))] = r.choice(DICT).encode()
                L[i] = b" ".join(w)
            elif q < 0.5:
                w.insert(r.randrange(len(w) + 1), r.choice(DICT).encode())
                L[i] = b" ".join(w)
            elif q < 0.6:
                del w[r.randrange(len(w))]
                L[i] = b" ".join(w)
            elif q < 0.7:
                L.insert(r.randrange(len(L) + 1), L[i])
            elif q < 0.8:
                del L[i]
            elif q < 0.97:
                L.insert(i, " ".join(r.choice(DICT) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))).encode())
            else:
                L.insert(i, r.choice([b"x", b"x", b";", b" ;"]) * r.choice([512, 1022, 1023, 1024, 1025, 2047, 2048, 5000]))
            b = bytearray(b"\n".join(L))
        else:
            b = b[:r.randrange(len(b) + 1)]
    return bytes(b)


def soup(r):
    return "\n".join(" ".join(r.choice(DICT) for _ in range(r.choice([1, 2, 3, 3]))) for _ in range(r.choice([3, 10, 60]))).encode()


def check_image(img):
    """is this a complete image with a consistent header"""
    if len(img) < 32:
        return "image of %d bytes" % len(img)
    h = struct.unpack("<8i", img[:32])
    if h[0] != 0x12721444 or h[2] != 32 or h[3] < 0 or h[4] != 32 + h[3] or h[5] < 4 or h[6] < 0 or h[7] < 0x10000 or len(img) != h[4] + h[5] + h[6]:
        return "inconsistent header %s for %d bytes" % (h, len(img))
    return None


@with_dir
def c22_case(d, exe, kind, seed, start, count):
    st = {"inputs": 0, "accepted": 0, "rejected": 0, "accepted_and_compared": 0, "write_faults": 0, "list_files": 0}
    bad = []
    for s in range(start, start + count):
        r = random.Random("c22 %d %d" % (seed, s))
        clean_dir(d)
        text = asmgen.Gen(r, nfiles=r.choice([1, 1, 1, 2])).files()
        m = [soup(r) if r.random() < 0.15 else mutate(r, t) for t in text]
        names = ["f%d.asm" % i for i in range(len(m))]
        files = list(zip(names, m))
        args = r.choice([[], [], ["-m"], ["-v", "-m"], ["-b", str(r.choice([1, 2, 3, 100, 2000]))]]) + ["-o", "out"] + names
        limit = None
        if r.random() < 0.1:
            lst = bytearray(("-o out " + "\n".join(names)).encode())
            for _ in range(r.randrange(1, 6)):
                k = r.random()
                if k < 0.4:
                    lst[r.randrange(len(lst))] = r.choice([0, 34, 47, 255, 200, 123, 32, 10])
                elif k < 0.8:
                    i = r.randrange(len(lst))
                    lst[i:i] = r.choice([b'"', b"//", b" a" * 300, b"b" * 1022, b"b" * 1023, b"b" * 3000, b'"' + b"c" * 1100 + b'"', b"-o ", b"{}():'"])
                else:
                    del lst[r.randrange(len(lst)):]
                    lst = lst or bytearray(b" ")
            files.append(("list.q3asm", bytes(lst)))
            args = ["-f", "list"]
            st["list_files"] += 1
        write_files(d, files)
        fail = None
        if r.random() < 0.1 and args[0] != "-f":
            limit = r.choice([0, 1, 31, 32, 100, 1000, 4095, 4096, 5000, 20000])
            # write errors instead of a full disk
            import resource
            import signal as sg

            def pre():
                sg.signal(sg.SIGXFSZ, sg.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            rc, o, e = run_asm(exe, d, args, pre=pre)
            st["write_faults"] += 1
        else:
            rc, o, e = run_asm(exe, d, args)
        st["inputs"] += 1
        img = read(os.path.join(d, "out.qvm"))
        if rc is None:
            fail = "does not terminate within 20 s"
        elif rc < 0:
            fail = "killed by signal %d" % -rc
        elif rc == BAD_EXIT:
            fail = san_summary(e)
        elif rc == 0:
            st["accepted"] += 1
            if img is None and args[0] != "-f":
                fail = "exit status 0, but no image"
            elif img is not None:
                fail = check_image(img)
                if fail:
                    fail = "exit status 0, but " + fail
            if limit is not None and not fail and "-m" in args:
                mp = read(os.path.join(d, "out.map"))
                if mp is None or (mp and not mp.endswith(b"\n")):
                    fail = "exit status 0, but an incomplete map file"
            if args[0] != "-f" and not fail:
                try:
                    p = asmref.assemble([(n, t.decode("latin-1")) for n, t in files])
                    st["accepted_and_compared"] += 1
                    if img != p.image:
                        i = first_diff(img, p.image)
                        fail = "image differs from the reference at %d, %s" % (i, where(p, i))
                except asmref.Unsupported:
                    pass
                except asmref.AsmError as x:
                    fail = "accepted in spite of an error: %s" % x
        else:
            st["rejected"] += 1
            if args[0] != "-f" and limit is None:
                try:
                    asmref.assemble([(n, t.decode("latin-1")) for n, t in files])
                    fail = "exit status %d for a correct program: %s" % (rc, (e + o)[:300].decode("latin-1"))
                except (asmref.Unsupported, asmref.AsmError):
                    pass
        if fail:
            bad.append((s, ("file size limit %d: " % limit if limit is not None else "") + fail, dict(files), " ".join(["q3asm"] + args)))
            if len(bad) > 3:
                break
    return st, bad


def C22(chk):
    exe = q3asm("asan")
    kinds = [("asan", exe, chk.scale(12000, 150000))]
    st = {}
    try:
        kinds.append(("msan", q3asm("msan"), chk.scale(2000, 20000)))
    except BuildError as e:
        chk.notes.append("no MemorySanitizer build")
    for kind, exe, n in kinds:
        size = 50
        k = {}
        for s, bad in pool_run(c22_case, [(exe, kind, chk.seed + (0 if kind == "asan" else 1000), s, size) for s in range(0, n, size)]):
            merge_stats(k, s)
            for case, text, files, cmd in bad:
                chk.violation("%s case %d" % (kind, case), text, dict(files, **{"command.txt": cmd + "\n"}))
        st[kind] = k
    # sizes around the limit of the image
    d = tempfile.mkdtemp(dir=chk.tmp)
    for n in (0x400000 - 4, 0x400000 - 3, 0x400000, 0x400001, 0x7FFFFFFF):
        for seg in ("data", "lit", "bss"):
            for more in ("", "byte 1 5\n", "byte 4 5\n", "skip %d\n" % n, "align 65536\nLABELV z\n"):
                if seg == "bss" and more.startswith("byte"):
                    continue
                t = "code\nproc x 0 0\nendproc x 0 0\n%s\nalign 4\nLABELV a\nskip %d\n%s" % (seg, n, more)
                write_files(d, [("f.asm", t)])
                if os.path.exists(d + "/out.qvm"):
                    os.unlink(d + "/out.qvm")
                rc, o, e = run_asm(kinds[0][1], d, ["-m", "-o", "out", "f.asm"], timeout=60)
                st["asan"]["inputs"] += 1
                img = read(d + "/out.qvm")
                if rc is None or rc < 0 or rc == BAD_EXIT or (rc == 0 and (img is None or check_image(img))):
                    chk.violation("segment size", "exit status %s, %s" % (rc, san_summary(e)), {"f.asm": t})
    st["evaluations"] = sum(st[k]["inputs"] for k in st if isinstance(st[k], dict))
    chk.finish("exploration", st, ["sanitizers see errors only on executed paths", "a run may take 20 s"])


# ---------------------------------------------------------------- C23

def vmload():
    vm = os.path.join(REPO, "src", "vm")
    src = os.path.join(VERIF, "asm", "vmload.cpp")
    fl = ["-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize=alignment,function", "-fno-sanitize-recover=all", "-fno-strict-aliasing", "-I" + vm]
    return build("vmload", [vm, src], [[["clang"] + fl + ["-c", os.path.join(vm, "vm.c"), "-o", "{out}/vm.o"], ["clang++"] + fl + ["-c", src, "-o", "{out}/l.o"]],
                                       ["clang++"] + fl + ["{out}/vm.o", "{out}/l.o", "-o", "{out}/vmload"]], "vmload")


def c23_program(r):
    """returns files, objects {(file, name): (kind, align, [(offset, size, value | (name, add))], size)}, functions {name: (kind, value)}"""
    nf = r.choice([1, 2, 3, 5] * 5 + [11, 14])
    objs = {}
    funcs = {}
    plan = [[] for _ in range(nf)]
    seq = 0
    glob_ = []
    for fi in range(nf):
        for _ in range(r.randrange(1, 14)):
            kind = r.choice(["words", "chars", "struct", "table", "bss", "fn", "fn", "switch", "jump"])
            seq += 1
            n = "%s_%d%s" % (kind, seq, r.choice(["", "x", ".1", "_Abc"]))
            if r.random() < 0.3:
                n = "$%d" % (seq if r.random() < 0.5 else r.randrange(1, 30))
                if (fi, n) in objs or n in [p[1] for p in plan[fi]]:
                    continue
            plan[fi].append((kind, n))
            if n[0] != "$":
                glob_.append((fi, n, kind))
    data = [(fi, n) for fi in range(nf) for k, n in plan[fi] if k not in ("fn", "switch")]
    fns = [(fi, n) for fi in range(nf) for k, n in plan[fi] if k in ("fn", "switch")]

    def ref(fi):
        c = [x for x in data if x[1][0] != "$" or x[0] == fi]
        return r.choice(c) if c else None
    out = []
    extra = []
    for fi in range(nf):
        L = []
        if fi == 0:
            L += ["code", "export vmMain", "proc vmMain 4 8", "ADDRFP4 0", "INDIRI4", "CALLI4", "RETI4", "LABELV $900", "endproc vmMain 4 8"]
        lab = 1000
        items = list(plan[fi])
        for kind, n in items:
            if kind in ("fn", "switch"):
                L += ["code", "proc %s %d %d" % (n, r.randrange(0, 40), r.randrange(4, 40))]
                v = r.randrange(0x80000000)
                k = r.random()
                if kind == "switch":
                    # forward and backward branches and a computed jump
                    a, b, c, t = lab, lab + 1, lab + 2, lab + 3
                    lab += 4
                    L += ["ADDRGP4 $%d" % c, "JUMPV", "LABELV $%d" % a, "CNSTI4 %d" % v, "RETI4", "LABELV $%d" % b, "CNSTI4 3", "CNSTI4 3", "NEI4 $%d" % c, "ADDRGP4 $%d" % a, "JUMPV",
                          "LABELV $%d" % c, "ADDRGP4 $%d+4" % t, "INDIRP4", "JUMPV"]
                    L += ["lit", "align 4", "LABELV $%d" % t, "address $%d" % a, "address $%d" % b, "code"]
                    funcs[(fi, n)] = ("const", v)
                elif k < 0.3:
                    L += ["CNSTI4 %d" % v, "RETI4"]
                    funcs[(fi, n)] = ("const", v)
                elif k < 0.5 and data and ref(fi):
                    o = ref(fi)
                    add = r.choice([0, 0, 1, 4, 12, -3])
                    L += ["ADDRGP4 %s%s" % (o[1], "%+d" % add if add else ""), "RETP4"]
                    funcs[(fi, n)] = ("addr", o, add)
                elif k < 0.7 and data and ref(fi):
                    o = ref(fi)
                    L += ["ADDRGP4 %s" % o[1], "INDIRI4", "RETI4"]
                    funcs[(fi, n)] = ("load", o)
                elif k < 0.8:
                    no = r.randrange(1, 60)
                    L += ["CNSTI4 %d" % (v & 0xFFFF), "ARGI4", "ADDRGP4 sys%d_%d" % (fi, no), "CALLI4", "RETI4"]
                    extra.append("equ sys%d_%d -%d" % (fi, no, no))
                    funcs[(fi, n)] = ("const", 1000 + (no - 1) * 10 + (v & 0xFFFF))
                else:
                    c = [x for x in fns if x[1][0] != "$" or x[0] == fi]
                    o = r.choice(c)
                    L += ["ADDRGP4 " + o[1], "RETP4"]
                    funcs[(fi, n)] = ("fn", o)
                L += ["LABELV $%d" % lab, "endproc %s 0 0" % n]
                lab += 1
                continue
            al = r.choice([1, 1, 2, 4, 4, 8]) if kind in ("chars", "bss") else r.choice([4, 4, 8, 16])
            L += [{"words": "data", "chars": r.choice(["lit", "data"]), "struct": "data", "table": "data", "bss": "bss", "jump": "lit"}[kind], "align %d" % al, "LABELV " + n]
            items_ = []
            off = 0
            for _ in range(r.randrange(1, 12)):
                q = {"words": "w", "chars": "c", "table": "a", "bss": "s", "jump": "a"}.get(kind) or r.choice("wcas")
                o = ref(fi) if q == "a" else None
                if q == "s" and kind == "struct" and not items_:
                    q = "w"
                if q == "w" or (q == "a" and not o):
                    v = r.randrange(1 << 32)
                    L.append("byte 4 %d" % (v if r.random() < 0.5 or v < 1 << 31 else v - (1 << 32)))
                    items_.append((off, 4, v))
                    off += 4
                elif q == "a":
                    add = r.choice([0, 0, 0, 4, -1, 100])
                    L.append("address %s%s" % (o[1], "%+d" % add if add else ""))
                    items_.append((off, 4, (o, add)))
                    off += 4
                elif q == "c":
                    for _ in range(4 if kind == "struct" else r.choice([1, 2, 3, 5])):
                        v = r.randrange(256)
                        L.append("byte 1 %d" % v)
                        items_.append((off, 1, v))
                        off += 1
                else:
                    m = r.choice([4, 8, 40]) if kind == "struct" else r.choice([1, 2, 3, 4, 5, 100, 1 << 14])
                    L.append("skip %d" % m)
                    items_ += [(off, m, 0)] if m <= 100 else [(off, 4, 0), (off + m - 4, 4, 0)]
                    off += m
            objs[(fi, n)] = (kind, al, items_, off)
        out.append("\n".join(L) + "\n")
    if extra:
        out.append("code\n" + "\n".join(sorted(set(extra))) + "\n")
    return out, objs, funcs


@with_dir
def c23_case(d, exe, load, seed, start, count):
    st = {"programs": 0, "objects_checked": 0, "functions_called": 0, "words_checked": 0, "symbols_in_maps": 0}
    bad = []
    for s in range(start, start + count):
        r = random.Random("c23 %d %d" % (seed, s))
        text, objs, funcs = c23_program(r)
        names = ["f%d.asm" % i for i in range(len(text))]
        write_files(d, list(zip(names, text)))
        for f in ("out.qvm", "out.map"):
            if os.path.exists(os.path.join(d, f)):
                os.unlink(os.path.join(d, f))
        rc, o, e = run_asm(exe, d, ["-m", "-o", "out"] + names)
        st["programs"] += 1
        fail = c23_judge(d, load, rc, o, e, objs, funcs, st, r)
        if fail:
            bad.append((s, fail, dict(zip(names, text)), "q3asm -m -o out " + " ".join(names)))
            if len(bad) > 3:
                break
    return st, bad


def c23_judge(d, load, rc, o, e, objs, funcs, st, r):
    if rc != 0:
        return "exit status %s: %s" % (rc, (e + o)[:300].decode("latin-1"))
    img = read(os.path.join(d, "out.qvm"))
    mp = read(os.path.join(d, "out.map"))
    if img is None or mp is None:
        return "image or map file missing"
    f = check_image(img)
    if f:
        return f
    h = struct.unpack("<8I", img[:32])
    m, badl = parse_map(mp)
    if m is None:
        return "bad line in the map file: " + badl
    st["symbols_in_maps"] += len(m)
    base = [0, 0, h[5], h[5] + h[6]]
    length = [h[1], h[5], h[6], h[7]]
    sym = {}
    for seg, v, n in m:
        if n in sym:
            return "map file lists %s twice" % n
        if seg > 3 or (v > length[seg] and v < 0x80000000):
            return "map file: %s has value %x in segment %d of size %x" % (n, v, seg, length[seg])
        sym[n] = (seg, v)
    for seg in range(4):
        vals = [v - (1 << 32) if v >> 31 else v for s_, v, n in m if s_ == seg and not n.startswith("_stack")]
        if vals != sorted(vals):
            return "map file is not sorted in segment %d" % seg
    want = {n for (fi, n) in list(objs) + list(funcs) if n[0] != "$"} | {"vmMain", "_stackStart", "_stackEnd"}
    have = {n for n in sym if not re.fullmatch(r"sys\d+_\d+", n)}
    if want != have:
        return "map file: symbols %s" % sorted(want ^ have)[:5]
    if sym["vmMain"] != (0, 0):
        return "entry point is not instruction 0"
    if sym["_stackStart"][0] != 3 or sym["_stackEnd"] != (3, sym["_stackStart"][1] + 0x10000) or sym["_stackEnd"][1] != h[7]:
        return "stack symbols do not describe the end of the bss segment"
    # ask the interpreter
    q = []
    for k, fn in funcs.items():
        if k[1][0] != "$":
            q.append(("c", k, sym[k[1]][1], 0))
    addr = {}
    for k, ob in objs.items():
        if k[1][0] != "$":
            a = base[sym[k[1]][0]] + sym[k[1]][1]
            addr[k] = a
            if sym[k[1]][0] == 0:
                return "%s is a code symbol" % k[1]
            if (sym[k[1]][0] == 3) != (ob[0] == "bss"):
                return "%s is in segment %d" % (k[1], sym[k[1]][0])
    # the address of local objects is known from functions and tables that name them: found through memory below
    qs = "".join("c %d\n" % x[2] for x in q) + "".join("m %d %d\n" % (addr[k], objs[k][3]) for k in addr)
    rc, o, e = run_limited([load, os.path.join(d, "out.qvm")], 60, env=ENV, stdin=qs.encode())
    L = [l[1:] for l in o.decode().split("\n") if l[:1] == "="]
    if rc != 0 or L[0] != "loaded":
        return "the interpreter does not load the image: %s %s" % (L[0], san_summary(e))
    mem = {}
    for (k, t) in zip(addr, L[1 + len(q):]):
        mem[k] = bytes.fromhex(t) if t != "-" else b""

    def learn(k, v, what):
        """v is the address of k; returns an error text if that contradicts"""
        if k in addr:
            if addr[k] != v:
                return "%s is at %d, but %s says %d" % (k[1], addr[k], what, v)
        else:
            addr[k] = v
        return None
    # contents
    for k in list(mem):
        kind, al, items, size = objs[k]
        b = mem[k]
        for off, n, v in items:
            st["words_checked"] += 1
            x = int.from_bytes(b[off:off + n], "little")
            if isinstance(v, tuple):
                f = learn(v[0], (x - v[1]) & 0xFFFFFFFF, "%s+%d" % (k[1], off))
                if f:
                    return f
            elif x != v:
                return "%s+%d contains %x instead of %x" % (k[1], off, x, v)
    results = {}
    for (c, k, idx, _), t in zip(q, L[1:]):
        v, nerr = t.split()
        if nerr != "0":
            return "calling %s (instruction %d) fails" % (k[1], idx)
        st["functions_called"] += 1
        fn = funcs[k]
        v = int(v)
        f = None
        if fn[0] == "const" and v != fn[1]:
            f = "%s returns %d instead of %d" % (k[1], v, fn[1])
        elif fn[0] == "addr":
            f = learn(fn[1], (v - fn[2]) & 0xFFFFFFFF, "the result of " + k[1])
        elif fn[0] == "fn" and fn[1][1][0] != "$" and v != sym[fn[1][1]][1]:
            f = "%s returns %d as the address of %s" % (k[1], v, fn[1][1])
        elif fn[0] == "load":
            results[k] = (fn[1], v)
        if f:
            return f
    # objects known by address: contents of local ones, and everything apart
    qs = "".join("m %d %d\n" % (addr[k], max(4, objs[k][3])) for k in addr)
    rc, o, e = run_limited([load, os.path.join(d, "out.qvm")], 60, env=ENV, stdin=qs.encode())
    L = [l[1:] for l in o.decode().split("\n") if l[:1] == "="]
    for k, t in zip(addr, L[1:]):
        kind, al, items, size = objs[k]
        b = bytes.fromhex(t)
        st["objects_checked"] += 1
        if addr[k] % al and not (al > 4):
            return "%s at %d is not aligned to %d" % (k[1], addr[k], al)
        if not 4 <= addr[k] <= base[3] + sym["_stackStart"][1] - size:
            return "%s at %d is outside of the segments" % (k[1], addr[k])
        for off, n, v in items:
            if not isinstance(v, tuple) and int.from_bytes(b[off:off + n], "little") != v:
                return "%s+%d contains %s instead of %x" % (k[1], off, b[off:off + n].hex(), v)
        for k2, (o2, v) in results.items():
            if o2 == k and int.from_bytes(b[:4], "little") != v:
                return "%s loads %x from %s" % (k2[1], v, k[1])
    spans = sorted((addr[k], addr[k] + objs[k][3], k[1]) for k in addr if objs[k][3])
    for a, b in zip(spans, spans[1:]):
        if a[1] > b[0]:
            return "%s and %s overlap" % (a[2], b[2])
    return None


def C23(chk):
    exe, load = build_all([lambda: q3asm("plain"), vmload])
    st = {}
    n = chk.scale(3000, 50000)
    size = 50
    for s, bad in pool_run(c23_case, [(exe, load, chk.seed, s, size) for s in range(0, n, size)]):
        merge_stats(st, s)
        for case, text, files, cmd in bad:
            chk.violation("case %d" % case, text, dict(files, **{"command.txt": cmd + "\n"}))
    st["evaluations"] = st["programs"]
    chk.finish("exploration", st, ["images run in the interpreter of the same tree"])


CHECKS = {"C20": C20, "C21": C21, "C22": C22, "C23": C23}
