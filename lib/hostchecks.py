"""C14: the program q3vm runs files."""
import functools
import random
import resource
import struct

from asmchecks import write_files, read
from lccchecks import W, collect, brief
from lcctools import *

SYS = "code\nequ printf -1\nequ error -2\nequ memset -3\nequ memcpy -4\nequ nothing %d\n"


def host(kind):
    fl = {"plain": ["gcc", "-O2"], "asan": ["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "clang": ["clang", "-O2"]}[kind]
    src = [os.path.join(REPO, "src", "main.c"), os.path.join(REPO, "src", "vm", "vm.c")]
    return build("q3vm_" + kind, [os.path.join(REPO, "src")], [fl + ["-w", "-I" + os.path.join(REPO, "src", "vm"), "-o", "{out}/q3vm"] + src + ["-lm"]], "q3vm")


def lit(b):
    """a C string literal, in pieces the compiler takes"""
    t = "".join(chr(c) if 32 <= c < 127 and c not in b'"\\?' else "\\%03o" % c for c in b)
    return '"%s"' % t


def text(r, n):
    k = r.random()
    if k < .3:
        return bytes(r.choice(b"abc %sdn\n\t") for _ in range(n))
    if k < .6:
        return bytes(r.randrange(1, 256) for _ in range(n))
    return (b"%d line of text %s %n\n" * (n // 20 + 1))[:n]


def c14_program(r):
    """-> (source, number of the unknown call, stdout, stderr, exit status)"""
    size = r.choice([64, 300, 5000, 70000])
    buf = bytearray(size)
    out, err = bytearray(), bytearray()
    l, g = [], []
    unknown = r.choice([-5, -6, -7, -100, -1000, -32768])
    rv = None
    for _ in range(r.choice([0, 1, 5, 20, 60])):
        k = r.randrange(12)
        o = r.randrange(size)
        n = min(size - o, r.choice([0, 1, 2, 3, 7, 64, r.randrange(1, 300), size]))
        if k < 2:
            v = r.choice([0, 1, 65, 200, 255, 256 + 66, -1, -200, r.randrange(-1 << 31, 1 << 31)])
            l.append("r = memset(buf + %d, %d, %d);" % (o, v, n) if v != -1 << 31 else "r = memset(buf + %d, -2147483647 - 1, %d);" % (o, n))
            buf[o:o + n] = bytes([v & 255]) * n
            if r.random() < .3:
                l.append("if (r != (int)(buf + %d)) return 77;" % o)
        elif k < 5:
            # ranges that do not overlap
            p = r.randrange(size)
            n = min(n, size - p)
            n = min(n, abs(o - p))
            l.append("r = memcpy(buf + %d, buf + %d, %d);" % (o, p, n))
            buf[o:o + n] = bytes(buf[p:p + n])
            if r.random() < .3:
                l.append("if (r != (int)(buf + %d)) return 78;" % o)
        elif k < 8:
            t = text(r, r.choice([0, 1, 5, 80, 400]))
            f = r.choice(["printf", "printf", "error"])
            l.append("r = %s(%s);" % (f, lit(t)))
            (out if f == "printf" else err).extend(t)
            if r.random() < .5:
                l.append("if (r != %d) return 79;" % len(t))
        elif k < 10:
            # a part of the buffer
            v = r.randrange(1, 256)
            n = min(n, size - 1 - o)
            if n > 0:
                f = r.choice(["printf", "printf", "error"])
                l.append("memset(buf + %d, %d, %d); buf[%d] = 0; r = %s(buf + %d);" % (o, v, n, o + n, f, o))
                buf[o:o + n] = bytes([v]) * n
                buf[o + n] = 0
                (out if f == "printf" else err).extend(buf[o:o + n])
                l.append("if (r != %d) return 80;" % n)
        elif k == 10:
            l.append("if (nothing(%d) != 0) return 81;" % r.randrange(100))
            err.extend(b"Bad system call: %d\n" % unknown)
        else:
            l.append(r.choice(["memset(0, 1, %d);", "memcpy(0, buf, %d);", "memcpy(buf, 0, 60 %% (%d + 1));"]) % r.choice([1, 100, 1 << 30]))
    if r.random() < .6:
        # the contents of the buffer
        l.append("for (h = i = 0; i < %d; i++) h = h * 31 + (buf[i] & 255);" % size)
        h = 0
        for c in buf:
            h = (h * 31 + c) & 0xffffffff
        l.append("if (h != %uu) return 82;" % h)
    k = r.random()
    if k < .6:
        v = r.choice([0, 0, 1, 42, 127, 128, 255, 256, -1, -2, 1000, r.randrange(-1 << 31, 1 << 31)])
        l.append("return %s;" % ("%d" % v if v != -1 << 31 else "-2147483647 - 1"))
        status = v & 255
    else:
        m, code = r.choice([("memset(buf, 1, 0x7fffffff);", -12), ("memset(buf, 1, -1);", -12), ("memcpy(buf, buf + 8, 0x40000000);", -12), ("memcpy(0x7ffffff0, buf, 4);", -12), ("memcpy(buf, -1, 4);", -12), ("memset(-5, 1, 1);", -12),
                            ("zero = 0; return 5 / zero;", -16), ("zero = 0; return 5u % zero;", -16), ("return deep(1);", -8), ("return ((int (*)(void))0x7fffff)();", -6)])
        l.append(m + " return 83;")
        status = code & 255
        err.extend(b"Err (%d): " % code)
    src = "int printf();\nint error();\nint memset();\nint memcpy();\nint nothing();\nint vmMain(int command) ;\n"
    body = "int vmMain(int command) {\nint i, r = 0; unsigned h;\nif (command != 0) return 76;\n%s\n}\n" % "\n".join(l)
    src += body + "int zero;\nchar buf[%d];\nint deep(int x) { int a[100]; a[0] = x; return deep(x + 1) + a[0]; }\n" % size
    src = src.replace("int vmMain(int command) ;\n", "extern int zero;\nextern char buf[%d];\nint deep(int);\n" % size)
    return src, unknown, bytes(out), bytes(err), status, k >= .6


def c14_build(d, src, unknown):
    write_files(d, [("x.c", src), ("sys.asm", SYS % unknown)])
    rc, o, e = run([W.tools + "/lcc", "-S", "-Wf-target=bytecode", "-o", "x.asm", "x.c"], d, 60)
    if rc:
        return brief(e)
    rc, o, e = run([W.tools + "/q3asm", "-o", "x", "x.asm", "sys.asm"], d, 60)
    return brief(o + e) if rc else None


def c14_one(seed):
    r = random.Random("C14-%d" % seed)
    st = {"programs": 0, "bytes": 0, "results": 0, "errors": 0}
    d = tempfile.mkdtemp(dir=W.tmp)
    src, unknown, out, err, status, fails = c14_program(r)
    bad = None
    b = c14_build(d, src, unknown)
    if b:
        shutil.rmtree(d, ignore_errors=True)
        return {"discarded": 1}, ("build", "program %d: %s" % (seed, b), {"x.c": src.encode()})
    for kind in ("plain", r.choice(["asan", "clang"])):
        name = r.choice(["x.qvm", "./x.qvm", os.path.join(d, "x.qvm"), "dir with space/x.qvm", "y"])
        if name.startswith("dir"):
            os.makedirs(d + "/dir with space", exist_ok=True)
        if not os.path.exists(os.path.join(d, name)):
            shutil.copy(d + "/x.qvm", os.path.join(d, name))
        cmd = [W.host[kind], name] + r.choice([[], [], ["more", "-x"]])
        rc, o, e = run(cmd, d, 60)
        # the program says what it loads
        head = b"Loading vm file %s...\n" % name.encode()
        if o.startswith(head):
            o = o[len(head):]
        st["programs"] += 1
        st["bytes"] += len(o) + len(e)
        st["errors" if fails else "results"] += 1
        if rc != status:
            bad = "exit status %s, should be %d; stderr %s" % (rc, status, brief(e[-300:]))
        elif o != out:
            bad = "stdout has %d bytes, should have %d" % (len(o), len(out))
        elif not (e.startswith(err) and e[len(err):].count(b"\n") == 1 if fails else e == err):
            bad = "stderr is %s, should be %s" % (brief(e[-300:]), brief(err[-300:]))
        if bad:
            bad = ("host", "program %d, %s %s: %s" % (seed, kind, " ".join(cmd[1:]), bad), {"x.c": src.encode(), "x.qvm": read(d + "/x.qvm")})
            break
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def limit(n):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (n, n))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def c14_files(seed):
    """files that are no programs, memory that is not there"""
    r = random.Random("C14f-%d" % seed)
    st = {"bad_files": 0}
    d = tempfile.mkdtemp(dir=W.tmp)
    bss = r.choice([100, 100000])
    b = c14_build(d, "int printf();\nint vmMain(int c) { printf(\"ran\\n\"); return 42; }\nint t[] = {1, 2, 3};\nchar big[%d];\n" % bss, -5)
    img = read(d + "/x.qvm")
    bad = None
    for rep in range(12):
        kind = r.choice(["plain", "asan"])
        k = r.choice(["truncated", "truncated", "truncated", "missing", "directory", "empty", "no argument", "memory", "memory", "sparse", "text", "header", "header", "more"])
        t, kw, name, ok = None, {}, "t.qvm", (1, 254, 255)
        if k == "truncated":
            t = img[:r.randrange(len(img))]
        elif k == "text":
            t = os.urandom(0) + bytes(r.randrange(256) for _ in range(r.choice([1, 20, 36, 500])))
        elif k == "empty":
            t = b""
        elif k == "more":
            t = img + bytes(r.randrange(256) for _ in range(r.choice([1, 4, 400])))
            ok = (42, 254, 255)
        elif k == "header":
            w = list(struct.unpack("<8I", img[:32]))
            i = r.randrange(8)
            w[i] = r.choice([0, 1, w[i] + 1, w[i] - 1, w[i] + 4, 0x7fffffff, 0x80000000, 0xffffffff, 1 << r.randrange(32)]) & 0xffffffff
            t = struct.pack("<8I", *w) + img[32:]
            ok = None
        elif k == "missing":
            name = "not there.qvm"
        elif k == "directory":
            name = "."
        elif k == "no argument":
            name = None
        elif k == "memory":
            # a program of 512 MB (the bss is in the header) in less memory
            kind = "plain"
            w = list(struct.unpack("<8I", img[:32]))
            w[7] = 1 << r.randrange(26, 31)
            t = struct.pack("<8I", *w) + img[32:]
            kw = {"preexec_fn": limit(r.choice([16, 40, 60]) << 20)}
            ok = (243, 254, 255)
        elif k == "sparse":
            kind = "plain"
            with open(d + "/t.qvm", "wb") as f:
                f.write(img)
                f.truncate(r.choice([(1 << 31) - 1, 1 << 31, (1 << 31) + 100, (1 << 32) + 36, (1 << 32) - 1]))
            kw = {"preexec_fn": limit(64 << 20)}
            ok = None
        if t is not None:
            open(d + "/t.qvm", "wb").write(t)
        rc, o, e = run([W.host[kind]] + ([name] if name else []), d, 60, **kw)
        st["bad_files"] += 1
        what = None
        if rc is None or rc < 0 or b"Sanitizer" in e or b"runtime error" in e:
            what = "exit status %s: %s" % (rc, brief(e))
        elif ok and rc not in ok:
            what = "exit status %s, should be one of %s: %s" % (rc, ok, brief(o + e))
        elif rc == 0:
            what = "exit status 0"
        elif k == "missing" and name.encode() not in e:
            what = "the message does not name the file: %s" % brief(e)
        elif rc != 42 and b"ran" in o and k != "header":
            what = "something ran"
        if os.path.exists(d + "/t.qvm"):
            os.unlink(d + "/t.qvm")
        if what:
            bad = ("host file", "file %d.%d (%s, %s): %s" % (seed, rep, k, kind, what), {"t.qvm": (t or b"")[:100000]})
            break
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def c14(c):
    r = build_all([functools.partial(lcctools, "plain")] + [functools.partial(host, k) for k in ("plain", "asan", "clang")])
    W.tmp = c.tmp
    W.tools = r[0]
    W.host = dict(zip(("plain", "asan", "clang"), r[1:]))
    stats = {}
    jobs = [(c14_one, c.seed * 1000000 + i) for i in range(c.scale(5000, 60000))]
    jobs += [(c14_files, c.seed * 1000000 + i) for i in range(c.scale(300, 5000))]
    collect(c, jobs, stats)
    c.finish("exploration", {
        "evaluations": stats.get("programs", 0) + stats.get("bad_files", 0), "runs_of_programs": stats.get("programs", 0), "bytes_of_output_compared": stats.get("bytes", 0),
        "runs_that_return": stats.get("results", 0), "runs_that_end_with_an_error": stats.get("errors", 0), "bad_files": stats.get("bad_files", 0), "discarded": stats.get("discarded", 0),
    }, ["the compiler and the assembler are right (C30, C20, C21)"])


CHECKS = {"C14": c14}


# ------------------------------------------------------- C15: the debug build
def prof(kind):
    fl = {"plain": ["-O1"], "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"]}[kind]
    vmd = os.path.join(REPO, "src", "vm")
    here = os.path.join(VERIF, "vm")
    return build("prof_" + kind, [os.path.join(REPO, "src", "vm"), here], [
        ["gcc", "-DDEBUG_VM", "-w", "-c", "-I" + vmd] + fl + ["-o", "{out}/vm.o", os.path.join(vmd, "vm.c")],
        ["g++", "-std=c++17", "-w", "-DDEBUG_VM", "-I" + vmd, "-I" + here] + fl + ["-o", "{out}/prof", os.path.join(here, "prof.cpp"), "{out}/vm.o"]], "prof")


def c15_program(r):
    """a call graph -> [(file, source)]"""
    nf = r.choice([1, 1, 2, 3])
    files = []
    fns = []
    for k in range(nf):
        for i in range(r.choice([0, 1, 3, 8])):
            nm = "%s%d" % (r.choice(["f", "fn", "a_long_name_of_a_function_", "_", "F"]), len(fns))
            static = r.random() < .4
            fns.append((k, nm, static))
    recur = r.choice([0, 3, 30])
    for k in range(nf):
        own = [x for x in fns if x[0] == k or not x[2]]
        s = ["int out();\nint again();\nint level();\nint nothing();"]
        s += ["%sint %s(int x, int d);" % ("static " if x[2] else "", x[1]) for x in own]
        mine = [x for x in fns if x[0] == k]
        s.append("%sint g%d;" % ("extern " if k else "", 0))

        def stmts(name, n):
            l = []
            for _ in range(n):
                q = r.randrange(10)
                if q < 4 and own:
                    g = r.choice(own)[1]
                    l.append("if (d > 0) x += %s(x + %d, d - %d);" % (g, r.randrange(100), r.choice([1, 1, 2])))
                elif q == 4:
                    l.append("for (i = 0; i < %d; i++) x = x * 5 + i;" % r.choice([0, 1, 5, 30]))
                elif q == 5:
                    l.append("switch (x & 7) { case 0: x++; break; case 1: x ^= 85; case 2: x--; break; case 5: x += g0; default: g0 = x; }")
                elif q == 6:
                    l.append(r.choice(["out(x);", "x += nothing(x, d);", "x += out(x);"]))
                elif q == 7 and own:
                    g = r.choice(own)[1]
                    l.append("p = %s; if (d > 0 && x & 1) x -= (*p)(3, d - 1);" % g)
                elif q == 8:
                    l.append("if (d > 2) x += again(%d, %d);" % (r.choice([-1, -2, -3]), r.randrange(9)))
                else:
                    l.append("x = x %s %d;" % (r.choice(["+", "-", "*", "/", "%", "^", ">>"]), r.randrange(1, 9)))
            return " ".join(l)
        body = ["%sint %s(int x, int d) { int i; int (*p)(int, int); int a[%d]; a[0] = x; %s return x + a[0]; }" % ("static " if x[2] else "", x[1], r.choice([1, 1, 10]), stmts(x[1], r.randrange(5))) for x in mine]
        r.shuffle(body)
        if k == 0:
            main = "int vmMain(int c, int x) { int i, d = %d; int (*p)(int, int);\n" % r.choice([1, 2, 3, 4])
            main += "if (c == -3) return 7; if (c == -2) { d = 1; } if (c == -1) d = 0;\n"
            if r.random() < .5:
                main += "if (c == 2) level(%d);\n" % r.choice([1, 2])
            if r.random() < .3:
                main += "if (c == 3) return 5 / g0z;\n"
            main += "g0 = c; %s\n" % stmts("vmMain", r.randrange(1, 6))
            if r.random() < .3:
                main += "level(0);\n"
            main += "out(x); return x; }"
            s.append("extern int g0z;")
            body = [main] + body + ["int g0z;"]
        files.append(("m%d.c" % k, "\n".join(s + body) + "\n"))
    return files


PROFSYS = "code\nequ out -1\nequ again -2\nequ level -3\nequ nothing -4\n"


def signed(v):
    return v - (1 << 32) if v >= 1 << 31 else v


def c15_map(r, text):
    """the symbols of a map file, and the same map written differently ->
    (text, [(name, instruction)])"""
    rows = [l.split() for l in text.decode("latin-1").split("\n") if l.strip()]
    k = r.random()
    if k < .5:
        return text, [(x[2], signed(int(x[1], 16))) for x in rows if int(x[0], 16) == 0]
    drop = r.choice([0, .2, .7])
    rows = [x for x in rows if r.random() >= drop]
    o = ""
    syms = []
    for x in rows:
        v = int(x[1], 16)
        n = x[2]
        if r.random() < .1:
            n += "Z" * r.choice([10, 100, 1000, 1023 - len(n)])
        n = n[:1023]
        h = r.choice(["%x", "%X", "%08x", "%8x", "0x%x"]) % v
        if r.random() < .1:
            o += r.choice(["// a comment 0 1 no\n", "/* 0 5 no\n */", "\n\n", " \t", "\r\n", "//\n"])
        seg = x[0] if r.random() < .8 or int(x[0], 16) else "0" + x[0]
        o += seg + r.choice([" ", "\t", "  ", "\n"]) + h + r.choice([" ", "\t", "   "]) + (n if r.random() < .8 else '"%s"' % n) + r.choice(["\n", "\n", "\r\n", "\n\n", " \n"])
        if int(seg, 16) == 0:
            syms.append((n, signed(v)))
    if r.random() < .2:
        # an incomplete line at the end
        o += r.choice(["0", "0 ", "0 5", "0 5\n", "1", "1 2", "2 "])
    elif r.random() < .5:
        o = o.rstrip()
    return o.encode("latin-1"), syms


def c15_norm(lines):
    o = []
    for l in lines:
        m = re.match(r"( *-?\d+<?-+>? )(\S+?)(\+-?\d+)?$", l)
        if m and ("<---" in l or "--->" in l) and "systemcall" not in l:
            l = m.group(1) + m.group(2)
        o.append(l)
    return o


def c15_compare(real, model):
    """None or what differs"""
    ra, rm = real.split("\n"), model.split("\n")
    ra = ra[:-1] if ra and ra[-1] == "" else ra
    rm = rm[:-1] if rm and rm[-1] == "" else rm
    i = j = 0
    ra = c15_norm(ra)
    while j < len(rm):
        if i >= len(ra):
            return "output ends before %r" % rm[j]
        if rm[j] == "profile":
            if ra[i] != "profile":
                return "%r instead of %r" % (ra[i], rm[j])
            i += 1
            j += 1
            rows = []
            while j < len(rm) and re.match(r"\d+ \d+ ", rm[j]):
                a, b, n = rm[j].split(" ", 2)
                rows.append((int(a), int(b), n))
                j += 1
            got = []
            while i < len(ra) and re.match(r" *\d+% +\d+ ", ra[i]):
                p, n, nm = ra[i].split(None, 2)
                got.append((int(p[:-1]), int(n), nm))
                i += 1
            total = sum(x[0] for x in rows)
            if rows:
                m = re.match(r" +(\d+) total$", ra[i] if i < len(ra) else "")
                if not m:
                    return "no total"
                if int(m.group(1)) != total and total < 1 << 24:
                    return "total %s, executed were %d" % (m.group(1), total)
                i += 1
            if [x[1] for x in got] != sorted(x[1] for x in got) :
                return "the profile is not sorted"
            g = sorted((n, x) for p, x, n in got)
            if g != sorted((n, a) for a, b, n in rows) and g != sorted((n, b) for a, b, n in rows):
                return "profile %s instead of %s" % ([x for x in g if x not in [(n, a) for a, b, n in rows]][:5], [(n, a) for a, b, n in rows if (n, a) not in g][:5])
            for p, x, n in got:
                if total and not (100 * x // total - 1 <= p <= 100 * x // total + 1):
                    return "%d%% for %d of %d" % (p, x, total)
            continue
        x, y = ra[i], rm[j]
        if not (x == y or y.endswith("<--- ") and x.startswith(y) or y == "error 0" and x.startswith("error -")):
            return "%r instead of %r" % (x, y)
        i += 1
        j += 1
    if ra[i:] != ["blocks 0"]:
        return "at the end: %s" % ra[i:][:3]
    return None


def c15_one(seed):
    r = random.Random("C15-%d" % seed)
    st = {"programs": 0, "lines": 0, "profiles": 0, "hostile": 0, "instructions": 0}
    d = tempfile.mkdtemp(dir=W.tmp)
    files = c15_program(r)
    write_files(d, files + [("sys.asm", PROFSYS)])
    bad = None

    def fail(kind, what, **more):
        f = {n: s.encode() for n, s in files}
        f.update(more)
        return (kind, "program %d: %s" % (seed, what), f)
    asm = []
    for n, s in files:
        rc, o, e = run([W.tools + "/lcc", "-S", "-Wf-target=bytecode", "-o", n[:-2] + ".asm", n], d, 60)
        asm.append(n[:-2] + ".asm")
        if rc:
            bad = ("build", "program %d: %s" % (seed, brief(e)), {n: s.encode()})
    if not bad:
        rc, o, e = run([W.tools + "/q3asm", "-m", "-o", "x"] + asm + ["sys.asm"], d, 60)
        if rc:
            bad = ("build", "program %d: %s" % (seed, brief(o + e)), {})
    if not bad:
        img, mp = read(d + "/x.qvm"), read(d + "/x.map")
        for rep in range(3):
            level = r.choice([0, 0, 1, 1, 2])
            cmds = []
            for _ in range(r.choice([1, 2, 3])):
                cmds.append(str(r.choice([0, 1, 2, 3])))
                if r.random() < .7:
                    cmds += ["p"] * r.choice([1, 1, 2])
            base = r.choice(["x", "y", "a.dir/x", "./x", "a.dir/some_longer_name", "x.y"])
            nm = base + r.choice([".qvm", ".qvm", ".QVM"])
            if "." not in os.path.basename(base) and r.random() < .1:
                nm = base
            os.makedirs(d + "/a.dir", exist_ok=True)
            t, syms = c15_map(r, mp)
            if r.random() < .08:
                t, syms = None, []
            mf = os.path.join(d, base + ".map")
            if os.path.exists(mf):
                os.unlink(mf)
            if t is not None:
                open(mf, "wb").write(t)
            kind = "asan" if r.random() < .3 else "plain"
            r1 = run_limited([W.prof[kind], "real", "x.qvm", nm, str(level)] + cmds, d, 60, kind)
            r2 = run_limited([W.prof["plain"], "model", "x.qvm", nm, str(level)] + cmds, d, 60, "plain", "".join("%s %d\n" % x for x in syms).encode("latin-1"))
            if r2[0] != 0 or "unspecified" in r2[1][-200:]:
                st["discarded"] = st.get("discarded", 0) + 1
                continue
            st["programs"] += 1
            real = r1[1]
            if r1[0] != 0:
                bad = fail("debug build", "exit status %s: %s" % (r1[0], brief(r1[2].encode())), **{"x.qvm": img, "x.map": t or b""})
                break
            head, _, real = real.partition("\n=\n")
            n = re.search(r"(\d+) symbols parsed", head)
            model = r2[1].partition("=\n")[2]
            st["lines"] += model.count("\n")
            st["profiles"] += cmds.count("p") if syms else 0
            what = None
            if t and (not n or int(n.group(1)) != len(syms)):
                what = "%s symbols found, should be %d" % (n and n.group(1), len(syms))
            elif ".dir" in base and t and "a.dir/" not in head:
                what = "the map file is not looked for where the image is"
            else:
                what = c15_compare(real, model)
            if what:
                bad = fail("debug build", "%s %s, level %d, %s: %s" % (kind, nm, level, " ".join(cmds), what), **{"x.qvm": img, "x.map": t or b"", "real.txt": real.encode()[:200000], "model.txt": model.encode()[:200000]})
                break
        if not bad and r.random() < .5:
            # any map file
            t = bytearray(mp * r.choice([1, 3]))
            k = r.randrange(4)
            if k == 0:
                t = bytearray(r.randrange(256) for _ in range(r.choice([1, 10, 1000])))
            elif k == 1:
                for _ in range(r.choice([1, 5, 50])):
                    t[r.randrange(len(t))] = r.choice([0, 34, 47, 42, 10, 32, 255, 128, r.randrange(256)])
            elif k == 2:
                p = r.randrange(len(t))
                t[p:p] = r.choice([b'"', b"/*", b"//", b"\0", b"0 ffffffff x\n", b"0 80000000 y\n", b"0 7fffffff z\n", b"0 0 " + b"n" * 5000 + b"\n", b"f" * 3000 + b" ", b'"' + b"q" * 2000 + b'"', b"0 0\n0 0\n"])
            else:
                t = t[:r.randrange(len(t))]
            open(d + "/x.map", "wb").write(bytes(t))
            r1 = run_limited([W.prof["asan"], "real", "x.qvm", "x.qvm", "0", "0", "p", "1", "p"], d, 60, "asan")
            r2 = run_limited([W.prof["asan"], "real", "x.qvm", "nomap.qvm", "0", "0", "p", "1", "p"], d, 60, "asan")
            st["hostile"] += 1
            keep = lambda x: [l for l in x[1].split("\n") if re.match("(out|result|error|unknown|blocks)", l)]
            if r1[0] or r2[0]:
                bad = fail("debug build", "hostile map: exit status %s: %s" % (r1[0], brief(r1[2].encode())), **{"x.qvm": img, "x.map": bytes(t)})
            elif keep(r1) != keep(r2):
                bad = fail("debug build", "the map file changes what the program does", **{"x.qvm": img, "x.map": bytes(t)})
        if not bad and r.random() < .3:
            # memory runs out
            open(d + "/x.map", "wb").write(mp)
            ref = None
            for n in [0] + r.sample(range(1, 10 + mp.count(b"\n")), 4):
                r1 = run_limited([W.prof["asan"], "real", "x.qvm", "x.qvm", "0", "0", "p", "1", "p"], d, 60, "asan", fail=n)
                keep = [l for l in r1[1].split("\n") if re.match("(out|result|unknown)", l)]
                st["no_memory"] = st.get("no_memory", 0) + ("no memory" in r1[1])
                if n == 0:
                    ref = keep
                what = None
                if r1[0]:
                    what = "exit status %s: %s" % (r1[0], brief(r1[2].encode()))
                elif "\nrejected" not in r1[1] and keep != ref:
                    what = "the program does something else"
                elif "no memory" in r1[1] and "error -" not in r1[1] and "Couldn't load" not in r1[1]:
                    what = "nothing is reported"
                elif not r1[1].endswith("blocks 0\n"):
                    what = "memory is not released: %s" % r1[1][-30:]
                if what:
                    bad = fail("debug build", "allocation %d fails: %s" % (n, what), **{"x.qvm": img, "x.map": mp, "out.txt": r1[1].encode()})
                    break
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def run_limited(cmd, d, t, kind, stdin=None, fail=0):
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(ENV, PROF_FAIL=str(fail)), start_new_session=True)
    rc, o, e = wait_limited(p, stdin or b"", t)
    return rc, o.decode("latin-1"), e.decode("latin-1")


def c15(c):
    r = build_all([functools.partial(lcctools, "plain")] + [functools.partial(prof, k) for k in ("plain", "asan")])
    W.tmp = c.tmp
    W.tools = r[0]
    W.prof = dict(zip(("plain", "asan"), r[1:]))
    stats = {}
    collect(c, [(c15_one, c.seed * 1000000 + i) for i in range(c.scale(1500, 40000))], stats)
    c.finish("exploration", {
        "evaluations": stats.get("programs", 0) + stats.get("hostile", 0), "runs_compared_with_the_model": stats.get("programs", 0), "lines_of_trace_compared": stats.get("lines", 0),
        "profiles_compared": stats.get("profiles", 0), "damaged_map_files": stats.get("hostile", 0), "failing_allocations": stats.get("no_memory", 0), "discarded": stats.get("discarded", 0),
    }, ["the compiler and the assembler are right (C30, C20, C21)"])


CHECKS["C15"] = c15
