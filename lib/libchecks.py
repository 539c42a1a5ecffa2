"""C40: the C library for programs in the VM (example/bg_lib.c)."""
import functools
import random
import re
import struct

from asmchecks import write_files
from lccchecks import W, collect, brief
from lcctools import *

LIBSYS = "code\nequ out -1\nequ outs -2\nequ memset -3\nequ memcpy -4\n"


def lit(b):
    return '"%s"' % "".join(chr(c) if 32 <= c < 127 and c not in b'"\\?' else "\\%03o" % c for c in b)


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def word(r, n=None, alphabet=None):
    n = r.choice([0, 1, 2, 3, 5, 8, 20, 60]) if n is None else n
    a = alphabet or r.choice([b"ab", b"abcABC xyz", b"0123456789", bytes(range(1, 128)), b"%d \n\t\\\""])
    return bytes(r.choice(a) for _ in range(n))


class Lib:
    """a program: statements, and what it has to print"""

    def __init__(self, r):
        self.r = r
        self.s = []
        self.e = []      # expected lines: text or function(line) -> bool
        self.kinds = {}
        self.globals = []

    def outi(self, expr, v, known=None):
        """known: (value, key) of a listed finding"""
        self.s.append("out(%s);" % expr)
        self.e.append(("%08x" % (v & 0xffffffff), expr, known and ("%08x" % (known[0] & 0xffffffff), known[1])))

    def outs(self, expr, v, known=None):
        # only bytes without newlines can be shown as a line: sum the others
        self.s.append("h = 0; for (p = %s; *p; p++) h = h * 31 + (*p & 255); out(h); out(strlen(%s));" % (expr, expr))
        def hash(v):
            h = 0
            for c in v:
                h = (h * 31 + c) & 0xffffffff
            return "%08x" % h
        self.e.append((hash(v), expr + " " + lit(v), known and (hash(known[0]), known[1])))
        self.e.append(("%08x" % len(v), expr, known and ("%08x" % len(known[0]), known[1])))

    def step(self):
        r = self.r
        k = r.choice(["strlen", "strcat", "strcpy", "strcmp", "strchr", "strstr", "case", "memmove", "memset", "qsort", "qsort", "rand", "atoi", "atof", "abs", "sscanf", "int", "int", "int", "string", "mixed", "float"])
        self.kinds[k] = self.kinds.get(k, 0) + 1
        getattr(self, "k_" + k)(r)

    def k_strlen(self, r):
        w = word(r)
        self.outi("strlen(%s)" % lit(w), len(w))

    def k_strcat(self, r):
        a, b, c = word(r), word(r), word(r)
        self.s.append("strcpy(big, %s); p = strcat(big, %s); strcat(p, %s);" % (lit(a), lit(b), lit(c)))
        self.outs("big", a + b + c)

    def k_strcpy(self, r):
        a = word(r)
        n = r.choice([0, 3])
        self.s.append("memset(big, 'x', 100); big[%d] = 'y'; q = strcpy(big + %d, %s);" % (n + len(a) + 1, n, lit(a)))
        self.outs("q", a)
        self.outi("big[%d]" % (n + len(a) + 1), 121)

    def k_strcmp(self, r):
        a = word(r, alphabet=b"ab")
        b = r.choice([a, a + b"a", a[:-1], word(r, alphabet=b"ab"), word(r)])
        v = (a > b) - (a < b)
        self.outi("sign(strcmp(%s, %s))" % (lit(a), lit(b)), v)

    def k_strchr(self, r):
        a = word(r)
        c = r.choice([0, 97, 65, 32, r.randrange(1, 128)] + list(a[-1:]))
        i = (a + b"\0").find(bytes([c]))
        self.s.append("p = %s; q = strchr(p, %d);" % (lit(a), c))
        self.outi("q ? q - p : -1", i, (-1, "end-of-string") if c == 0 else None)

    def k_strstr(self, r):
        a = word(r, alphabet=b"aab")
        b = r.choice([word(r, r.randrange(5), b"aab"), a[r.randrange(len(a) + 1):], a, a + b"b"])
        self.s.append("p = %s; q = strstr(p, %s);" % (lit(a), lit(b)))
        self.outi("q ? q - p : -1", a.find(b), (-1, "end-of-string") if not a and not b else None)

    def k_case(self, r):
        c = r.choice([0, 64, 65, 90, 91, 96, 97, 122, 123, r.randrange(128)])
        self.outi("tolower(%d)" % c, c + 32 if 65 <= c <= 90 else c)
        self.outi("toupper(%d)" % c, c - 32 if 97 <= c <= 122 else c)

    def fill(self, r, n):
        a = bytearray(r.randrange(256) for _ in range(n))
        self.s.append("for (i = 0, h = %d; i < %d; i++) { h = h * 1103515245 + 12345; big[i] = h >> 16; }" % (self.seed(r), n))
        h = self.last
        for i in range(n):
            h = (h * 1103515245 + 12345) & 0xffffffff
            a[i] = (h >> 16) & 255
        return a

    def seed(self, r):
        self.last = r.randrange(1 << 31)
        return self.last

    def sum(self, n, a):
        self.s.append("for (i = 0, h = 0; i < %d; i++) h = h * 31 + (big[i] & 255);" % n)
        h = 0
        for c in a[:n]:
            h = (h * 31 + c) & 0xffffffff
        self.outi("h", h)

    def k_memmove(self, r):
        n = r.choice([1, 8, 64, 500])
        a = self.fill(r, n)
        for _ in range(r.choice([1, 3])):
            o, p = r.randrange(n), r.randrange(n)
            m = r.choice([0, 1, r.randrange(n + 1)])
            m = min(m, n - o, n - p)
            self.s.append("q = memmove(big + %d, big + %d, %d);" % (o, p, m))
            a[o:o + m] = bytes(a[p:p + m])
            self.outi("q - big", o)
        self.sum(n, a)

    def k_memset(self, r):
        a = self.fill(r, 64)
        o, m, v = r.randrange(64), r.randrange(65), r.choice([0, 255, 256, -1, r.randrange(1000)])
        m = min(m, 64 - o)
        self.s.append("memset(big + %d, %d, %d);" % (o, v, m))
        a[o:o + m] = bytes([v & 255]) * m
        o, p = r.randrange(0, 32), r.randrange(32, 64)
        m = r.randrange(min(p - o, 64 - p) + 1)
        self.s.append("memcpy(big + %d, big + %d, %d);" % (o, p, m))
        a[o:o + m] = a[p:p + m]
        self.sum(64, a)

    def k_qsort(self, r):
        n = r.choice([0, 1, 2, 6, 7, 8, 39, 40, 41, 100, 300])
        es = r.choice([1, 2, 3, 4, 4, 5, 8, 12, 16])
        off = r.choice([0, 0, 1, 2, 4])
        mod = r.choice([2, 3, 256, 256])
        shape = r.choice(["random", "random", "sorted", "reversed", "equal", "organ"])
        desc = r.random() < .3
        keys = [r.randrange(mod) for _ in range(n)]
        keys = {"sorted": sorted(keys), "reversed": sorted(keys, reverse=True), "equal": keys[:1] * n, "organ": sorted(keys[::2]) + sorted(keys[1::2], reverse=True)}.get(shape, keys)
        g = "k%d" % len(self.globals)
        self.globals.append("char %s[] = {%s};" % (g, ", ".join("%d" % (k if k < 128 else k - 256) for k in keys) or "0"))
        # an element is its key and bytes that depend on the key
        self.s.append("memset(big, 85, sizeof big); for (i = 0; i < %d; i++) for (j = 0; j < %d; j++) big[%d + i * %d + j] = %s[i] + j * 7;" % (n, es, off, es, g))
        self.s.append("qsort(big + %d, %d, %d, %s);" % (off, n, es, "down" if desc else "up"))
        keys = sorted(keys, reverse=desc)
        a = bytearray(b"U" * (off + n * es + 8))
        for i, k in enumerate(keys):
            for j in range(es):
                a[off + i * es + j] = (k + j * 7) & 255
        self.sum(len(a), a)

    def k_rand(self, r):
        s = r.choice([0, 1, r.randrange(1 << 31)])
        self.s.append("srand(%d); a = rand(); b = rand(); srand(%d); c = rand();" % (s, s))
        self.outi("a == c && (a | b) >= 0 && (a | b) < 32768", 1)

    def number(self, r):
        v = r.choice([0, 1, 9, 10, 2147483647, -2147483647, r.randrange(-1 << 31, 1 << 31), r.randrange(-1000, 1000)])
        return v, ("+%d" % v if v >= 0 and r.random() < .2 else "0%d" % v if v >= 0 and r.random() < .1 else "%d" % v)

    def k_atoi(self, r):
        v, t = self.number(r)
        t = r.choice(["", " ", "\t\n "]) + t + r.choice(["", " ", "x", ".5", "-", "/", ":"])
        if r.random() < .1:
            t, v = r.choice([("", 0), (" ", 0), ("x", 0), ("-", 0), ("+", 0), (" -x", 0), ("--1", 0)])
        self.outi("atoi(%s)" % lit(t.encode()), v)

    def fnumber(self, r):
        k = r.random()
        if k < .3:
            t = "%d" % r.randrange(-100000, 100000)
        elif k < .7:
            t = "%.*f" % (r.randrange(1, 7), r.uniform(-1000, 1000))
        elif k < .85:
            t = r.choice(["-", "+", ""]) + ".%d" % r.randrange(100000)
        else:
            t = r.choice(["0", "-0", "5.", "-7.", "0.0", "1.", "00.5"])
        return t

    def near(self, expr, v, rel, ab, known=None):
        self.s.append("f = %s; out(*(int *)&f);" % expr)

        def ok(line):
            if not re.fullmatch("[0-9a-f]{8}", line):
                return False
            x = struct.unpack("f", struct.pack("I", int(line, 16)))[0]
            return abs(x - v) <= max(ab, abs(v) * rel)
        self.e.append((ok, "%s is %r" % (expr, v), known))

    def k_atof(self, r):
        t = self.fnumber(r)
        v = float(t)
        self.near("atof(%s)" % lit((r.choice(["", " ", "\n"]) + t + r.choice(["", " ", "x"])).encode()), v, 1e-5, 1e-5)
        if r.random() < .2:
            self.near("fabs(%s)" % (t if "." in t and t[-1] != "." else "1.5"), abs(float(t)) if "." in t and t[-1] != "." else 1.5, 1e-6, 0)

    def k_abs(self, r):
        v = r.choice([0, 1, -1, 2147483647, -2147483647, r.randrange(-1 << 31, 1 << 31) or 1])
        v = v if v != -1 << 31 else 5
        self.outi("abs(%d)" % v, abs(v))

    def k_sscanf(self, r):
        n = r.choice([1, 2, 3])
        txt, fmt, st = "", "", []
        for i in range(n):
            if r.random() < .6:
                v, t = self.number(r)
                fmt += r.choice(["%d", "%i"] if not t.lstrip("+-").startswith("0") else ["%d"])
                st.append(("i%d" % i, v, None))
            else:
                t = self.fnumber(r)
                while t.lstrip("+-")[0] == "." and i < n - 1:     # listed finding
                    t = self.fnumber(r)
                fmt += "%f"
                st.append(("f%d" % i, float(t), 1))
            txt += t + " "
            fmt += " "
        self.s.append("sscanf(%s, %s, %s);" % (lit(txt.encode()), lit(fmt.rstrip().encode()), ", ".join("&" + x[0] for x in st)))
        for nm, v, fl in st:
            if fl:
                self.near(nm, v, 1e-5, 1e-5, (("00000000", "80000000"), "sscanf-point") if t.lstrip("+-")[0] == "." else None)
            else:
                self.outi(nm, v)

    def fint(self, r):
        v = r.choice([0, 1, -1, 42, -42, 2147483647, -2147483647, -1 << 31, r.randrange(-1 << 31, 1 << 31), r.randrange(-1000, 1000)])
        fl = r.choice(["", "", "-", "0"])
        w = r.choice(["", "", "1", "2", "5", "11", "12", "30"])
        if fl == "0" and not w:
            fl = ""
        if fl == "-" and int(w or 0) < len(str(v)):
            w = "30"    # listed finding: memory is overwritten, see adjusted()
        f = "%" + fl + w + r.choice("di")
        t = (f[:-1] + "d") % v
        # listed findings: the digits of the smallest number, zeros before the sign
        d = "".join(chr(48 - int(x)) for x in "2147483648") if v == -1 << 31 else str(abs(v))
        d = "-" + d if v < 0 else d
        k = d.ljust(int(w or 0)) if fl == "-" else d.rjust(int(w or 0), "0" if fl == "0" else " ")
        key = "smallest-number" if v == -1 << 31 else "zeros-before-sign"
        return f, ("%d" % v if v != -1 << 31 else "(-2147483647 - 1)"), t, (k, key) if k != t else None

    def k_int(self, r):
        f, a, t, k = self.fint(r)
        pre, post = word(r, alphabet=b"abc "), word(r, alphabet=b"xyz\n")
        self.s.append("memset(big, 'z', 400); n = format(big, %s, %s);" % (lit(pre + f.encode() + post), a))
        self.outs("big", pre + t.encode() + post, k and (pre + k[0].encode() + post, k[1]))
        self.outi("n", len(pre + t.encode() + post))
        self.outi("big[n + 1]", 122)

    def fstr(self, r):
        w = word(r)
        f = "%"
        if r.random() < .3:
            # padding is always on the right
            f += "-" + r.choice(["1", "4", "10", "70"])
        if r.random() < .3:
            f += "." + r.choice(["0", "1", "3", "100"])
        f += "s"
        return f, lit(w), (f.encode() % w)

    def k_string(self, r):
        f, a, t = self.fstr(r)
        self.s.append("n = format(big, %s, %s);" % (lit(f.encode()), a))
        self.outs("big", t)
        self.outi("n", len(t))

    def k_mixed(self, r):
        fmt, args, out = b"", [], b""
        for _ in range(r.choice([2, 3, 6])):
            k = r.randrange(5)
            if k == 0:
                f, a, t, kn = self.fint(r)
                while kn:
                    f, a, t, kn = self.fint(r)
                t = t.encode()
            elif k == 1:
                f, a, t = self.fstr(r)
            elif k == 2:
                c = r.randrange(1, 128)
                f, a, t = "%c", str(c), bytes([c])
            elif k == 3:
                f, a, t = "%%", None, b"%"
            else:
                t = word(r, alphabet=b"abc \n%").replace(b"%", b"")
                f, a = t.decode(), None
            fmt += f.encode()
            if a:
                args.append(a)
            out += t
        self.s.append("n = format(%s);" % ", ".join(["big", lit(fmt)] + args))
        self.outs("big", out)
        self.outi("n", len(out))

    def k_float(self, r):
        v = r.choice([0.0, 1.0, -1.0, 0.5, -0.25, 123456.0, r.uniform(-10, 10), r.uniform(-1e6, 1e6), r.uniform(-1, 1)])
        v = f32(v)
        p = r.choice([None, 0, 1, 2, 3, 6, 9])
        w = r.choice(["", "", "5", "12"])
        f = "%" + w + (".%d" % p if p is not None else "") + "f"
        self.s.append("n = format(big, %s, %s); outs(big);" % (lit(f.encode()), ("%.9e" % v)))

        def ok(line):
            # truncated, not rounded; the width is that of the whole part
            if not re.fullmatch(r"s  *-?\d+(\.\d*)?", line):
                return False
            t = line[2:]
            q = 6 if p is None else p
            if len(t.split(".")[1] if "." in t else "") != q:
                return False
            if len(t) < (int(w) if w else 0):
                return False
            return abs(float(t) - v) <= 10.0 ** -q + abs(v) * 1e-6
        self.e.append((ok, "%s of %r" % (f, v)))

    def source(self):
        return ('#include "bg_lib.h"\nint out();\nint outs();\nstatic int sign(int x) { return x < 0 ? -1 : x > 0; }\n'
                "static int up(const void *a, const void *b) { return (*(const char *)a & 255) - (*(const char *)b & 255); }\n"
                "static int down(const void *a, const void *b) { return (*(const char *)b & 255) - (*(const char *)a & 255); }\n"
                "static int format(char *b, const char *f, ...) { va_list l; int n; va_start(l, f); n = vsprintf(b, f, l); va_end(l); return n; }\n"
                "extern char big[6000];\n" + "\n".join(self.globals) +
                "\nint i0, i1, i2; float f0, f1, f2;\n"
                "int vmMain(int cmd) {\n char *p, *q; unsigned h; int i, j, n, a, b, c; float f;\n %s\n return 0; }\nchar big[6000];\n" % "\n ".join(self.s))


def c40_one(seed, adj=False):
    r = random.Random("C40-%d" % seed)
    st = {"programs": 1, "results": 0, "functions": {}}
    g = Lib(r)
    if adj:
        g = adjusted(seed)
    else:
        for _ in range(r.choice([5, 20, 40])):
            g.step()
    # vmMain has to be the first function
    src = g.source()
    i = src.index("int vmMain")
    head = src[:i]
    protos = "static int sign(int x);\nstatic int up(const void *a, const void *b);\nstatic int down(const void *a, const void *b);\nstatic int format(char *b, const char *f, ...);\n"
    fns = [l for l in head.split("\n") if l.startswith("static int")]
    head = "\n".join(l for l in head.split("\n") if not l.startswith("static int"))
    src = head + protos + src[i:] + "\n".join(fns) + "\n"
    d = tempfile.mkdtemp(dir=W.tmp)
    ex = os.path.join(REPO, "example")
    for f in ("bg_lib.c", "bg_lib.h"):
        shutil.copy(os.path.join(ex, f), d)
    write_files(d, [("m.c", src), ("sys.asm", LIBSYS)])
    bad, listed = None, set()
    files = {"m.c": src.encode()}
    for n in ("m", "bg_lib"):
        rc, o, e = run([W.tools + "/lcc", "-DQ3_VM", "-S", "-Wf-target=bytecode", "-o", n + ".asm", n + ".c"], d, 60)
        if rc:
            bad = ("build", "program %d: %s" % (seed, brief(e)), files)
    if not bad:
        rc, o, e = run([W.tools + "/q3asm", "-o", "x.qvm", "m.asm", "bg_lib.asm", "sys.asm"], d, 60)
        if rc:
            bad = ("build", "program %d: %s" % (seed, brief(o + e)), files)
    if not bad:
        rc, o, e = run([W.run, "x.qvm"], d, 5 if adj else 60)
        lines = o.decode("latin-1").split("\n")[1:] if o.startswith(b"Loading") else o.decode("latin-1").split("\n")
        what = None
        for i, (want, expr, *known) in enumerate(g.e):
            got = lines[i] if i < len(lines) else "nothing"
            st["results"] += 1
            if known and known[0] and got in known[0][0] and not (want(got) if callable(want) else got == want):
                listed.add(known[0][1])
            elif not (want(got) if callable(want) else got == want):
                what = "result %d: %s is %s%s" % (i, expr, got, "" if callable(want) else ", should be " + want)
                break
        if not what and (rc != 0 or len(lines) != len(g.e) + 2):
            what = "exit status %s, %s" % (rc, lines[-3:])
        if what:
            bad = ("library", "program %d: %s" % (seed, what), files) + (("left-adjusted",) if adj else ())
    st["functions"] = g.kinds
    shutil.rmtree(d, ignore_errors=True)
    return st, ([bad] if bad else []) + [("library", "program %d: %s" % (seed, k), files, k) for k in sorted(listed)]


def adjusted(seed):
    """numbers longer than the width of %-Nd: in a program of their own, since
    the listed finding destroys the memory of the program"""
    g = Lib(random.Random(seed))
    r = random.Random("C40a-%d" % seed)
    v = r.choice([10, 42, -1, -77777, 123456])
    g.s.append("n = format(big, \"%%-%sd|\", %d);" % (r.choice(["", "1"]), v))
    g.outs("big", b"%d|" % v)
    g.outi("n", len(str(v)) + 1)
    return g


def c40(c):
    r = build_all([functools.partial(lcctools, "plain"), runner])
    W.tmp = c.tmp
    W.tools, W.run = r
    stats = {}
    collect(c, [(c40_one, c.seed * 1000000 + i, True) for i in range(3)] + [(c40_one, c.seed * 1000000 + i) for i in range(c.scale(1200, 25000))], stats)
    c.finish("exploration", {
        "evaluations": stats.get("results", 0), "programs": stats.get("programs", 0), "calls_per_function": stats.get("functions", {}),
    }, ["the compiler, the assembler and the interpreter are right (C30, C20, C03)"])


CHECKS = {"C40": c40}
