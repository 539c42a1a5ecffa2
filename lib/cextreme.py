"""Valid C90 programs with a lot of one thing: shape(r, n) -> text of a program
whose test() reports values with out().  MIN[shape] is what C90 5.2.4.1 requires a
compiler to accept (or, where it is silent, a size that real programs have)."""
import re

HEAD = "void out(int x);\n"
MIN, SHAPES = {}, {}


def shape(lo, hi=2000):
    def f(fn):
        SHAPES[fn.__name__] = (fn, hi)
        MIN[fn.__name__] = lo
        return fn
    return f


def wrap(t):
    """break lines that q3cpp (16 KB) cannot hold, outside of strings and comments"""
    return t if max(map(len, t.split("\n"))) < 8000 or '"' in t or "/*" in t or "#" in t else re.sub(r"(.{200,400}?[;,]) ", r"\1\n", t)


def prog(top, body, decl="int i, x = 3;"):
    top, body, decl = wrap(top), wrap(body), wrap(decl)
    return HEAD + top + "\nint test(int command, int arg0) {\n%s\n%s\nreturn 0;\n}\n" % (decl, body)


@shape(32)
def parens(r, n):
    return prog("", "out(%sx + 1%s);" % ("(" * n, ")" * n))


@shape(31, 1000)
def parens_declarator(r, n):
    k = r.choice(["p", "f", "a"])
    if k == "p":
        return prog("int g = 7; int *%sv%s = &g;" % ("(" * n, ")" * n), "out(*v);")
    if k == "f":
        return prog("int %sv%s(int z) { return z + 1; }" % ("(" * n, ")" * n), "out(v(3));")
    return prog("int %sv%s[3] = { 1, 2, 3 };" % ("(" * n, ")" * n), "out(v[1]); out(sizeof v);")


@shape(12, 300)
def declarators(r, n):
    k = r.choice(["ptr", "array", "fun"])
    if k == "ptr":
        b = ["int x0 = 42;"] + ["int %sx%d = &x%d;" % ("*" * i, i, i - 1) for i in range(1, n + 1)]
        return prog("\n".join(b), "out(%sx%d);" % ("*" * n, n))
    if k == "array":
        return prog("int a%s = { 5 };" % ("[1]" * n), "a%s += 2; out(a%s); out(sizeof a); out(%sa);" % ("[0]" * n, "[0]" * n, "*" * n))
    return prog("int g(void) { return 4; }\ntypedef int (*f0)(void);\n" + "\n".join("typedef f%d (*f%d)(f%d);" % (i - 1, i, i - 1) for i in range(1, n + 1)) + "\n" + "\nf0 h(f0 p) { return p; }\n", "f%d q; f1 w = h; q = 0; out(q == 0); out(w(g)());" % n, "")


@shape(15, 1000)
def blocks(r, n):
    b, e = "", ""
    kinds = r.choice([["{}"], ["if"], ["if", "for", "while", "do", "{}", "switch", "else"], ["for"], ["while"], ["do"], ["switch"], ["else"]])
    for i in range(n):
        k = r.choice(kinds)
        if k == "{}":
            b += "{ int y%d = x + %d; x = y%d;\n" % (i, i & 7, i)
            e = "}\n" + e
        elif k == "if":
            b += "if (x >= 0) {\n"
            e = "} else out(x);\n" + e
        elif k == "else":
            b += "if (x < 0) out(x); else {\n"
            e = "}\n" + e
        elif k == "for":
            b += "for (i = 0; i < 1; i++) {\n"
            e = "break; }\n" + e
        elif k == "while":
            b += "while (x >= 0) {\n"
            e = "break; }\n" + e
        elif k == "do":
            b += "do { "
            e = "} while (x < 0);\n" + e
        else:
            b += "switch (x >= 0) { case 0: out(1); default: out(2); case 1: \n"
            e = "}\n" + e
    return prog("", b + "x++; out(x);\n" + e)


@shape(31, 2000)
def elseif(r, n):
    b = "for (i = -1; i <= %d; i += %d) {\n" % (n, max(1, n // 7))
    for i in range(n):
        b += "%sif (i == %d) out(%d);\n" % ("else " if i else "", i, i * 3 + 1)
    return prog("", b + "else out(-1); }")


@shape(20, 1000)
def ternary(r, n):
    t = "x"
    for i in range(n):
        t = r.choice(["x > %d ? %d : (%s)" if r.random() < .5 else "x > %d ? %d : %s"]) % (100 + i, i, t)
    return prog("", "out(%s);" % t)


@shape(20, 2000)
def unary(r, n):
    k = r.choice(["- ", "~", "!", "+ ", "-~", "(int)", "!-"])
    return prog("", "out(%sx);" % (k * n))


@shape(32, 1000)
def subscripts(r, n):
    t = "0"
    for i in range(n):
        t = "a[%s]" % t
    return prog("int a[4] = { 1, 2, 3, 0 };", "out(%s);" % t)


@shape(31, 400)
def calls(r, n):
    t = "x"
    for i in range(n):
        t = "f(%s)" % t
    return prog("int f(int z) { return z * 3 + 1; }", "out(%s);" % t)


@shape(15, 500)
def structs(r, n):
    k = r.random()
    if k < .5:
        t = "int m;"
        for i in range(n):
            t = "struct { %s } s;" % t
        return prog("struct { %s } v;" % t, "v%s.m = 5; out(v%s.m); out(sizeof v);" % (".s" * n, ".s" * n))
    t = ["struct s0 { int m; } v0 = { 6 };"]
    for i in range(1, n + 1):
        t.append("struct s%d { struct s%d *p; int k; } v%d = { &v%d, %d };" % (i, i - 1, i, i - 1, i))
    return prog("\n".join(t), "out(v%d.p%s); out(v%d.k);" % (n, "->p" * (n - 1) + "->m", n))


@shape(15, 500)
def braces(r, n):
    return prog("struct { int m%s; int y; } v = { %s1%s, 2 };" % ("[1]" * n, "{" * n, "}" * n), "out(v.m%s); out(v.y);" % ("[0]" * n))


@shape(127, 3000)
def members(r, n):
    if r.random() < .3:
        w = [r.randint(1, 32) for i in range(n)]
        t = "struct { %s } v;" % " ".join("unsigned m%d : %d;" % (i, x) for i, x in enumerate(w))
        b = "for (i = 0; i < sizeof v / 4; i++) ((int *)&v)[i] = i * 0x1234567;"
        return prog(t, b + " ".join("out(v.m%d);" % i for i in range(0, n, max(1, n // 20))) + "out(sizeof v);")
    t = "struct { %s } v = { %s };" % (" ".join("%s m%d;" % (r.choice(["int", "char", "short", "float"]), i) for i in range(n)), ", ".join(str(i % 100) for i in range(n)))
    return prog(t.replace("short", "int"), " ".join("out((int)v.m%d);" % i for i in range(0, n, max(1, n // 20))) + "out(sizeof v);")


@shape(31, 40)
def params(r, n):
    ty = [r.choice(["int", "int", "char", "float", "short", "unsigned"]) for i in range(n)]
    old = r.random() < .3
    if old:
        t = "int f(%s) %s" % (", ".join("p%d" % i for i in range(n)), " ".join("%s p%d;" % (x, i) for i, x in enumerate(ty)))
    else:
        t = "int f(%s)" % ", ".join("%s p%d" % (x, i) for i, x in enumerate(ty))
    b = " ".join("out((int)p%d);" % i for i in range(n))
    if old:
        ty = ["int" if x != "float" else x for x in ty]
        t = t.replace("float", "int")
    return prog(t + " { %s return p%d + 1; }" % (b, n - 1), "out(f(%s));" % ", ".join(str(i + 2) for i in range(n)))


@shape(127, 2000)
def locals_(r, n):
    k = r.choice(["int", "float", "char", "short", "struct s"])
    d = " ".join("%s v%d;" % (k, i) for i in range(n))
    m = ".m" if k == "struct s" else ""
    b = " ".join("v%d%s = x + %d;" % (i, m, i % 50) for i in range(n)) + " ".join("out((int)v%d%s);" % (i, m) for i in range(0, n, max(1, n // 30)))
    return prog("struct s { int m; };", b, "int i, x = 3; " + d)


@shape(511, 4000)
def globals_(r, n):
    k = r.random()
    d = "\n".join("%sint g%d%s;" % ("static " if k < .3 else "", i, " = %d" % i if k < .7 else "") for i in range(n))
    return prog(d, " ".join("g%d += %d;" % (i, i) for i in range(n)) + " ".join("out(g%d);" % i for i in range(0, n, max(1, n // 30))))


@shape(127, 1000)
def functions(r, n):
    d = "\n".join("%sint f%d(int x) { return %s; }" % (r.choice(["", "static "]), i, "f%d(x + %d)" % (i - 1, i) if i % 20 else "x") for i in range(n))
    return prog(d, " ".join("out(f%d(%d));" % (i, i) for i in range(0, n, max(1, n // 30))))


@shape(257, 3000)
def cases(r, n):
    k = r.choice(["dense", "sparse", "groups", "sparse"])
    v = {"dense": list(range(n)), "sparse": r.sample(range(-1 << 31, (1 << 31) - 1), n), "groups": [(i % 8) + (i // 8) * 1000 for i in range(n)]}[k]
    if r.random() < .5:
        r.shuffle(v)
    b = "\n".join("case %s: y = %d; break;" % ("(-2147483647 - 1)" if x == -1 << 31 else x, (i * 7 + 1) % 10007) for i, x in enumerate(v))
    p = r.sample(v, min(n, 40))
    p += [x + 1 for x in p]
    return prog("int f(int x) { int y = -5; switch (x) { %s\ndefault: y = -6; } return y; }\nint t[] = { %s };" % (b, ", ".join("(-2147483647 - 1)" if x == -1 << 31 else str(x) for x in p)), "for (i = 0; i < sizeof t / sizeof t[0]; i++) out(f(t[i]));")


@shape(127, 3000)
def enums(r, n):
    return prog("enum e { %s };" % ", ".join("e%d%s" % (i, " = %d" % r.randint(-99999, 99999) if r.random() < .2 else "") for i in range(n)), " ".join("out(e%d);" % i for i in range(0, n, max(1, n // 30))))


@shape(100, 1000)
def labels(r, n):
    b = "goto l%d;\n" % (n - 1) + "\n".join("l%d: out(%d); %s" % (i, i, "goto l%d;" % (i - 1) if i else "goto end;") for i in range(n))
    return prog("", b + "\nend: out(x);")


@shape(1024, 5000)
def macros(r, n):
    k = r.random()
    if k < .4:
        return prog("\n".join("#define M%d %d" % (i, i * 3) for i in range(n)), " ".join("out(M%d);" % i for i in range(0, n, max(1, n // 30))))
    n = min(n, 1100)
    return prog("#define M0 42\n" + "\n".join("#define M%d M%d" % (i, i - 1) for i in range(1, n)), "out(M%d);" % (n - 1))


@shape(31, 40)
def macro_params(r, n):
    return prog("#define M(%s) %s" % (", ".join("a%d" % i for i in range(n)), " + ".join("%d * a%d" % (i + 1, i) for i in range(n))), "out(M(%s));" % ", ".join(str(i * 5) for i in range(n)))


@shape(8, 60)
def nested_if(r, n):
    return prog("", "\n".join(r.choice(["#if 1", "#ifndef nope", "#if 0\nout(%d);\n#elif 1" % i, "#ifdef nope\nout(7);\n#else"]) for i in range(n)) + "\nout(%d);\n" % n + "#endif\n" * n)


@shape(31, 480)
def identifiers(r, n):
    a = "".join(r.choice("abcdefgXYZ_019") for i in range(n))
    v = ["v" + a + x for x in "abc"]
    return prog("static int %s = 1, %s = 2;\nint g%s(int %s) { return %s + 1; }" % (v[0], v[1], v[1], v[2], v[2]), "int l%s = %s; out(%s); out(%s); out(g%s(l%s)); goto %s; out(9); %s: out(4);" % (a, v[0], v[0], v[1], v[1], a, v[2], v[2]), "")


@shape(509, 6500)
def string(r, n):
    k = r.random()
    s = "".join(r.choice(["a", "b", "\\n", "\\\\", "\\001", "%"]) for i in range(n))
    if k < .3:
        s = '" "'.join(s[i:i + 10] if not s[i:i + 10].endswith("\\") else "x" for i in range(0, len(s), 10))
        s = "".join(r.choice("abc") if c not in ' "' else c for c in s)
    elif k < .5:
        s = '"\n  "'.join("abcdefgh" for i in range(n // 8 + 1))
    return prog('char *p = "%s";\nchar a[] = "%s";' % (s, s), "for (i = x = 0; i < sizeof a; i++) { x = x * 31 + a[i] + p[i]; } out(x); out(sizeof a);")


@shape(20, 3000)
def digits(r, n):
    k = r.random()
    if k < .4:
        return prog("", "out(0%s17); out(0x%sAF);" % ("0" * n, "0" * n))
    return prog("", "f = 1.%s5f; out((int)(f * 1000)); f = 0.%s125e%dF; out((int)(f * 1000)); f = 1%s.0e-%d; out((int)(f * 1000));" % ("0" * n, "0" * min(n, 30), min(n, 30), "0" * min(n, 30), min(n, 30)), "float f;")


@shape(509, 20000)
def comment(r, n):
    c = "".join(r.choice(["a", "*", "/*", "\n", '"', "'", "\\"]) for i in range(n)).replace("\\", "").replace("/*", "/ *").replace("*/", "* ")
    return prog("int /*%s */ g = 4; // %s" % (c, "x" * n), "out(g /*%s */ + 1);" % c)


@shape(509, 4000)
def line(r, n):
    t = " ".join("out(%d);" % i for i in range(n // 9 + 1))
    return prog("", t.replace(" ", r.choice([" ", " \\\n", " /* */ "])))


@shape(100, 3000)
def chain(r, n):
    k = r.choice(["+", "-", "*", "&", "|", "^", ",", "&&", "||", "==", "<", "<<", "%", "="])
    if k == "=":
        n = min(n, 400)
        return prog("int %s;" % ", ".join("g%d" % i for i in range(n)), "%s = x; out(g0); out(g%d);" % (" = ".join("g%d" % i for i in range(n)), n - 1))
    if k == "<<":
        return prog("", "out(1u %s);" % " ".join("<< (x & 1)" for i in range(n)))
    if k == "%":
        return prog("", "out(x %s);" % " ".join("%% (x + %d)" % (i & 15) for i in range(n)))
    if k in "*&|":
        n = min(n, 500)            # constants move to the left: the operand stack has 256 entries
    t = (" %s " % k).join(r.choice(["u", "%d" % (i & 31), "(u & 7u)"]) for i in range(n))
    return prog("", "out(u%s%s);" % (k, t), "unsigned u = 3;")


@shape(100, 3000)
def deep_right(r, n):
    n = min(n, 250)
    k = r.choice(["+", "-", "|", "^"])
    return prog("", "out(%su%s);" % (("u %s (" % k) * n, ")" * n), "unsigned u = 3;")


@shape(100, 3000)
def deep_calls_args(r, n):
    n = min(n, 60)
    t = "x"
    for i in range(n):
        t = r.choice(["f(%s, %d)", "f(%s, x + %d)"]) % (t, i) if r.random() < .5 else "f(%d, %s)" % (i, t)
    return prog("int f(int a, int b) { return a * 5 + b; }", "out(%s);" % t)


@shape(200, 4000)
def initializers(r, n):
    k = r.random()
    if k < .4:
        return prog("int a[] = { %s };" % ", ".join(str(i * 7) for i in range(n)), "for (i = 0; i < sizeof a / sizeof *a; i++) x = x * 31 + a[i]; out(x);", "int i; unsigned x = 3;")
    if k < .7:
        return prog("struct { char c; int k; char *s; } a[] = { %s };" % ",\n".join("{ %d, %d, \"s%d\" }" % (i % 100, i, i) for i in range(n)), "for (i = 0; i < sizeof a / sizeof *a; i++) x = x * 31 + a[i].c + a[i].k + a[i].s[1]; out(x);", "int i; unsigned x = 3;")
    return prog("", "for (i = 0; i < sizeof a / sizeof *a; i++) x = x * 31 + a[i]; out(x);", "int i; unsigned x = 3; int a[] = { %s };" % ", ".join(str(i * 7) if i % 3 else "7 + 0" for i in range(min(n, 1000))))


@shape(50, 1000)
def statements(r, n):
    b = []
    for i in range(n):
        b.append(r.choice(["x += %d;", "if (x & %d) x ^= 5;", "for (i = 0; i < %d %% 4; i++) x += i;", "x = x > %d ? x - 1 : x + 3;", "out(x ^ %d);", "while (x > 100000) x = x / 2 - %d;"]) % r.randint(1, 99))
    return prog("", "\n".join(b))


@shape(20, 400)
def typedefs(r, n):
    d = "typedef int t0;\n" + "\n".join("typedef t%d t%d;" % (i - 1, i) for i in range(1, n + 1))
    return prog(d, "t%d y = x; out(y); out(sizeof(t%d));" % (n, n // 2), "int x = 3; t0 z;".replace("t0 z;", "") if 0 else "t%d y0 = 3; int x = y0;" % n).replace("t%d y = x;" % n, "{ t%d y = x;" % n).replace("return 0;", "} return 0;")


@shape(8, 9)
def includes(r, n):
    return prog('#include "h1.h"', "out(%s);" % " + ".join("V%d" % i for i in range(1, n + 1)))


def include_files(n):
    return [("h%d.h" % i, ('#include "h%d.h"\n' % (i + 1) if i < n else "") + "#define V%d %d\n" % (i, i * 3)) for i in range(1, n + 1)]


@shape(32767, 200000)
def object_size(r, n):
    k = r.random()
    if k < .5:
        return prog("char a[%d]; struct { char b[%d]; int z; } s = { \"x\", 7 };" % (n, n), "a[%d] = 5; out(a[%d] + a[0]); out(sizeof a); out(s.z); s.b[%d] = 3; out(s.b[%d] + s.b[0]); out(sizeof s);" % (n - 1, n - 1, n - 1, n - 1))
    n = min(n, 20000)
    return prog("", "a[%d] = 5; a[0] = 2; out(a[%d] + a[0]); out(sizeof a);" % (n - 1, n - 1), "char a[%d];" % n)
