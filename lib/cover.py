"""Wrong or oversized sources: a lot of one thing, without regard to limits.
Nothing has to be accepted; every end must be an orderly one."""

OVER = []


def over(hi):
    def f(fn):
        OVER.append((fn.__name__, fn, hi))
        return fn
    return f


def name(r, n):
    return "".join(r.choice("abcXYZ_019") for _ in range(n)).lstrip("019") or "a"


MAIN = "\nint vmMain(int x, int b) { return x; }\n"


@over(4000)
def macro_args(r, n):
    return "#define F(%s) a %s\nint x[] = { F(%s) };" % (r.choice(["a", "a, b", ", ".join("p%d" % i for i in range(31))]), r.choice(["", "#a", "##a", "+ b"]), r.choice([",", "1,", "(1,2),", "\n,"]) * n + "0")


@over(300)
def macro_params(r, n):
    return "#define F(%s) %s\nint x = F(%s);" % (", ".join("a%d" % (i if r.random() < .99 else 0) for i in range(n)), "+".join("a%d" % i for i in range(n)), ",".join("1" * n))


@over(6000)
def open_call(r, n):
    return "#define F(a) a\nint x = F(%s" % (r.choice(["1\n", "(\n", ",\n", "F(\n", "'\n", '"\n', "\\\n", "#\n", "#define y\n", "\n"]) * n)


@over(1200)
def macro_chain(r, n):
    k = r.random()
    t = "".join("#define M%d%s M%d%s %s\n" % (i, "(a)" if k < .5 else "", i + 1, "(a)" if k < .5 else "", r.choice(["", "+ 1", "M0" if k > .5 else "M0(a)"]) if r.random() < .1 else "") for i in range(n))
    return t + "int x = M0%s;" % ("(1)" if k < .5 else "")


@over(14)
def doubling(r, n):
    return "".join("#define M%d M%d %s M%d\n" % (i, i + 1, r.choice(["", "+", ",", "##"]), i + 1) for i in range(n)) + "#define M%d 1\nint x = M0;" % n


@over(3000)
def paste(r, n):
    k = r.choice(["a", "1", ".", "+", "\"\"", "L", "<"])
    return "#define P(x, y) x ## y\n#define Q %s\nint x = %s; int y = Q;" % (" ## ".join([k] * n), "P(" * min(n, 300) + k + ", %s)" % k * min(n, 300))


@over(6000)
def stringify(r, n):
    return "#define S(x) #x\n#define T(x) S(x)\nchar *x = %s(%s);" % (r.choice("ST"), r.choice(['"', "\\", "'", "a", "\\\"", " ", "\n", '"\\n"', "(", ",", "'\"'", "@", "/* */", "T(a)"]) * n)


@over(3000)
def if_depth(r, n):
    return r.choice(["#if 1\n", "#if 0\n", "#ifdef A\n", "#ifndef A\n", "#if 1\n#else\n", "#if 0\n#elif 1\n"]) * n + "int x;" + r.choice(["", "\n#endif" * n, "\n#endif" * (n + 1), "\n#else" * n])


@over(5000)
def if_expression(r, n):
    k = r.choice(["(", "!", "-", "~", "1+", "1?", "1?2:", "0||", "1&&", "defined", "defined(", "1,", "1<<", "((1)+", "1/", "1%", "1==", "!!", "- -", "1 "])
    return "#if %s1%s\n#endif\nint x;" % (k * n, r.choice(["", ")" * n, ":1" * n, "+" * n]))


@over(60)
def include_self(r, n):
    return r.choice(['#include "x.c"\n', '#include <x.c>\n', '#include "./x.c"\n', '#include "%s/x.c"\n' % ("." + "/." * n)]) + "int x;"


@over(1000)
def include_name(r, n):
    return r.choice(['#include "%s"\n', "#include <%s>\n", '#define N "%s"\n#include N\n', "#define N <%s>\n#include N\n", '#include "%s\n', "#include <%s\n"]) % (r.choice(["a", "a/", "../", "a b", ".", "%s", "/"]) * n) * r.choice([1, 1, 40])


@over(200)
def include_dirs(r, n):
    return "".join('#include "d%d/h.h"\n' % i for i in range(n)) + "int x;"


@over(5000)
def directives(r, n):
    return "\n".join(r.choice(["#define", "#undef", "#if", "#ifdef", "#ifndef", "#elif", "#else", "#endif", "#line", "#error", "#include", "#pragma", "#", "#x", "#define %s" % name(r, 20), "#define F(", "#define F(a", "#define F(a,", "#define F(a) #", "#define F(a) ##", "#define F ##a", "#undef 1", "#line x", "#line 1 x", "#line -1", "#if '", "#if \"", "#if 1 +", "#pragma ref", "#pragma ref %s" % name(r, 300)]) for i in range(n)) + "\nint x;"


@over(70000)
def long_token(r, n):
    k = r.choice(["a", "1", "0x1", "1.", "'", '"', "//", "/*", "L'", 'L"', "1e", "\\", ".", "%", "0", "08", "'\\", '"\\x', "??/", "\0", "\x80"])
    return "int x = %s%s;%s" % (k, r.choice(["a", "1", "0", "f", "\\\n", "\\", "*", "/", "e+", ".", "?", "\xff", "\0", " "]) * n, MAIN)


@over(3000)
def error_message(r, n):
    a, b = name(r, r.choice([5, 200, 470])), name(r, r.choice([5, 200, 470]))
    d = r.choice(["struct %s", "union %s", "enum %s", "int"]).replace("%s", a)
    w = min(n, 400)
    t = r.choice(["%s %s x;", "%s %s;", "%s (%s)(int);", "%s %s[3];"]) % (d, "*" * w + b)
    return d.replace("int", "struct q") + " { int m; };\n" + t + "\n" + "".join(r.choice([
        "int %s;" % b, "extern float %s;" % b, "int f(void) { return %s + x; }" % b, "int g(void) { %s = 1.5; }" % b, "int h(void) { %s(1, 2, 3); }" % b,
        "int i(void) { %s.%s = 1; }" % (b, a), "int j(void) { return %s->%s; }" % (b, a), "int k(void) { goto %s; }" % a, "int l(%s %s, %s %s) { }" % (d, b, d, b),
        "int m(void) { char c = %s; double *p = %s; return &%s; }" % (b, b, b), "int n(void) { return (%s %s)1; }" % (d, "*" * w), "int o = sizeof(%s (%s)(void));" % (d, "*" * w),
        "int p(a) { return 1; }", "int q(%s) %s c; { return 1; }" % (a, d), "typedef int %s; int %s;" % (a, a), "%s *%s;" % (a, b)]) + "\n" for i in range(r.choice([1, 3, 12])))


@over(3000)
def many_errors(r, n):
    return "int f(void) {\n" + "".join(r.choice(["u%d = 1;" % i, "x%d(;" % i, ";", "1 = 2;", "goto l%d;" % i, "int v%d" % (i % 7), "case %d:" % i, "break;", "}", "{", "*", "if (", "\"", "return x%d" % i, "struct s%d y;" % i, "f();", "f(1)(2);", "int a[-1];", "l:", "#x", "else", "while"]) + "\n" for i in range(n)) + MAIN


@over(1500)
def undeclared(r, n):
    return "int f(%s) %s { return %s; }" % (", ".join("p%d" % i for i in range(n)), r.choice(["", "".join("int p%d;" % (i * 2) for i in range(n))]), " + ".join("u%d" % i for i in range(n)))


@over(2000)
def half(r, n):
    k = r.choice(["int f(void) { ", "(", "{", "[", "struct {", "int x = {", "int (", "int f(int ", "f(", "1 ? ", "if (1) ", "do ", "for (;;) ", "switch (1) case 1: ", "a = ", "*", "sizeof ", "sizeof(", "(int) ", "int a[", "enum { A = ", "x->", "&", "case ", "return (", "while (1) { ", "else ", "union { int a; struct { ", "typedef ", "const "])
    return r.choice(["", "int vmMain(int x, int b) { ", "int x = ", "int vmMain(void) { x = "]) + k * n + r.choice(["", ";", "1", "}", ")" * n, "}" * n, "x" + ")" * n + ";" + "}" * n])


@over(40)
def big_types(r, n):
    t = r.choice(["char", "int", "struct { int a[1000]; }", "double *"])
    return "%s x%s; int y = sizeof x; struct { %s m%s, n%s; } z[%d]; int f(void) { return x%s != 0; } %s;" % (t, "[%d]" % r.choice([2, 1000, 65536, 0x7fffffff]) * n, t, "[70000]" * n, "[3]" * n, r.choice([1, 70000]), "[1]" * n, r.choice(["", "char l[2147483647]; char m[2147483647]", "struct { char c[2147483647]; int d; } q", "int a[0x80000000u]", "int a[-1]", "int a[1 << 31]", "int i : 33"]))


@over(3000)
def bad_switch(r, n):
    return "int f(int x) { switch (x) { %s } }" % " ".join(r.choice(["case %d:" % r.choice([i, i, 5, -i, 2147483647 - i, -2147483647 - 1 + i]), "default:", "case x:", "case 1.5:", "x++;", "break;", "{", "}" if r.random() < .2 else ";", "switch (x) {"]) for i in range(n))


@over(600)
def options(r, n):
    return "int x = %s;" % " + ".join("D%d" % i for i in range(n))


@over(6000)
def wide(r, n):
    return 'int w[] = L"%s";\nint v[%d] = L"%s";\nint c = L\'%s\';\nchar s[%d] = "%s";\n' % (r.choice(["a", "\\x1", "\\7", "\\0", "\xff", '\\"', 'ab"\n"']) * n, r.choice([1, n, n + 1]), "b" * n, "c" * min(n, 50), r.choice([1, n, n + 1]), r.choice(["d", '"\n"d', "\\n"]) * n)


@over(4000)
def trees(r, n):
    """expressions the folding and rewriting of trees look at"""
    o = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&&", "||", "<", "==", ",", "?:"]
    def e(d):
        if d <= 0 or r.random() < .1:
            return r.choice(["0", "1", "-1", "2147483647", "(-2147483647-1)", "4294967295u", "0.0f", "1e38f", "x", "&y", "a", "&a[3]", "f", "(char)300", "\"s\"", "sizeof x", "s", "s.m", "&s", "(void)0", "(char*)0", "(unsigned)-1", "31", "32", "3000000000.0", "1.5"])
        k = r.choice(o)
        if k == "?:":
            return "(%s ? %s : %s)" % (e(d - 1), e(d - 1), e(d - 1))
        if r.random() < .2:
            return r.choice(["-(%s)", "!(%s)", "~(%s)", "(int)(%s)", "(float)(%s)", "(unsigned char)(%s)", "*(%s)", "&(%s)", "(%s)[1]", "(%s)++", "(%s)()", "(short)(%s)", "(char*)(%s)"]) % e(d - 1)
        return "(%s %s %s)" % (e(d - 1), k, e(d - 1))
    l = [e(r.randrange(1, 6)) for i in range(1 + n // 100)]
    return "int x, y, a[5]; struct { int m : 5; float g; } s; int f();\n" + "\n".join(r.choice(["int g%d = %s;", "float g%d = %s;", "char *g%d = %s;", "int h%d(void) { return %s; }", "int h%d(void) { x = %s; }", "int a%d[%s];", "enum { e%d = %s };", "struct { int b%d : %s; } t;", "int h%d(void) { switch (x) { case %s: ; } }", "int h%d(void) { if (%s) x++; }", "#if %d + %s\n#endif"]) % (i, x) for i, x in enumerate(l))
