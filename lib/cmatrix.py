"""Every operator with operands of every pair of types: one construct per line."""
import re

TYPES = {
    # name: (declaration, expression, assignable)
    "char": "char %s;", "int": "int %s;", "unsigned": "unsigned %s;", "short": "short %s;", "float": "float %s;", "double": "double %s;", "long": "unsigned long %s;",
    "enum": "enum en { EN1, EN2 } %s;", "cint": "extern const int %s;", "vint": "volatile int %s;",
    "pint": "int *%s;", "pcint": "const int *%s;", "cpint": "extern int *const %s;", "puns": "unsigned *%s;", "pchar": "char *%s;", "pfloat": "float *%s;", "pvoid": "void *%s;", "pcvoid": "const void *%s;",
    "ppint": "int **%s;", "parr": "int (*%s)[3];", "parr4": "int (*%s)[4];", "parrx": "int (*%s)[];", "pvint": "volatile int *%s;", "pfn": "int (*%s)(void);", "pfi": "int (*%s)(int);", "pfv": "void (*%s)(void);", "pfk": "int (*%s)();",
    "sa": "struct A { int m; char c; int bf : 5; } %s;", "sb": "struct B { int m; } %s;", "csa": "extern const struct A %s;", "un": "union UU { int m; float f; } %s;",
    "psa": "struct A *%s;", "psb": "struct B *%s;", "pcsa": "const struct A *%s;", "pinc": "struct INC *%s;", "psc": "struct { const int m; } *%s;",
    "arr": "int %s[3];", "carr": "extern const int %s[3];", "arr2": "int %s[2][3];", "str": "char %s[4];", "arrx": "extern int %s[];",
    "fn": "int %s(void);", "fi": "int %s(int);", "fv": "void %s(void);", "fk": "int %s();",
}
SPECIAL = {"zero": "0", "one": "1", "zerou": "0u", "nullp": "((void *)0)", "fcon": "1.5f", "str": '"ab"', "voidv": "vfv()", "bf": "vsa.bf", "cm": "vcsa.m", "en": "EN2", "addr": "(&vint)", "cast": "((int)vchar)", "call": "vfn()", "par": "(vint)", "deref": "(*vpint)", "cderef": "(*vpcint)", "sub": "varr[1]", "star": "(*vparr)", "fnstar": "(*vpfn)", "cond": "(vint ? vint : vint)", "comma": "(vint, vint)", "vd": "((void)vint)", "szz": "sizeof vint", "neg": "(-1)", "min": "(1 - 1)", "lw": "L'a'", "ws": 'L"a"'}
DECL = [d % ("v" + n) for n, d in TYPES.items()]
EXPR = ["v" + n for n in TYPES] + list(SPECIAL.values())
TN = ["void", "char", "signed char", "unsigned char", "short", "int", "unsigned", "long", "float", "double", "enum en", "int *", "const int *", "char *", "float *", "void *", "const void *", "int **", "int (*)[3]", "int (*)(void)", "int (*)(int)", "void (*)(void)", "struct A", "struct B", "const struct A", "union UU", "struct A *", "struct B *", "const struct A *", "struct INC", "struct INC *", "int [3]", "int [2][3]", "int []", "int (void)", "int ()"]
BIN = "* / % + - << >> < > <= >= == != & ^ | && || ,".split()
ASG = "= *= /= %= += -= <<= >>= &= ^= |=".split()


def all_lines():
    """one function per line, each with one construct that may be wrong"""
    for a in EXPR:
        for b in EXPR:
            for o in BIN:
                yield "%s %s %s" % (o, a, b), "{ (void)(%s %s %s); }" % (a, o, b)
            for o in ASG:
                yield "%s %s %s" % (o, a, b), "{ %s %s %s; }" % (a, o, b)
            yield "[] %s %s" % (a, b), "{ (void)%s[%s]; }" % (a, b)
            yield "?: %s %s" % (a, b), "{ (void)(vint ? %s : %s); }" % (a, b)
            yield "call %s %s" % (a, b), "{ (void)%s(%s); }" % (a, b)
        for o in ["-", "+", "!", "~", "*", "&", "sizeof ", "++", "--", "(void)"]:
            yield "%s %s" % (o, a), "{ (void)(%s%s); }" % (o, a)
        for o in ["++", "--"]:
            yield "%s %s" % (a, o), "{ (void)(%s%s); }" % (a, o)
        for m in ["m", "c", "bf", "f", "zz"]:
            yield ". %s %s" % (a, m), "{ (void)(%s.%s); }" % (a, m)
            yield "-> %s %s" % (a, m), "{ (void)(%s->%s); }" % (a, m)
            yield "=. %s %s" % (a, m), "{ %s.%s = 0; }" % (a, m)
            yield "=-> %s %s" % (a, m), "{ %s->%s = 0; }" % (a, m)
        yield "()2 %s" % a, "{ (void)%s(1, 2); }" % a
        yield "()0 %s" % a, "{ (void)%s(); }" % a
        yield "*= %s" % a, "{ *%s = 0; }" % a
        yield "&= %s" % a, "{ void *p; p = &%s; }" % a
        for s in ["if (%s) ;", "while (%s) ;", "do ; while (%s);", "for (; %s;) ;", "switch (%s) { case 0: ; }", "switch (1) { case %s: ; }", "{ %s; }", "(void)(%s ? 1 : 2);"]:
            yield s % a, "{ %s }" % (s % a)
        yield "static = %s" % a, "{ static int i = %s; i++; }" % a
        yield "array %s" % a, "{ int i[%s]; i[0] = 0; }" % a
        for t in TN:
            if t not in ("void", "int [3]", "int [2][3]", "int []", "int (void)", "int ()", "struct INC"):
                x = decl(t, "x")
                yield "init %s %s" % (t, a), "{ %s = %s; }" % (x, a)
                yield "arg %s %s" % (t, a), "{ extern int gg%%(%s); gg%%(%s); }" % (decl(t, ""), a)
                yield "static init %s %s" % (t, a), "{ static %s = %s; }" % (x, a)
                yield "brace init %s %s" % (t, a), "{ %s = { %s }; }" % (x, a)
            yield "cast %s %s" % (t, a), "{ (void)((%s)%s); }" % (t, a)
    for t in TN:
        yield "sizeof %s" % t, "{ (void)sizeof(%s); }" % t
        x = decl(t, "x")
        yield "object %s" % t, "{ %s; (void)&x; }" % x
        yield "member %s" % t, "{ struct { int a; %s; } y; (void)&y; }" % x
        yield "array of %s" % t, "{ %s; (void)&x; }" % decl(t, "x[2]")
        yield "pointer to %s" % t, "{ %s; (void)&x; }" % decl(t, "(*x)")
        yield "function %s" % t, "{ extern %s; }" % decl(t, "rd%(void)")
        yield "parameter %s" % t, "{ extern int gg%%(%s); }" % decl(t, "z")
        yield "bitfield %s" % t, "{ struct { %s : 3; } y; (void)&y; }" % x
        yield "register %s" % t, "{ register %s; }" % x
        for u in TN:
            yield "redeclare %s %s" % (t, u), "{ extern %s; extern %s; }" % (decl(t, "rd%"), decl(u, "rd%"))
            yield "two types %s %s" % (t, u), "{ %s %s; }" % (t, decl(u, "x"))


def decl(t, n):
    for m in ("(*)", "[", "("):
        i = t.find(m)
        if i >= 0:
            if m == "(*)":
                return t[:i] + "(*" + n + ")" + t[i + 3:]
            return t[:i] + n + t[i:]
    return t + " " + n


FUN = re.compile(r"\bv(?:pf[nivk]|f[nivk])\b|\(\*\)\(|\(\*x\)\(")
VOIDP = re.compile(r"\bvpc?void\b|void \*|\(\(void \*\)0\)")


def judged(text):
    """not: conversions between void * and function pointers (an extension), long long, enum against unsigned, operand of incomplete type"""
    return not (FUN.search(text) and VOIDP.search(text) or "long long" in text or "*vpinc" in text or "enum en rd%" in text)


# ---- declarations that have to agree
PT = ["void", "", "int", "float", "char", "unsigned", "int, int", "int, float", "int, int, int", "int, ...", "int, int, ...", "const int", "int *", "const int *", "int [3]", "int []", "int [4]", "int (*)[3]", "int (*)[4]", "int (*)[]", "struct A", "struct A *", "const struct A *", "struct B *", "int (*)(void)", "int (*)(int)", "int (int)", "int (*)()", "int (*)(int, int)",
      "char *, ...", "int **", "const int **", "int *const", "int *, int *", "float, int", "double", "short", "enum en", "volatile int *", "char (*)[3]", "int (*)[2][3]", "void *", "unsigned char", "int (*(*)(int))(float)", "int (*(*)(float))(float)"]
RT = ["int", "void", "int *", "const int *", "struct A *", "float", "int (*@)[3]", "int (*@)[4]", "int (*@)(int)", "int (*@)(int, int)", "int (*@)()", "struct A"]


def fdecl(t, n, params):
    f = "%s(%s)" % (n, params)
    return t.replace("@", f) if "@" in t else t + " " + f


def all_decls():
    for p in PT:
        for q in PT:
            yield "prototypes", "void", "{ extern %s; extern %s; }" % (fdecl("int", "gg%", p), fdecl("int", "gg%", q))
            yield "prototypes", "void", "{ extern %s; extern %s; extern %s; }" % (fdecl("int", "gg%", ""), fdecl("int", "gg%", p), fdecl("int", "gg%", q))
            yield "function pointer", "void", "{ int (*x)(%s); extern int (*rd%%)(%s); x = rd%%; }" % (p, q)
            yield "pointer to function pointer", "void", "{ int (**x)(%s); extern int (**rd%%)(%s); x = rd%%; }" % (p, q)
            yield "?: of function pointers", "void", "{ extern int (*rd%%)(%s); extern int (*gg%%)(%s); (void)(vint ? rd%% : gg%%); }" % (p, q)
            yield "== of function pointers", "void", "{ extern int (*rd%%)(%s); extern int (*gg%%)(%s); (void)(rd%% == gg%%); }" % (p, q)
            yield "struct", "void", "{ struct S%%; extern struct S%% { int (*f)(%s); } rd%%; extern int gg%%(%s); rd%%.f = gg%%; }" % (p, q)
        for t in RT:
            for u in RT:
                if p in ("", "void", "int"):
                    yield "results", "void", "{ extern %s; extern %s; }" % (fdecl(t, "gg%", p), fdecl(u, "gg%", "int" if p else ""))
                    yield "result of pointer", "void", "{ extern %s; extern %s; rd%% = gg%%; }" % (fdecl(t, "(*rd%)", p), fdecl(u, "gg%", "int" if p else ""))
    for a in ["", "1", "3", "4"]:
        for b in ["", "1", "3", "4"]:
            for t, u in (("int", "int"), ("int", "char"), ("const int", "int"), ("struct A", "struct A"), ("struct A", "struct B"), ("int *", "const int *")):
                yield "array sizes", "void", "{ extern %s rd%%[%s]; extern %s rd%%[%s]; }" % (t, a, u, b)
                yield "array sizes 2", "void", "{ extern %s rd%%[][%s]; extern %s rd%%[2][%s]; }" % (t, a or "5", u, b or "3")
                yield "pointer to array", "void", "{ extern %s (*rd%%)[%s]; extern %s gg%%[3][%s]; rd%% = gg%%; }" % (t, a, u, b or "3")


# ---- what may be assigned
MEM = ["int a;", "const int a;", "int a[2];", "const int a[2];", "const int a[2][2];", "int *const a;", "const int *a;", "int *const a[2];", "struct { int b; } a;", "struct { const int b; } a;", "struct { int c; struct { const int b[2]; } d; } a;",
       "const struct { int b; } a;", "struct { int b; } a[2];", "struct { const int b; } a[2];", "const struct { int b; } a[2];", "union { int b; const float c; } a;", "union { int b; float c; } a;", "struct { const int b; } *a;", "struct { union { int b; struct { int *const p; } q; } r[2]; } a;",
       "volatile int a;", "const volatile int a;", "struct A a;", "const struct A a;", "CI a;", "CS a;", "int (*const a)(void);", "int (*a)(void);", "unsigned a : 3;", "const unsigned a : 3;"]
OPS = ["%s x, y; x = y;", "extern const %s rd%%; %s x; x = rd%%;", "extern const %s rd%%; %s x; rd%% = x;", "%s *x, *y; *x = *y;", "const %s *x; %s *y; *x = *y;", "const %s *x; %s *y; *y = *x;", "%s x[2]; x[0] = x[1];", "%s x, y[2]; x = y[vint];", "%s x, y; x = vint ? x : y;",
       "%s x, y; (x) = (y);", "struct { int e; %s x; } f, g; f = g;", "struct { int e; %s x[3]; } f, g; f.x[1] = g.x[2];", "struct { int e; %s x; } f, g; f.x = g.x;", "%s x, y, *p = &x; p->a = y.a;", "%s x, y; x.a++;", "%s x; x.a = x.a;", "%s x; --x.a;", "%s x; x.a += 1;", "%s x; int *p; p = x.a;", "%s x; const int *p; p = &x.a;", "%s x; int *p; p = &x.a;",
       "%s x; const void *p = &x.a;", "%s x; void *p = &x.a;", "extern const %s rd%%; void *p = &rd%%;", "extern const %s rd%%; int *p; p = rd%%.a;", "extern const %s rd%%; rd%%.a = 0;", "extern const %s rd%%; const %s *p = &rd%%; p = &rd%%;", "extern %s gg%%(void); (void)gg%%().a;", "extern %s gg%%(void); gg%%().a = 0;", "extern %s gg%%(void); (void)&gg%%();", "extern %s gg%%(void), rd%%; rd%% = gg%%();",
       "extern int gg%%(%s); %s x; gg%%(x);", "static %s x, *const p = &x; *p = x;", "static %s x, *const p = &x; p = &x;"]


def all_assigns():
    for kind in ("struct", "union"):
        for m in MEM:
            for o in OPS:
                o = o.replace("%%", "~")
                t = "struct T% { TYPE }".replace("struct", kind).replace("TYPE", m)
                b, k = "", 0
                o2 = o.replace("%s", "\0").replace("~", "%").replace("\0", "%s T%%" % kind)
                yield "assign", "void", "{ typedef const int CI; typedef const struct A CS; %s; %s }" % (t, o2.replace("%%", "%"))


# ---- statements in each other
def statement(r, depth, loops=0):
    k = r.random()
    if depth <= 0 or k < .35:
        return r.choice([";", "vint++;", "break;", "continue;", "case %d: ;" % r.randrange(4), "default: ;", "goto l%d;" % r.randrange(3), "l%d: ;" % r.randrange(3), "return;", "break;", "continue;", "case %d: break;" % r.randrange(4)])
    s = lambda: statement(r, depth - 1)
    return r.choice([
        lambda: "{ %s %s }" % (s(), s()), lambda: "{ %s %s %s }" % (s(), s(), s()), lambda: "if (vint) %s" % s(), lambda: "if (vint) %s else %s" % (s(), s()), lambda: "while (vint) %s" % s(),
        lambda: "for (; vint;) %s" % s(), lambda: "do %s while (vint);" % s(), lambda: "switch (vint) { %s %s %s }" % (s(), s(), s()), lambda: "switch (vint) %s" % s(), lambda: "switch (vint) { case 1: %s default: %s case %d: %s }" % (s(), s(), r.randrange(3), s()),
        lambda: "l%d: %s" % (r.randrange(3), s()), lambda: "case %d: %s" % (r.randrange(4), s()), lambda: "{ int v%d = 1; %s v%d++; }" % (r.randrange(3), s(), r.randrange(3)), lambda: "{ int v%d; { %s } v%d = 2; }" % (r.randrange(3), s(), r.randrange(3)),
    ])()


def statements(r, n):
    """random nests, most of them wrong"""
    for i in range(n):
        b = "{ %s }" % " ".join(statement(r, r.choice([1, 2, 3, 4])) for _ in range(r.choice([1, 1, 2])))
        # labels nobody defines make every other mistake invisible: define some
        for l in range(3):
            if "goto l%d" % l in b and "l%d:" % l not in b and r.random() < .7:
                b = b[:-1] + "l%d: ; }" % l
        yield "void", b


RET = TN


def all_returns():
    for t in RET:
        for a in EXPR:
            yield "return %s %s" % (t, a), t, "{ return %s; }" % a
        yield "return; %s" % t, t, "{ return; }"


def special():
    for f in (all_decls, all_assigns):
        for d, t, b in f():
            # not: enumerations against unsigned, float and double (the same size) against ()
            if judged(t + b) and not ("enum en" in b and "unsigned" in b) and not ("()" in b and re.search("float|double", b)):
                yield t, b


def lines():
    for d, b in all_lines():
        if judged(b):
            yield "void", b
    for d, t, b in all_returns():
        if judged(t + b):
            yield t, b


def source(ls):
    """-> text and number of lines before the first construct"""
    pre = "\n".join(DECL) + "\n"
    out = []
    for i, (t, b) in enumerate(ls):
        for x in ("rd", "gg", "S", "T"):
            b = b.replace(x + "%", "%s%d" % (x, i))
        out.append("static %s %s\n" % (decl(t, "F%d(void)" % i), b))
    return pre + "".join(out), pre.count("\n")
