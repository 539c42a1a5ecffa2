"""Random C programs (C90, as the q3vm tool chain supports it) whose behaviour
is fully defined, for comparison with another compiler.  Every value a program
computes ends in a call of out()."""

import re

KEYW = {"float", "double", "int", "unsigned", "signed", "char", "short", "long", "struct", "union", "enum"}

PRE = """/* generated */
#ifdef NATIVE
void out(int x);
#define AL4 __attribute__((aligned(4)))
#else
void out(int x);
#define AL4
#endif
"""

SUPPORT = """
extern int fuel;
extern unsigned hash;
int sdiv(int a, int b);
int smod(int a, int b);
unsigned udiv(unsigned a, unsigned b);
unsigned umod(unsigned a, unsigned b);
float fsafe(float f);
int f2i(float f);
float fdiv(float a, float b);
void chk(unsigned x);
void chkf(float f);
void outf(float f);
"""

SUPPORT_DEF = """
int fuel = 300;
unsigned hash = 1;
int sdiv(int a, int b) { if (b == 0 || (b == -1 && a + 2147483647 == -1)) return a; return a / b; }
int smod(int a, int b) { if (b == 0 || (b == -1 && a + 2147483647 == -1)) return a; return a % b; }
unsigned udiv(unsigned a, unsigned b) { if (b == 0) return a; return a / b; }
unsigned umod(unsigned a, unsigned b) { if (b == 0) return a; return a % b; }
float fsafe(float f) { if (f > -1000000.0f && f < 1000000.0f) return f; return 1.5f; }
int f2i(float f) { if (f > -2000000000.0f && f < 2000000000.0f) return (int)f; return 7; }
float fdiv(float a, float b) { if (b > 0.01f || b < -0.01f) return a / b; return a; }
void chk(unsigned x) { hash = (hash << 5) + (hash >> 27) + x * 2654435761u + 1u; }
void chkf(float f) { chk(*(unsigned *)&f); }
void outf(float f) { out(*(int *)&f); }
"""

INTS = [("char", 8, 1), ("signed char", 8, 1), ("unsigned char", 8, 0), ("short", 16, 1), ("unsigned short", 16, 0),
        ("int", 32, 1), ("unsigned int", 32, 0), ("long", 32, 1), ("unsigned long", 32, 0)]
INTT = {n: (w, s) for n, w, s in INTS}
WEIGHT = [3, 1, 3, 3, 3, 12, 7, 2, 2]
EDGE = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536,
        0x7ffffffe, 0x7fffffff]
UEDGE = [0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xdeadbeef]

# precedences
P_COMMA, P_ASGN, P_COND, P_OROR, P_ANDAND, P_OR, P_XOR, P_AND, P_EQ, P_REL, P_SHIFT, P_ADD, P_MUL, P_UN, P_POST, P_PRIM = range(1, 17)


class V:
    """a variable (or member) that can be read and assigned"""
    def __init__(s, text, t, prec=P_PRIM, local=False, solo=False, const=False, kind="int", name=None):
        s.text, s.t, s.prec, s.local, s.solo, s.const, s.kind = text, t, prec, local, solo, const, kind
        s.name = name or text
        s.bits = 0

    def rd(s):
        """for reading; the promoted type of an unsigned bit-field is not clear in C90"""
        if s.bits:
            return "(int)" + s.text, P_UN
        return s.text, s.prec

    def ro(s):
        v = V(s.text, s.t, s.prec, const=True, kind=s.kind, name=s.name)
        v.bits = s.bits
        return v


class Struct:
    def __init__(s, name, union=False):
        s.name, s.union, s.m = name, union, []     # m: (name, type, array length or 0, bits or 0)
        s.tag = ("union " if union else "struct ") + name
        s.bits = s.shorts = s.floats = False


class Fn:
    pass


class Gen:
    def __init__(s, r, size=1.0, files=1):
        s.r = r
        s.size = size
        s.nfiles = files
        s.n = 0
        s.globals = []      # V
        s.arrays = []       # (name, elem type, dims, static?, initialised)
        s.structs = []
        s.svars = []        # (text, Struct)
        s.sarrays = []
        s.ptrs = []
        s.funcs = []
        s.decls = []
        s.feat = {}

    # ------------------------------------------------------------ helpers
    def name(s, p):
        s.n += 1
        return "%s%d" % (p, s.n)

    def f(s, k):
        s.feat[k] = s.feat.get(k, 0) + 1

    def inttype(s):
        return s.r.choices(INTS, WEIGHT)[0][0]

    def const(s, small=False):
        """integer constant -> (text, prec)"""
        r = s.r
        k = r.random()
        if small or k < .35:
            v = r.randrange(0, 12)
        elif k < .7:
            v = r.choice(EDGE)
        elif k < .85:
            v = r.getrandbits(r.randint(1, 31))
        else:
            v = r.choice(UEDGE)
        k = r.random()
        if v < 128 and v >= 32 and k < .3 and v not in (34, 39, 92, 63):
            s.f("char constant")
            t = "'%c'" % v if v < 127 else "'\\177'"
        elif v < 256 and k < .05:
            t = "'\\%o'" % v if k < .03 else "'\\x%x'" % v
        elif k < .3:
            t = "0x%x" % v
        elif k < .4 and v < 0x80000000:
            t = "0%o" % v
        else:
            t = "%d" % v
            if v > 0x7fffffff:
                t += "u"
        if t[0] != "'" and t[-1] != "u" and r.random() < .15:
            t += r.choice(["u", "U", "L", "l", "ul", "UL", "lu"])
        if r.random() < .15:
            return "-" + t, P_UN
        return t, P_PRIM

    def fconst(s, exact=False):
        r = s.r
        v = r.choice(["0.5", "1.0", "2.0", "0.25", "3.5", "10.0", "100.25", "1e2", ".75", "7.", "1e+3"] + ([] if exact else ["0.1", "1.5e-2", "12345.5", "0.333"]))
        if r.random() < .5:
            v += r.choice("fF")
        if r.random() < .15:
            return "-" + v, P_UN
        return v, P_PRIM

    def nonconst(s, t):
        """lcc may evaluate constant expressions in greater precision"""
        t = re.sub(r"sizeof\s*(\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)|[A-Za-z_][\w.>-]*)", " ", t)
        t = re.sub(r"'(\\.[^']*|[^'\\])'", " ", t)
        t = re.sub(r"(?<![\w])\.?[0-9](?:[eE][-+]|[\w.])*", " ", t)
        return any(x not in KEYW and x not in s.enums and not x.endswith("_NEG") for x in re.findall(r"[A-Za-z_]\w*", t))

    def wrap(s, e, need):
        t, p = e
        if p < need or s.r.random() < .12:
            return "(" + t + ")"
        return t

    def bin(s, op, prec, a, b):
        # left associative; a space keeps "- -" and "& &" apart
        x, y = s.wrap(a, prec), s.wrap(b, prec + 1)
        sp = " " if op in "+-&/*" or s.r.random() < .7 else ""
        return x + sp + op + sp + y, prec

    # ------------------------------------------------------------ expressions
    # ctx: c.reads  variables (V), c.banned names, c.seen names, c.pure
    def pick(s, c, kind):
        l = [v for v in c.vars if v.kind == kind and v.name not in c.banned]
        if not l:
            return None
        # prefer locals
        if c.localonly:
            l = [v for v in l if v.solo or v.const]
            if not l:
                return None
        v = s.r.choice(l)
        c.seen.add(v.name)
        return v

    def ix(s, c, d, n):
        """index expression in [0, n)"""
        r = s.r
        if r.random() < .3 or c.localonly and r.random() < .5:
            return str(r.randrange(n))
        loops = [v for v in c.loops if v[1] <= n and v[0] not in c.banned]
        if loops and r.random() < .7:
            v = r.choice(loops)
            c.seen.add(v[0])
            return v[0]
        e = s.iexp(c, min(d - 1, 1))
        if n & (n - 1) == 0 and r.random() < .7:
            return s.wrap(e, P_ADD) + " & %d" % (n - 1) if e[1] > P_AND else "(%s) & %d" % (e[0], n - 1)
        return "(unsigned)%s %% %d" % (s.wrap(e, P_UN), n)

    def leaf(s, c, d=0):
        r = s.r
        if r.random() < .3:
            return s.const()
        v = s.pick(c, "int")
        k = r.random()
        if not c.localonly:
            if k < .18 and c.arrs:
                a = r.choice(c.arrs)
                if not a.kind == "float":
                    return s.elem(c, a, d)
            elif k < .26 and c.iptrs:
                n, ln, t, off = r.choice(c.iptrs)
                if n not in c.banned:
                    c.seen.add(n)
                    if ln > 1:
                        i = r.randrange(ln) - off
                        s.f("pointer index")
                        return r.choice(["%s[%d]" % (n, i), "*(%s + %d)" % (n, i), "(%d)[%s]" % (i, n)]) if i else r.choice(["*" + n, "%s[0]" % n, "0[%s]" % n]), P_UN
                    return "*" + n, P_UN
            elif k < .30:
                s.f("sizeof")
                return s.sizeof(c)
            elif k < .34 and s.enums and not c.noenum:
                return r.choice(s.enums), P_PRIM
        if v is None:
            return s.const()
        return v.rd()

    def sizeof(s, c):
        r = s.r
        k = r.random()
        if k < .4:
            return "sizeof(%s)" % r.choice(["char", "short", "int", "unsigned short", "float", "double", "char *", "int (*)(int)", "long", "int[5]", "short[3]"]), P_UN
        if k < .6 and c.arrs:
            a = r.choice(c.arrs)
            return r.choice(["sizeof %s", "sizeof(%s)", "sizeof %s / sizeof %s" + "[0]" * len(a.dims)]).replace("%s", a.name), P_MUL
        if k < .8:
            l = [x for x in s.structs if not x.bits]
            if l:
                return "sizeof(%s)" % r.choice(l).tag, P_UN
        v = s.pick(c, "int")
        if v is not None and not v.bits:
            return "sizeof %s" % v.text if v.prec >= P_UN else "sizeof(%s)" % v.text, P_UN
        return "sizeof(int)", P_UN

    def elem(s, c, a, d):
        t = a.name
        c.seen.add(a.name)
        for n in a.dims:
            t += "[%s]" % s.ix(c, d, n)
        return t, P_POST

    def iexp(s, c, d):
        """integer expression"""
        r = s.r
        if d <= 0:
            return s.leaf(c)
        k = r.random()
        if k < .30:
            op, p = r.choice([("+", P_ADD), ("-", P_ADD), ("*", P_MUL)])
            return s.bin(op, p, s.iexp(c, d - 1), s.iexp(c, d - 1))
        if k < .40:
            op, p = r.choice([("&", P_AND), ("|", P_OR), ("^", P_XOR)])
            return s.bin(op, p, s.iexp(c, d - 1), s.iexp(c, d - 1))
        if k < .48:
            s.f("shift")
            op = r.choice(["<<", ">>"])
            if r.random() < .5:
                return s.bin(op, P_SHIFT, s.iexp(c, d - 1), (str(r.randrange(32)), P_PRIM))
            return s.bin(op, P_SHIFT, s.iexp(c, d - 1), ("(%s & 31)" % s.wrap(s.iexp(c, d - 1), P_AND), P_PRIM))
        if k < .56:
            s.f("division")
            op = r.choice("/%")
            q = r.random()
            a = s.iexp(c, d - 1)
            if q < .4:
                b = r.choice(["1", "2", "3", "4", "7", "8", "10", "16", "255", "256", "65536", "1000u", "2u", "8u", "3U", "0x80000000u", "-2", "-3", "-8", "1u"])
                return s.bin(op, P_MUL, a, (b, P_PRIM if b[0] != "-" else P_UN))
            if q < .6:
                return s.bin(op, P_MUL, a, ("((%s & 15) + %d)" % (s.wrap(s.iexp(c, d - 1), P_AND), r.choice([1, 2, 3, 17])), P_PRIM))
            if c.localonly:
                return a
            fn = r.choice(["sdiv", "smod", "udiv", "umod"])
            return "%s(%s, %s)" % (fn, s.wrap(a, P_ASGN), s.wrap(s.iexp(c, d - 1), P_ASGN)), P_POST
        if k < .64:
            s.f("comparison value")
            return s.cmp(c, d)
        if k < .69:
            s.f("logical value")
            op, p = r.choice([("&&", P_ANDAND), ("||", P_OROR)])
            return s.bin(op, p, s.cond(c, d - 1), s.cond(c, d - 1))
        if k < .77:
            op = r.choice(["-", "~", "!", "+"])
            e = s.wrap(s.iexp(c, d - 1), P_UN)
            return op + (" " if e[0] in "-+&" else "") + e, P_UN
        if k < .84:
            s.f("integer cast")
            return "(%s)%s" % (s.inttype(), s.wrap(s.iexp(c, d - 1), P_UN)), P_UN
        if k < .89:
            s.f("conditional expression")
            a, b = s.iexp(c, d - 1), s.iexp(c, d - 1)
            return s.wrap(s.cond(c, d - 1), P_OROR) + " ? " + s.wrap(a, P_COND) + " : " + s.wrap(b, P_COND), P_COND
        if k < .92:
            s.f("float to int")
            return s.f2i(c, d - 1)
        if k < .96 and not c.localonly:
            e = s.pcall(c, d, "int")
            if e:
                return e
        if k < .98:
            e = s.effect(c, d)
            if e:
                return e
        if k < .985 and not c.localonly:
            e = s.smember(c, d)
            if e:
                return e
        if k < .99:
            s.f("comma")
            return "(%s, %s)" % (s.wrap(s.iexp(c, d - 1), P_ASGN), s.wrap(s.iexp(c, d - 1), P_ASGN)), P_PRIM
        return s.leaf(c, d)

    def f2i(s, c, d):
        v = s.pick(c, "float")
        if v is None:
            return s.leaf(c)
        r = s.r
        k = r.random()
        if k < .3:
            return "(%s)%s" % (r.choice(["int", "long"]), s.wrap((v.text, v.prec), P_UN)), P_UN
        if k < .5 and not c.localonly:
            return "f2i(%s)" % s.fexp(c, min(d, 2))[0], P_POST
        if k < .7:
            # char and short only where the value fits
            t = r.choice(["char", "short", "unsigned char", "unsigned short"])
            return "(%s)(%s > 0.0f && %s < 100.0f ? %s : 3.5f)" % (t, v.text, v.text, v.text), P_UN
        if k < .85:
            return "(unsigned)(%s >= 0 ? %s * 4000.0f : 0)" % (v.text, v.text), P_UN
        return s.bin(r.choice(["<", ">", "==", "!=", "<=", ">="]), P_REL if 1 else 0, (v.text, v.prec), s.fexp(c, min(d, 2))) if 0 else \
            ("(%s %s %s)" % (v.text, r.choice(["<", ">", "==", "!=", "<=", ">="]), s.wrap(s.fexp(c, min(d, 2)), P_SHIFT)), P_PRIM)

    def cmp(s, c, d):
        r = s.r
        op, p = r.choice([("==", P_EQ), ("!=", P_EQ), ("<", P_REL), (">", P_REL), ("<=", P_REL), (">=", P_REL)])
        if r.random() < .2:
            s.f("float comparison")
            return s.bin(op, p, s.fexp(c, d - 1), s.fexp(c, d - 1))
        if r.random() < .08 and c.iptrs and not c.localonly:
            n, ln, t, off = r.choice(c.iptrs)
            if n not in c.banned:
                c.seen.add(n)
                s.f("pointer comparison")
                i = r.randrange(ln + 1) - off
                return s.bin(op, p, (n, P_PRIM), ("%s + %d" % (n, i), P_ADD) if i >= 0 else ("%s - %d" % (n, -i), P_ADD))
        if r.random() < .1:
            v = s.pick(c, "int")
            if v is not None:
                s.f("field against zero" if v.bits else "variable against zero")
                t = s.wrap(v.rd(), P_UN)
                return r.choice([(t + " == 0", P_EQ), (t + " != 0", P_EQ), ("0 == " + t, P_EQ), ("!" + t, P_UN), ("!!" + t, P_UN), (t + " == 0u", P_EQ)])
        a = s.iexp(c, d - 1)
        b = s.const() if r.random() < .4 else s.iexp(c, d - 1)
        if r.random() < .15:
            a, b = b, a
        return s.bin(op, p, a, b)

    def cond(s, c, d):
        r = s.r
        k = r.random()
        if d <= 0 or k < .5:
            return s.cmp(c, d)
        if k < .62:
            return s.iexp(c, d)
        if k < .7:
            return "!" + s.wrap(s.cond(c, d - 1), P_UN), P_UN
        if k < .75 and not c.localonly:
            v = s.pick(c, "float")
            if v:
                return v.text, v.prec
        op, p = r.choice([("&&", P_ANDAND), ("||", P_OROR)])
        return s.bin(op, p, s.cond(c, d - 1), s.cond(c, d - 1))

    def fexp(s, c, d):
        """float expression, magnitude bounded by depth"""
        r = s.r
        if d <= 0:
            k = r.random()
            if k < .1 and s.pick(c, "float"):
                s.f("inexact constant")
                v = s.pick(c, "float")
                return s.bin("+", P_ADD, (v.text, v.prec), s.fconst())
            if k < .3:
                return s.fconst(exact=True)
            v = s.pick(c, "float")
            if v is None:
                return s.fconst(exact=True)
            return v.text, v.prec
        k = r.random()
        if k < .4:
            op, p = r.choice([("+", P_ADD), ("-", P_ADD), ("*", P_MUL)])
            a, b = s.fexp(c, d - 1), s.fexp(c, d - 1)
            s.f("float arithmetic")
            if not s.nonconst(a[0]) and not s.nonconst(b[0]):
                return a
            return s.bin(op, p, a, b)
        if k < .5:
            q = r.choice(["2.0f", "3.0f", "0.5f", "7.0f", "-1.5f"])
            a = s.fexp(c, d - 1)
            if not s.nonconst(a[0]):
                return a
            return s.bin("/", P_MUL, a, (q, P_UN))
        if k < .58 and not c.localonly:
            return "fdiv(%s, %s)" % (s.wrap(s.fexp(c, d - 1), P_ASGN), s.wrap(s.fexp(c, d - 1), P_ASGN)), P_POST
        if k < .68:
            s.f("int to float")
            a = s.iexp(c, d - 1)
            q = r.random()
            if q < .4:
                return "(%s)(%s)" % (r.choice(["float", "double"]), "(int)" + s.wrap(a, P_UN)), P_UN
            if q < .7:
                v = s.fexp(c, 0)
                if not s.nonconst(v[0]) and not s.nonconst(a[0]):
                    return v
                o = r.choice("+-*")
                return s.bin(o, P_MUL if o == "*" else P_ADD, ("(%s & 1023)" % s.wrap(a, P_AND), P_PRIM), v)
            return "(float)(unsigned)(%s & 0x%x)" % (s.wrap(a, P_AND), r.choice([0xffffff, 0xff000000, 0x80000001 & 0xffffff00, 0x3fff])), P_UN
        if k < .75:
            e = s.wrap(s.fexp(c, d - 1), P_UN)
            return "-" + (" " if e[0] == "-" else "") + e, P_UN
        if k < .82:
            return s.wrap(s.cond(c, d - 1), P_OROR) + " ? " + s.wrap(s.fexp(c, d - 1), P_COND) + " : " + s.wrap(s.fexp(c, d - 1), P_COND), P_COND
        if k < .9 and not c.localonly:
            e = s.pcall(c, d, "float")
            if e:
                return e
        return s.fexp(c, 0)

    def effect(s, c, d):
        """a side effect on a local scalar nothing else in the expression looks at"""
        r = s.r
        l = [v for v in c.vars if v.solo and v.kind == "int" and not v.const and v.name not in c.seen and v.name not in c.banned and v.name not in c.loopnames]
        if not l or c.noeffect:
            return None
        v = r.choice(l)
        c.banned.add(v.name)
        c.seen.add(v.name)
        s.f("side effect in expression")
        k = r.random()
        if k < .6:
            return r.choice([("%s++", P_POST), ("%s--", P_POST), ("++%s", P_UN), ("--%s", P_UN)])[0] % v.text, P_UN
        op = r.choice(["=", "+=", "-=", "^=", "|=", "*=", "&="])
        return "(%s %s %s)" % (v.text, op, s.wrap(s.iexp(c, d - 1), P_ASGN)), P_PRIM

    def sval(s, c, d):
        """a structure value that is not a variable -> (text, Struct) or None"""
        r = s.r
        if not c.svars:
            return None
        a = r.choice(c.svars)
        l = [v for v in c.svars if v[1] is a[1]]
        k = r.random()
        if k < .4:
            s.f("conditional structure")
            return "(%s ? %s : %s)" % (s.wrap(s.cond(c, min(d, 2) - 1), P_OROR), a[0], r.choice(l)[0]), a[1]
        if k < .6:
            s.f("conditional structure pointer")
            return "(*(%s ? &%s : &%s))" % (s.wrap(s.cond(c, min(d, 2) - 1), P_OROR), a[0], r.choice(l)[0]), a[1]
        if k < .8:
            s.f("comma structure")
            return "(%s, %s)" % (s.wrap(s.iexp(c, 1), P_ASGN), a[0]), a[1]
        l = [fn for fn in s.funcs if fn.pure and fn.ret[0] == "struct" and s.callable(c, fn)]
        if not l:
            return None
        fn = r.choice(l)
        s.f("member of a result")
        return s.call(c, d, fn)[0], fn.ret[1]

    def smember(s, c, d):
        e = s.sval(c, d)
        if e is None:
            return None
        l = [v for v in s.members(e[0] + ".", e[1]) if v.kind == "int" and "[" not in v.text[len(e[0]):]]
        return s.r.choice(l).rd() if l else None

    def arg(s, c, d, p):
        """argument expression for parameter type p"""
        r = s.r
        if p[0] == "int":
            return s.wrap(s.iexp(c, d - 1), P_ASGN)
        if p[0] == "float":
            return "fsafe(%s)" % s.fexp(c, d - 1)[0]
        if p[0] == "struct":
            st = p[1]
            l = [v for v in c.svars if v[1] is st]
            if r.random() < .15:
                s.f("conditional structure")
                return "%s ? %s : %s" % (s.wrap(s.cond(c, 1), P_OROR), r.choice(l)[0], r.choice(l)[0])
            return r.choice(l)[0]
        if p[0] == "ptr":
            # pointer to at least p[2] elements of type p[1]
            l = [a for a in c.allarrs if a.t == p[1] and len(a.dims) == 1 and a.dims[0] >= p[2]]
            a = r.choice(l)
            o = r.randrange(a.dims[0] - p[2] + 1)
            return a.name if o == 0 else r.choice(["%s + %d", "&%s[%d]"]) % (a.name, o)
        if p[0] == "sptr":
            l = [v for v in c.svars if v[1] is p[1]]
            return "&" + r.choice(l)[0]
        raise AssertionError(p)

    def callable(s, c, fn):
        for p in fn.params:
            if p[0] in ("struct", "sptr") and not any(v[1] is p[1] for v in c.svars):
                return False
            if p[0] == "ptr" and not any(a.t == p[1] and len(a.dims) == 1 and a.dims[0] >= p[2] for a in c.allarrs):
                return False
        return True

    def call(s, c, d, fn):
        a = [s.arg(c, d, p) for p in fn.params]
        if fn.vararg:
            n = s.r.randrange(0, 5)
            a[0] = str(n)
            a += ["(int)" + s.wrap(s.iexp(c, 1), P_UN) for _ in range(n)]
        n = fn.name
        if s.r.random() < .1:
            n = "(*%s)" % n
        return "%s(%s)" % (n, ", ".join(a)), P_POST

    def pcall(s, c, d, kind):
        l = [fn for fn in s.funcs if fn.pure and fn.ret[0] == kind and s.callable(c, fn)]
        if not l:
            return None
        s.f("call in expression")
        return s.call(c, d, s.r.choice(l))

    # ------------------------------------------------------------ declarations
    def mkstruct(s):
        r = s.r
        u = r.random() < .2
        st = Struct(s.name("U" if u else "S"), u)
        st.deep = 0
        for i in range(r.randint(2, 6) if not u else r.randint(2, 4)):
            n = s.name("m")
            k = r.random()
            if u:
                # members of a union are only read as integers or characters
                if k < .25:
                    b = r.choice([r.randint(1, 31), 1, 8, 16, 32])
                    st.m.append((n, r.choice(["int", "unsigned int"]), 0, b))
                    st.bits = True
                    continue
                t = r.choice(["int", "unsigned int", "unsigned char", "char", "unsigned short", "short"])
                ln = r.choice([0, 4]) if "char" in t else 2 if "short" in t and r.random() < .5 else 0
                st.m.append((n, t, ln, 0))
                st.shorts = st.shorts or "short" in t
                continue
            if k < .06:
                # fields that fill words exactly, and one more
                left = r.choice([32, 32, 31, 33, 64])
                while left > 0:
                    b = min(left, r.choice([1, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32]))
                    st.m.append((s.name("m"), r.choice(["int", "unsigned int", "unsigned int"]), 0, b))
                    left -= b
                if r.random() < .6:
                    st.m.append((s.name("m"), r.choice(["int", "unsigned int"]), 0, r.choice([1, 1, 2, 30, 31])))
                st.bits = True
            elif k < .14:
                b = r.choice([r.randint(1, 31), r.randint(1, 31), 1, 8, 16, 31, 32])
                st.m.append((n, r.choice(["int", "unsigned int", "unsigned int"]), 0, b))
                st.bits = True
            elif k < .27:
                st.m.append((n, "float", r.choice([0, 0, 3]), 0))
                st.floats = True
            elif k < .38 and s.structs:
                l = [x for x in s.structs if x.deep < 2]
                if l:
                    x = r.choice(l)
                    st.m.append((n, x, r.choice([0, 0, 2]), 0))
                    st.deep = max(st.deep, x.deep + 1)
                    st.bits |= x.bits
                    st.shorts |= x.shorts
                    st.floats |= x.floats
            else:
                t = s.inttype()
                st.m.append((n, t, r.choice([0, 0, 0, 2, 3, 5]), 0))
                st.shorts |= "short" in t
        if not st.m:
            st.m.append((s.name("m"), "int", 0, 0))
        if st.union and not any(m[1] in ("int", "unsigned int") and not m[3] for m in st.m):
            st.m.insert(0, (s.name("m"), "int", 0, 0))
        d = "%s {\n" % st.tag
        for n, t, ln, b in st.m:
            tt = t.tag if isinstance(t, Struct) else t
            if r.random() < .07 and not isinstance(t, Struct):
                tt = "volatile " + tt
                s.volmem.add(n)
            d += "    %s %s%s%s;\n" % (tt, n, "[%d]" % ln if ln else "", " : %d" % b if b else "")
            if b and r.random() < .1:
                d += "    int : %d;\n" % r.choice([0, 3, 7])
        d += "} AL4;\n"
        s.decls.append(d)
        s.structs.append(st)

    def members(s, base, st, const=False):
        """all scalar lvalues in a struct variable"""
        r = []
        for n, t, ln, b in st.m:
            for suf in ([""] if not ln else ["[%d]" % i for i in range(ln)]):
                x = base + n + suf
                if isinstance(t, Struct):
                    r += s.members(x + ".", t)
                else:
                    v = V(x, t, P_POST, kind="float" if t == "float" else "int", name=base + "*")
                    v.bits = b
                    r.append(v)
        return r

    def init(s, t, c=None):
        """constant initialiser of a scalar"""
        r = s.r
        if t == "float":
            e = s.fconst()
            return e[0] if r.random() < .8 else "%s / 4" % e[0] if e[1] == P_PRIM else e[0]
        w, sg = INTT[t]
        k = r.random()
        if k < .7:
            v = r.getrandbits(r.randint(1, w))
            if sg and v >= 1 << (w - 1):
                v -= 1 << w
            if v == -0x80000000:
                v += 1
            return "%d%s" % (v, "u" if v > 0x7fffffff else "")
        if k < .8:
            return "%d + %d * %d" % (r.randrange(10), r.randrange(10), r.randrange(5))
        if k < .85:
            return "(%d << %d) | %d" % (r.randrange(7), r.randrange(4), r.randrange(8))
        if k < .9:
            return "'%c'" % r.choice("abcXYZ019 +")
        if k < .95:
            return "sizeof(int) * %d" % r.randrange(1, 20)
        return "%d > %d ? %d : %d" % (r.randrange(5), r.randrange(5), r.randrange(100), r.randrange(100))

    def sinit(s, st, braces=True):
        r = s.r
        if r.random() < (.4 if st.bits or st.union else .2):
            s.f("flat initialiser")
            l = s.flat(st)
            # a struct in the middle can end early only if braces say so
            if r.random() < .3:
                l = l[:r.randint(1, len(l))]
            return "{ %s%s }" % (", ".join(l), r.choice(["", "", ","]))
        if st.union:
            n, t, ln, b = st.m[0]
            if ln:
                return "{ { %s } }" % ", ".join(s.init(t) for _ in range(ln))
            if b:
                return "{ %s }" % (r.getrandbits(b - 1) if b > 1 else 0)
            return "{ %s }" % s.init(t)
        l = []
        for n, t, ln, b in st.m:
            if isinstance(t, Struct):
                x = s.sinit(t) if not ln else "{ " + ", ".join(s.sinit(t) for _ in range(ln)) + " }"
            elif ln:
                k = r.randint(1, ln)
                x = "{ " + ", ".join(s.init(t) for _ in range(k)) + (", " if r.random() < .1 else " ") + "}"
            elif b:
                x = str(r.getrandbits(b - 1) if b > 1 else 0)
            else:
                x = s.init(t)
            l.append(x)
        if r.random() < .15:
            l = l[:r.randint(1, len(l))]
        return "{ " + ", ".join(l) + " }"

    # ------------------------------------------------------------ statements
    def lval(s, c, d):
        """(text, kind) of something to assign to"""
        r = s.r
        k = r.random()
        if k < .2 and c.arrs:
            a = r.choice(c.arrs)
            if not a.const:
                return s.elem(c, a, d)[0], "float" if a.t == "float" else "int"
        if k < .3 and c.iptrs:
            p = [x for x in c.iptrs if not x[2].startswith("const") and x[0] not in c.banned]
            if p:
                n, ln, t, off = r.choice(p)
                i = r.randrange(ln) - off
                return "%s[%d]" % (n, i) if r.random() < .5 else "*(%s + %d)" % (n, i), "float" if t == "float" else "int"
        if k < .38 and c.sptrs:
            n, st = r.choice(c.sptrs)
            m = s.members(n + "->", st)
            v = r.choice(m)
            return v.text, v.kind
        l = [v for v in c.vars if not v.const and v.name not in c.loopnames]
        if not l:
            return None, None
        v = r.choice(l)
        return v.text, v.kind

    def newctx(s, c):
        c.banned, c.seen = set(), set()
        c.localonly = c.noeffect = False

    def simple(s, c, d, ind):
        """expression statement"""
        r = s.r
        s.newctx(c)
        k = r.random()
        if k < .55:
            lv, kind = s.lval(c, d)
            if lv:
                # the index must not be changed by the right side
                c.noeffect = "[" in lv or "*" in lv or "->" in lv
                root = lv.split(".")[0]
                c.banned.add(root) if r.random() < 0 else None
                seenlv = lv
                if kind == "float":
                    q = r.random()
                    if q < .2:
                        s.f("float compound assignment")
                        return "%s = fsafe(%s);" % (lv, s.fexp(c, 2)[0]) if r.random() < .5 else "%s *= 0.5f; %s %s %s; %s = fsafe(%s);" % (lv, lv, r.choice(["+=", "-="]), s.fexp(c, 0)[0], lv, lv) if "(" not in lv else "%s = 2.5;" % lv
                    return "%s = fsafe(%s);" % (lv, s.fexp(c, r.choice([1, 2, 2, 3]))[0])
                c.seen.add(lv)
                c.banned.add(lv)
                q = r.random()
                if q < .5:
                    c.banned.discard(lv)
                    c.noeffect = c.noeffect or False
                    # v = v++ + 1 is not defined: no side effects on v in its own assignment
                    c.seen.add(lv)
                    return "%s = %s;" % (lv, s.wrap(s.iexp(c, d), P_ASGN))
                if q < .8:
                    s.f("compound assignment")
                    op = r.choice(["+=", "-=", "*=", "&=", "|=", "^="])
                    c.banned.discard(lv)
                    return "%s %s %s;" % (lv, op, s.wrap(s.iexp(c, d - 1), P_ASGN))
                if q < .86:
                    return "%s %s %d;" % (lv, r.choice(["<<=", ">>="]), r.randrange(8))
                if q < .92:
                    return "%s %s %d;" % (lv, r.choice(["/=", "%="]), r.choice([1, 2, 3, 5, 7, 8, 16, 100]))
                s.f("increment")
                return r.choice(["%s++;", "%s--;", "++%s;", "--%s;"]) % (lv if "*" not in lv[:1] else "(" + lv + ")")
        if k < .7:
            fns = [fn for fn in s.funcs if s.callable(c, fn)]
            if fns:
                fn = r.choice(fns)
                s.f("call statement")
                c.noeffect = True
                e = s.call(c, 2, fn)[0]
                if fn.ret[0] == "void":
                    return e + ";"
                if fn.ret[0] == "struct":
                    l = [v for v in c.svars if v[1] is fn.ret[1] and not v[0].startswith("(*")]
                    if l:
                        s.f("struct result")
                        return "%s = %s;" % (r.choice(l)[0], e)
                    return e + ";"
                q = r.random()
                if q < .25:
                    s.f("unused result")
                    return r.choice(["", "(void)"]) + e + ";"
                l = [v for v in c.vars if v.kind == fn.ret[0] and not v.const and v.name not in c.loopnames and (v.solo or "[" not in v.text and "->" not in v.text and "*" not in v.text)]
                if l and q < .8:
                    v = r.choice(l)
                    if fn.ret[0] == "float":
                        return "%s = %s;" % (v.text, e)
                    return "%s = %s;" % (v.text, e)
                return ("chk(%s);" if fn.ret[0] == "int" else "chkf(%s);") % e
        if k < .78 and c.svars:
            # structure copy
            v = r.choice(c.svars)
            l = [x for x in c.svars if x[1] is v[1] and x[0] != v[0]]
            if l:
                w = r.choice(l)
                # two different names may be the same object only if they are identical: exact overlap is allowed
                s.f("struct assignment")
                return "%s = %s;" % (v[0], w[0])
        if k < .84 and s.fptrs and s.ftable and not c.purefn:
            s.f("call through pointer")
            n, m = s.r.choice(s.ftable)
            a = s.wrap(s.iexp(c, 2), P_ASGN)
            b = s.wrap(s.iexp(c, 2), P_ASGN)
            c.noeffect = True
            return "chk(%s[%s](%s, %s));" % (n, s.ix(c, 1, m), a, b)
        if k < .92:
            return "chk(%s);" % s.wrap(s.iexp(c, d), P_ASGN)
        return "chkf(fsafe(%s));" % s.fexp(c, 2)[0]

    def block(s, c, n, depth, ind):
        out = []
        for _ in range(n):
            out += s.stmt(c, depth, ind)
        return out

    def body(s, c, depth, ind):
        return s.block(c, s.r.randint(1, 3), depth, ind)

    def stmt(s, c, depth, ind):
        r = s.r
        t = "    " * ind
        if c.budget <= 0:
            return [t + s.simple(c, 2, ind)]
        c.budget -= 1
        k = r.random()
        if depth <= 0 or k < .5:
            return [t + s.simple(c, r.choice([1, 2, 2, 3, 3, 4]), ind)]
        if k < .65:
            s.f("if")
            s.newctx(c)
            l = [t + "if (%s) {" % s.cond(c, 3)[0]]
            l += s.body(c, depth - 1, ind + 1)
            if r.random() < .5:
                if r.random() < .3:
                    s.newctx(c)
                    l.append(t + "} else if (%s) {" % s.cond(c, 2)[0])
                    l += s.body(c, depth - 1, ind + 1)
                l.append(t + "} else {")
                l += s.body(c, depth - 1, ind + 1)
            return l + [t + "}"]
        if k < .8 and c.loopdepth < 3:
            n = r.choice([1, 2, 3, 4, 5, 8]) if c.loopdepth < 2 else r.choice([1, 2, 3])
            if not c.freeloops:
                return [t + s.simple(c, 3, ind)]
            v = c.freeloops.pop()
            c.loopdepth += 1
            c.loops.append((v, n))
            c.loopnames.add(v)
            q = r.random()
            s.f("loop")
            c.inloop.append("loop")
            if q < .5:
                l = [t + r.choice(["for (%s = 0; %s < %d; %s++) {", "for (%s = 0; %s != %d; ++%s) {", "for (%s = 0; %s <= %d - 1; %s += 1) {"]) % (v, v, n, v)]
                l += s.body(c, depth - 1, ind + 1)
                l.append(t + "}")
            elif q < .65:
                l = [t + "for (%s = %d; %s >= 0; %s--) {" % (v, n - 1, v, v)]
                l += s.body(c, depth - 1, ind + 1)
                l.append(t + "}")
            elif q < .8:
                l = [t + "%s = %d;" % (v, n), t + "while (%s-- > 0) {" % v]
                l += s.body(c, depth - 1, ind + 1)
                l.append(t + "}")
            else:
                l = [t + "%s = -1;" % v, t + "do {", t + "    %s++;" % v]
                l += s.body(c, depth - 1, ind + 1)
                l.append(t + "} while (%s < %d);" % (v, n - 1))
            c.inloop.pop()
            c.loops.pop()
            c.loopnames.discard(v)
            c.freeloops.append(v)
            c.loopdepth -= 1
            return l
        if k < .89:
            return s.switch(c, depth, ind)
        if k < .93 and c.inloop:
            s.newctx(c)
            w = r.choice(["break;", "continue;"] if c.inloop[-1] == "loop" else ["break;"])
            s.f(w)
            return [t + "if (%s)" % s.cond(c, 2)[0], t + "    " + w]
        if k < .96:
            # forward goto
            s.f("goto")
            n = s.name("L")
            s.newctx(c)
            l = [t + "if (%s) goto %s;" % (s.cond(c, 2)[0], n)]
            l += s.body(c, 0, ind)
            return l + [t + "%s:" % n, t + s.simple(c, 1, ind)]
        if r.random() < .5:
            return s.alias(c, t)
        # a block with its own variable
        n = s.name("b")
        ty = s.inttype()
        s.newctx(c)
        l = [t + "{", t + "    %s%s %s = %s;" % (r.choice(["", "", "register "]), ty, n, s.wrap(s.iexp(c, 2), P_ASGN))]
        v = V(n, ty, local=True, solo=True)
        c.vars.append(v)
        l += s.body(c, depth - 1, ind + 1)
        c.vars.remove(v)
        return l + [t + "    chk(%s);" % n, t + "}"]

    def alias(s, c, t):
        """straight line code in which objects are reached in several ways"""
        r = s.r
        s.f("alias block")
        ty = r.choice(["int", "int", "unsigned int", "short", "unsigned short", "char", "unsigned char", "float"])
        n = [s.name("z") for _ in range(8)]
        x, y, ar, p, q, u, w, cp = n
        decl = ["%s %s = %d, %s = %d, %s[4], *%s, *%s;" % (ty, x, r.randrange(100), y, r.randrange(100), ar, p, q),
                "%s %s = 0, %s = 0;" % (r.choice(["int", "int", "unsigned int"]) if ty != "float" else "float", u, w)]
        objs = [x, y] + ["%s[%d]" % (ar, i) for i in range(4)]
        st = [v for v in c.svars if not v[0].startswith("(*")] if not c.purefn and ty == "int" else []
        if st:
            v = r.choice(st)
            m = [e.text for e in s.members(v[0] + ".", v[1]) if e.t == ty and not e.bits and e.text.split(".")[-1].split("[")[0] not in s.volmem]
            objs += m[:3]
        g = [v.text for v in s.globals if v.t == ty and not v.vol and not c.purefn]
        objs += g[:2]
        body = ["%s[%d] = %d;" % (ar, i, r.randrange(50)) for i in range(4)]
        tgt = r.sample(objs, min(len(objs), 4))

        def addr():
            a, b = r.choice(tgt), r.choice(tgt)
            k = r.random()
            if k < .6:
                return "&" + a
            if k < .8:
                return "%s > %d ? &%s : &%s" % (r.choice(objs[:2]), r.randrange(60), a, b)
            return "%s + %d" % (ar, r.randrange(4))
        body += ["%s = %s;" % (p, addr()), "%s = %s;" % (q, addr())]
        if ty != "float":
            decl.append("unsigned char *%s;" % cp)
            body.append("%s = (unsigned char *)%s;" % (cp, r.choice([p, q, "&" + x, ar])))
        rd = tgt + ["*" + p, "*" + q, "*" + p, "*" + q, x, y] + ["%s[%d & 3]" % (ar, r.randrange(4)), "%s[%s & 3]" % (ar, "(int)" + x)]
        wr = tgt + ["*" + p, "*" + q, "*" + p, x, y, "%s[%s & 3]" % (ar, "(int)" + y)]
        if ty != "float":
            rd += ["*" + cp, cp + "[0]"]
            wr += ["*" + cp]
        for _ in range(r.randint(5, 14)):
            k = r.random()
            a, b, d = r.choice(wr), r.choice(rd), r.choice(rd)
            if k < .25:
                body.append("%s = %s;" % (a, b))
            elif k < .35:
                body.append("%s = %s;" % (a, r.randrange(100)))
            elif k < .5:
                body.append("%s = %s %s %s;" % (r.choice([a, u, w]), b, r.choice("+-" if ty == "float" else "+-&|^"), d))
            elif k < .75:
                o = r.choice([u, w])
                if ty == "float":
                    body.append("%s = %s + %s * 2.0f; %s = %s > 100000.0f || %s < -100000.0f ? 1.0f : %s;" % (o, b, d, o, o, o, o))
                else:
                    body.append("%s = (unsigned)%s * 3u + %s;" % (o, o, b))
            elif k < .85 and ty != "float":
                body.append("%s %s %s;" % (a, r.choice(["^=", "|=", "&=", "+="]), b))
            elif k < .92:
                body.append("%s = %s;" % (r.choice([p, q]), addr()))
            else:
                body.append("if (%s > %s) %s = %s;" % (b, d, a, r.choice(rd)))
        f = "f" if ty == "float" else ""
        chk = ["chk%s(%s);" % (f, v) for v in [u, w] + objs]
        if ty == "float":
            # keep values in range
            for v in set(objs) - {x, y} - {o for o in objs if o.startswith(ar)}:
                chk.append("%s = fsafe(%s);" % (v, v))
        if c.purefn:
            chk = []
        else:
            chk = [v for v in chk]
        return [t + "{"] + [t + "    " + v for v in decl + body + chk] + [t + "}"]

    def switch(s, c, depth, ind):
        r = s.r
        t = "    " * ind
        s.newctx(c)
        k = r.random()
        if k < .4:
            n = r.randint(2, 12)
            base = r.choice([0, 0, 0, 1, -3, 100, -8, 0x7ffffff0, 30000])
            vals = [base + i for i in range(n) if r.random() < .9]
            s.f("dense switch")
            e = "(%s & 15) + %d" % (s.wrap(s.iexp(c, 2), P_AND), base) if base >= 0 else "(int)(%s & 15) - %d" % (s.wrap(s.iexp(c, 2), P_AND), -base)
        elif k < .7:
            vals = sorted({r.choice([r.randrange(-50, 50), r.choice([0, 1, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, -1, -128, -32768, -0x7fffffff]), r.randrange(0, 9)]) for _ in range(r.randint(2, 12))})
            s.f("sparse switch")
            e = "(int)" + s.wrap(s.iexp(c, 2), P_UN) if r.random() < .5 else "(int)(%s & 7) - 2" % s.wrap(s.iexp(c, 2), P_AND)
        else:
            # clusters of dense ranges
            vals = set()
            for _ in range(r.randint(2, 3)):
                b = r.choice([0, 10, 40, 200, -20, 1000])
                vals |= {b + i for i in range(r.randint(3, 8))}
            vals = sorted(vals)
            s.f("clustered switch")
            e = "%s %% %d" % (s.wrap(s.iexp(c, 2), P_MUL), r.choice([12, 50, 256, 1100]))
            e = "(int)(%s)" % e
        if not vals:
            vals = [0]
        suf = ""
        if r.random() < .2:
            k = r.choice(["unsigned", "char", "uchar", "ulong"])
            s.f("switch on " + k)
            if k == "unsigned" or k == "ulong":
                b = r.choice([0, 0x7ffffffc, 0x80000000, 0xfffffff0, 0])
                vals = sorted({b + r.randrange(12) for _ in range(r.randint(2, 9))})
                e = "(unsigned%s)(%s & 15) + %du" % (" long" if k == "ulong" else "", s.wrap(s.iexp(c, 2), P_AND), b - r.choice([0, 0, 2]) & 0xffffffff)
                suf = "u"
            else:
                b = r.choice([0, 0, 100, -20]) if k == "char" else r.choice([0, 0, 100, 240])
                vals = sorted({b + r.randrange(14) for _ in range(r.randint(2, 9))})
                e = "(%s char)((%s & 15) + %d)" % ("signed" if k == "char" else "unsigned", s.wrap(s.iexp(c, 2), P_AND), b - r.choice([0, 0, 2]))
        r.shuffle(vals)
        l = [t + "switch (%s) {" % e]
        groups = []
        while vals:
            g = r.choice([1, 1, 1, 2, 3])
            groups.append(vals[:g])
            vals = vals[g:]
        if r.random() < .75:
            groups.insert(r.randint(0, len(groups)), None)
        c.inloop.append("switch")
        for i, g in enumerate(groups):
            if g is None:
                l.append(t + "default:")
            else:
                for v in g:
                    tt = "%d" % v + suf
                    if 32 < v < 127 and r.random() < .2 and v not in (39, 92):
                        tt = "'%c'" % v
                    elif v >= 0 and r.random() < .1:
                        tt = "%d%s + %d" % (v - v // 2, suf, v // 2)
                    l.append(t + "case %s:" % tt)
            l += s.block(c, 1, depth - 1 if len(groups) < 5 else 0, ind + 1)
            if r.random() < .75:
                l.append(t + "    break;")
            else:
                s.f("fall through")
        c.inloop.pop()
        return l + [t + "}"]

    # ------------------------------------------------------------ functions
    def gctx(s):
        class C:
            pass
        c = C()
        c.vars = list(s.globals)
        c.arrs = [a for a in s.arrays if a.t != "float"]
        c.allarrs = list(s.arrays)
        c.svars = list(s.svars)
        c.iptrs = []
        c.sptrs = []
        c.loops, c.loopnames, c.freeloops, c.inloop = [], set(), [], []
        c.loopdepth = 0
        c.noenum = False
        c.purefn = False
        c.budget = int(14 * s.size)
        for n, st in s.svars:
            c.vars += s.r.sample(s.members(n + ".", st), min(4, len(s.members(n + ".", st))))
        s.newctx(c)
        return c

    def function(s, pure):
        r = s.r
        fn = Fn()
        fn.name = s.name("fn")
        fn.pure = pure
        fn.vararg = False
        k = r.random()
        fn.ret = ("int", s.inttype()) if k < .65 else ("float",) if k < .8 else ("void",) if k < .9 or not s.structs or pure else ("struct", r.choice(s.structs))
        if pure and fn.ret[0] == "void":
            fn.ret = ("int", "int")
        fn.params = []
        c = s.gctx()
        c.purefn = pure
        if pure:
            # reads globals, writes only its own variables
            for v in c.vars:
                pass
            c.vars = [v.ro() for v in c.vars]
            arrs = c.arrs
            c.arrs = [a.ro() for a in arrs]
            c.svars = []
        knr = r.random() < .1
        if r.random() < .06 and not pure:
            fn.vararg = True
            knr = False
            fn.ret = ("int", "int")
        for i in range(1 if fn.vararg else r.randint(0, 5)):
            k = r.random()
            if k < .6 or fn.vararg or knr:
                t = "int" if fn.vararg else s.inttype()
                fn.params.append(("int", t))
            elif k < .75:
                fn.params.append(("float",))
            elif k < .82 and s.structs:
                fn.params.append(("struct", r.choice(s.structs)))
            elif k < .9 and s.structs:
                fn.params.append(("sptr", r.choice(s.structs)))
            elif s.arrays:
                l = [a for a in s.arrays if len(a.dims) == 1]
                if l:
                    a = r.choice(l)
                    fn.params.append(("ptr", a.t, r.randint(1, a.dims[0])))
        pl, kl = [], []
        for p in fn.params:
            n = s.name("p")
            if p[0] == "int":
                pl.append("%s %s" % (p[1], n))
                if not fn.vararg:
                    c.vars.append(V(n, p[1], local=True, solo=True))
            elif p[0] == "float":
                pl.append("%s %s" % (r.choice(["float", "double"]), n))
                c.vars.append(V(n, "float", local=True, kind="float"))
            elif p[0] == "struct":
                pl.append("%s %s" % (p[1].tag, n))
                c.svars.append((n, p[1]))
                c.vars += [x for x in s.members(n + ".", p[1])][:6]
            elif p[0] == "sptr":
                pl.append("%s%s *%s" % ("const " if pure else "", p[1].tag, n))
                if not pure:
                    c.sptrs.append((n, p[1]))
                    c.svars.append(("(*%s)" % n, p[1]))
                for x in s.members(n + "->", p[1])[:6]:
                    x.const = pure
                    c.vars.append(x)
            else:
                pl.append(("%s%s *%s" if r.random() < .7 else "%s%s %s[]") % ("const " if pure else "", p[1], n))
                if p[1] != "float":
                    c.iptrs.append((n, p[2], ("const " if pure else "") + p[1], 0))
                elif not pure:
                    for i in range(min(p[2], 3)):
                        c.vars.append(V("%s[%d]" % (n, i), "float", P_POST, kind="float"))
            kl.append(n)
        if knr and pl:
            s.f("K&R definition")
        rt = {"int": lambda: fn.ret[1], "float": lambda: "float", "void": lambda: "void", "struct": lambda: fn.ret[1].tag}[fn.ret[0]]()
        if knr and pl:
            head = "%s %s(%s)\n%s" % (rt, fn.name, ", ".join(kl), "".join("    %s;\n" % p for p in pl))
            fn.proto = "%s %s();" % (rt, fn.name)
            # a call without prototype passes promoted values: make them fit
        else:
            ps = ", ".join(pl) or "void"
            if fn.vararg:
                ps += ", ..."
                s.f("variable arguments")
            head = "%s %s(%s)\n" % (rt, fn.name, ps)
            fn.proto = head.strip() + ";"
        l = []
        # locals
        for i in range(r.randint(1, 5)):
            n = s.name("v")
            ty = s.inttype()
            s.newctx(c)
            l.append("    %s%s %s = %s;" % (r.choice(["", "", "", "register ", "volatile "]), ty, n, s.wrap(s.iexp(c, 1), P_ASGN)))
            c.vars.append(V(n, ty, local=True, solo=True))
        for i in range(r.randint(0, 2)):
            n = s.name("d")
            s.newctx(c)
            l.append("    %s %s = %s;" % (r.choice(["float", "float", "double"]), n, "fsafe(%s)" % s.fexp(c, 1)[0]))
            c.vars.append(V(n, "float", local=True, kind="float"))
        fill = []
        if r.random() < .4:
            a = s.mkarray(local=True)
            st = "static " if r.random() < .2 and not pure else ""
            init = s.ainit(a) if r.random() < .6 and "short" not in a.t else None
            l.append("    %s%s %s%s%s;" % (st, a.t, a.name, "".join("[%d]" % x for x in a.dims), " = " + init if init else ""))
            if not init and not st:
                fill.append(a)
            if a.t != "float":
                c.arrs.append(a)
            c.allarrs.append(a)
        if r.random() < .35 and s.structs:
            x = r.choice(s.structs)
            n = s.name("sv")
            if x.shorts or r.random() < .4:
                src = [v for v in c.svars if v[1] is x]
                if src:
                    l.append("    %s %s = %s;" % (x.tag, n, r.choice(src)[0]))
                    c.svars.append((n, x))
                    c.vars += s.members(n + ".", x)[:6]
            else:
                l.append("    %s %s = %s;" % (x.tag, n, s.sinit(x)))
                s.f("local aggregate initialiser")
                c.svars.append((n, x))
                c.vars += s.members(n + ".", x)[:6]
        if r.random() < .4:
            al = [a for a in c.allarrs if len(a.dims) == 1 and a.t != "float" and (not pure or a in s.arrays)]
            if al:
                a = r.choice(al)
                o = r.randrange(a.dims[0])
                n = s.name("q")
                ro = pure or a.const
                l.append("    %s%s *%s = %s;" % ("const " if ro else "", a.t, n, r.choice(["%s + %d", "&%s[%d]"]) % (a.name, o)))
                c.iptrs.append((n, a.dims[0], ("const " if ro else "") + a.t, o))
        if r.random() < .2 and not pure:
            n = s.name("st")
            ty = s.inttype()
            if "short" in ty:
                ty = "int"
            l.append("    static %s %s = %s;" % (ty, n, s.init(ty)))
            c.vars.append(V(n, ty, local=True, solo=True))
            s.f("static local")
        if r.random() < .4 and c.vars:
            # the address of a local: not solo any more
            lv = [v for v in c.vars if v.local and v.kind == "int" and "[" not in v.text and "." not in v.text and v.solo]
            if lv:
                v = r.choice(lv)
                if not any(x.startswith("    register") and (" " + v.text + " ") in x for x in l) and not any(x.startswith("    volatile") and (" " + v.text + " ") in x for x in l):
                    v.solo = False
                    n = s.name("a")
                    l.append("    %s *%s = &%s;" % (v.t, n, v.text))
                    c.iptrs.append((n, 1, v.t, 0))
                    s.f("address of local")
        for i in range(3):
            n = s.name("i")
            l.append("    int %s = 0;" % n)
            c.freeloops.append(n)
        if fn.vararg:
            l.append("    int *va = &%s;" % kl[0])
            l.append("    int vn;")
            pre = ["    for (vn = 1; vn <= %s; vn++) chk(va[vn]);" % kl[0]]
            fn.params[0] = ("int", "int")
            c.vars = [v for v in c.vars if v.text != kl[0]]
        else:
            pre = []
        for a in fill:
            # row major
            n = 1
            for x in a.dims:
                n *= x
            pre.append("    for (%s = 0; %s < %d; %s++) (%s%s)[%s] = %s * %d;" % (c.freeloops[0], c.freeloops[0], n, c.freeloops[0], "&" if len(a.dims) > 1 else "", a.name + "[0]" * (len(a.dims)) if len(a.dims) > 1 else a.name, c.freeloops[0], c.freeloops[0], r.randrange(1, 99)))
        rv = None
        if fn.ret[0] == "int":
            s.newctx(c)
            early = "return %s;" % s.const()[0]
        elif fn.ret[0] == "float":
            early = "return 0.5f;"
        elif fn.ret[0] == "struct":
            l.append("    %s rv;" % fn.ret[1].tag)
            src = [v for v in s.svars if v[1] is fn.ret[1]]
            pre.insert(0, "    rv = %s;" % src[0][0])
            early = "return rv;"
            rv = "rv"
        else:
            early = "return;"
        if not pure:
            if fn.ret[0] == "struct":
                pre.append("    if (--fuel < 0) " + early)
            else:
                pre.insert(0, "    if (--fuel < 0) " + early)
        if rv:
            c.svars.append((rv, fn.ret[1]))
            c.vars += s.members("rv.", fn.ret[1])[:6]
        save_chk = pure
        if pure:
            c.budget = 3
        b = s.block(c, r.randint(1, 3) if pure else r.randint(3, 7), 1 if pure else 3, 1) if not pure else s.pureblock(c)
        s.newctx(c)
        if fn.ret[0] == "int":
            b.append("    return %s;" % s.wrap(s.iexp(c, 3), P_COMMA))
        elif fn.ret[0] == "float":
            b.append("    return fsafe(%s);" % s.fexp(c, 2)[0])
        elif fn.ret[0] == "struct":
            b.append("    return rv;")
        fn.text = head + "{\n" + "\n".join(l + pre + b) + "\n}\n"
        fn.knr = knr and bool(pl)
        if fn.knr:
            # int arguments of promoted type only
            fn.params = [("int", t) for _, t in fn.params]
        s.funcs.append(fn)
        return fn

    def pureblock(s, c):
        """statements that change only variables of the function"""
        r = s.r
        out = []
        lv = [v for v in c.vars if v.local and not v.const and v.kind == "int"]
        for _ in range(r.randint(0, 3)):
            if not lv:
                break
            v = r.choice(lv)
            s.newctx(c)
            c.seen.add(v.name)
            if r.random() < .5:
                out.append("    %s %s %s;" % (v.text, r.choice(["=", "+=", "^=", "-="]), s.wrap(s.iexp(c, 2), P_ASGN)))
            elif r.random() < .5:
                c.banned.add(v.name)
                e = s.cond(c, 2)[0]
                out.append("    if (%s) %s %s %s;" % (e, v.text, r.choice(["=", "+=", "|="]), s.const()[0]))
            elif c.freeloops:
                i = c.freeloops[-1]
                c.banned.add(v.name)
                out.append("    for (%s = 0; %s < %d; %s++) %s += %s;" % (i, i, r.randint(1, 6), i, v.text, s.wrap(s.iexp(c, 2), P_ASGN)))
        return out

    # ------------------------------------------------------------ globals
    class Arr:
        const = False

        def ro(self):
            a = Gen.Arr()
            a.__dict__.update(self.__dict__)
            a.const = True
            return a

    def mkarray(s, local=False):
        r = s.r
        a = Gen.Arr()
        a.name = s.name("la" if local else "ga")
        a.t = "float" if r.random() < .12 else s.inttype()
        a.kind = "float" if a.t == "float" else "int"
        k = r.random()
        a.dims = [r.choice([1, 2, 3, 4, 5, 7, 8, 16])] if k < .7 else [r.choice([2, 3, 4]), r.choice([2, 3, 4, 5])] if k < .93 else [2, 3, 2]
        if r.random() < .02 and not local:
            a.dims = [300]
        return a

    def string(s, n):
        """a string literal of n characters"""
        r = s.r
        out = []
        for i in range(n):
            k = r.random()
            v = r.choice([0, 1, 7, 8, 31, 63, 64, 127, 128, 129, 200, 254, 255, r.randrange(256)])
            if k < .15:
                out.append("\\%03o" % v)
            elif k < .25:
                out.append("\\%o" % v + ('" "' if v < 64 else ""))
            elif k < .35:
                out.append("\\x%x" % v + r.choice(['" "', '""', '"\n"']))
            else:
                out.append(r.choice(["a", "Z", "0", "7", "8", " ", "\\n", "\\t", "\\\\", '\\"', "\\a", "\\b", "\\f", "\\r", "\\v", "\\'", "?", "'", "/*", "//"][:17]))
            if r.random() < .05:
                out.append(r.choice(['" "', '""', '"\n    "']))
        return '"' + "".join(out) + '"'

    def flat(s, t, ln=0, nob=False):
        """initialiser of an object without (some) inner braces: list of values;
        nob: must not start with a brace (it would belong to an outer object)"""
        r = s.r
        if ln:
            l = []
            for i in range(ln):
                l += s.part(t, 0, nob if isinstance(t, Struct) or i == 0 else False) if i == 0 else s.part(t, 0, False)
            return l
        if isinstance(t, Struct):
            if t.union:
                n, tt, k, b = t.m[0]
                if b:
                    return [str(r.getrandbits(b - 1) if b > 1 else 0)]
                return s.part(tt, k, nob)
            l = []
            for i, (n, tt, k, b) in enumerate(t.m):
                if b:
                    x = str(r.getrandbits(b - 1) if b > 1 else 0)
                    l.append("{ %s }" % x if r.random() < .05 and not (nob and i == 0) else x)
                else:
                    l += s.part(tt, k, nob and i == 0)
            return l
        x = s.init(t)
        return ["{ %s }" % x if r.random() < .05 and not nob else x]

    def part(s, t, ln, nob):
        """a member or element, with or without braces of its own"""
        r = s.r
        if not (ln or isinstance(t, Struct)):
            return s.flat(t, 0, nob)
        if not nob and r.random() < .3:
            x = s.flat(t, ln, False)
            return ["{ %s%s }" % (", ".join(x[:r.randint(1, len(x))]), r.choice(["", "", ","]))]
        return s.flat(t, ln, True)

    def ainit(s, a):
        r = s.r

        def lev(d):
            n = d[0]
            if r.random() < .2:
                n = r.randint(1, n)
            if len(d) == 1:
                return "{ " + ", ".join(s.init(a.t) for _ in range(n)) + " }"
            return "{ " + ", ".join(lev(d[1:]) for _ in range(n)) + " }"
        if len(a.dims) == 1 and a.t in ("char", "unsigned char", "signed char") and a.dims[0] > 2 and r.random() < .5:
            s.f("string initialiser")
            return s.string(r.randint(0, a.dims[0]))
        if len(a.dims) == 2 and r.random() < .2:
            # without inner braces
            s.f("flat initialiser")
            n = a.dims[0] * a.dims[1]
            return "{ " + ", ".join(s.init(a.t) for _ in range(r.randint(1, n))) + " }"
        return lev(a.dims)

    def objects(s):
        """a program of structs, unions and arrays of them, initialised in all places"""
        r = s.r
        s.enums = []
        s.volmem = set()
        s.ftable = []
        s.fptrs = False
        while len(s.structs) < 9 or all(x.shorts for x in s.structs):
            s.mkstruct()
        l = [x for x in s.structs if not x.shorts]
        out, fns, main = [], [], []
        dump = lambda b, st: ["chk%s(%s);" % ("f" if v.kind == "float" else "", v.text) for v in s.members(b, st)] + ["out(hash);"]
        for i in range(30):
            st = r.choice(l)
            n = s.name("o")
            k = r.randrange(6)
            if k < 2:
                t, d = "%s %s = %s;" % (st.tag, n, s.sinit(st)), dump(n + ".", st)
            elif k == 2:
                ln = r.randint(1, 3)
                x = [s.sinit(st) for _ in range(r.randint(1, ln))]
                t, d = "%s %s[%s] = { %s };" % (st.tag, n, ln if r.random() < .5 or len(x) < ln else "", ", ".join(x)), sum((dump("%s[%d]." % (n, j), st) for j in range(ln)), [])
            elif k == 3:
                ln = r.randint(1, 3)
                x = sum((s.part(st, 0, False) for j in range(ln)), [])
                if r.random() < .4:
                    x = x[:r.randint(1, len(x))]
                t, d = "%s %s[%d] = { %s };" % (st.tag, n, ln, ", ".join(x)), sum((dump("%s[%d]." % (n, j), st) for j in range(ln)), [])
            else:
                # several objects in another one
                m = [(s.name("m"), r.choice(l + ["int", "char", "unsigned char", "float"]), r.choice([0, 0, 2])) for _ in range(r.randint(1, 4))]
                x = sum((s.part(tt, ln, False) for _, tt, ln in m), [])
                if r.random() < .3:
                    x = x[:r.randint(1, len(x))]
                t = "struct { %s } %s = { %s%s };" % (" ".join("%s %s%s;" % (tt.tag if isinstance(tt, Struct) else tt, mm, "[%d]" % ln if ln else "") for mm, tt, ln in m), n, ", ".join(x), r.choice(["", ","]))
                d = []
                for mm, tt, ln in m:
                    for suf in ([""] if not ln else ["[%d]" % j for j in range(ln)]):
                        d += dump(n + "." + mm + suf + ".", tt) if isinstance(tt, Struct) else ["chk%s(%s.%s%s);" % ("f" if tt == "float" else "", n, mm, suf)]
                d.append("out(hash);")
            w = r.random()
            if w < .6:
                out.append(r.choice(["", "static "]) + t)
                main += d
            else:
                f = s.name("f")
                fns.append("void %s(void)\n{\n    %s%s\n    %s\n}\n" % (f, r.choice(["", "static ", "static ", "const "]), t, "\n    ".join(d)))
                main.append(f + "();")
        r.shuffle(main) if r.random() < .3 else None
        head = PRE + "".join(s.decls) + SUPPORT + "int vmMain(int command, int arg0);\nvoid run(void);\n"
        m = "int vmMain(int command, int arg0)\n{\n    run();\n    return (int)hash;\n}\n"
        return [("a.c", head + m + "\n".join(out) + "\n" + "".join(fns) + "void run(void)\n{\n    " + "\n    ".join(main) + "\n}\n" + SUPPORT_DEF)]

    def program(s):
        """-> list of (file name, text)"""
        r = s.r
        s.enums = []
        s.volmem = set()
        s.ftable = []
        s.fptrs = False
        g = []          # (declaration, definition, dump statements)
        if r.random() < .5:
            n = s.name("E")
            names = [s.name("EN") for _ in range(r.randint(2, 6))]
            s.decls.append("enum %s { %s_NEG = -1, %s };\n" % (n, n, ", ".join(x + (" = %d" % r.choice([0, 5, -7, 100, 1 << 20]) if r.random() < .3 else "") for x in names)))
            s.enums = names
            gn = s.name("ge")
            g.append(("extern enum %s %s;" % (n, gn), "enum %s %s = %s;" % (n, gn, names[0]), ["out((int)%s);" % gn]))
        for _ in range(r.randint(0, 3)):
            s.mkstruct()
        for _ in range(r.randint(3, 9)):
            n = s.name("g")
            t = s.inttype() if r.random() < .8 else "float"
            init = r.random() < .6 and "short" not in t
            q = r.choice(["", "", "", "volatile "])
            g.append(("extern %s%s %s;" % (q, t, n), "%s%s %s%s;" % (q, t, n, " = " + s.init(t) if init else ""), ["out%s(%s);" % ("f" if t == "float" else "", n)]))
            s.globals.append(V(n, t, kind="float" if t == "float" else "int"))
            s.globals[-1].vol = bool(q)
        for _ in range(r.randint(1, 4)):
            a = s.mkarray()
            init = r.random() < .6 and "short" not in a.t
            dims = "".join("[%d]" % x for x in a.dims)
            ddims = dims
            if init and r.random() < .2 and len(a.dims) == 1:
                # size from the initialiser
                s.f("array of unknown size")
                ddims = "[]"
                iv = "{ " + ", ".join(s.init(a.t) for _ in range(a.dims[0])) + " }"
            else:
                iv = s.ainit(a) if init else None
            cnt = 1
            for x in a.dims:
                cnt *= x
            ap = a.name if len(a.dims) == 1 else "(&%s%s)" % (a.name, "[0]" * len(a.dims))
            g.append(("extern %s %s%s;" % (a.t, a.name, dims), "%s %s%s%s;" % (a.t, a.name, ddims if iv else dims, " = " + iv if iv else ""),
                      ["for (i = 0; i < %d; i++) chk%s(%s[i]);" % (cnt, "f" if a.t == "float" else "", ap), "out(hash);"]))
            s.arrays.append(a)
        for st in s.structs:
            for _ in range(r.randint(1, 3)):
                n = s.name("gs")
                init = not st.shorts and r.random() < .7
                g.append(("extern %s %s;" % (st.tag, n), "%s %s%s;" % (st.tag, n, " = " + s.sinit(st) if init else ""),
                          ["chk%s(%s);" % ("f" if v.kind == "float" else "", v.text) for v in s.members(n + ".", st)] + ["out(hash);"]))
                s.svars.append((n, st))
            if r.random() < .4:
                n = s.name("gsa")
                ln = r.randint(2, 4)
                init = not st.shorts and r.random() < .7
                d = []
                for i in range(ln):
                    s.svars.append(("%s[%d]" % (n, i), st))
                    d += ["chk%s(%s);" % ("f" if v.kind == "float" else "", v.text) for v in s.members("%s[%d]." % (n, i), st)]
                g.append(("extern %s %s[%d];" % (st.tag, n, ln), "%s %s[%d]%s;" % (st.tag, n, ln, " = { " + ", ".join(s.sinit(st) for _ in range(r.randint(1, ln))) + " }" if init else ""), d + ["out(hash);"]))
        # pointers to globals
        strs = ["alpha", "", "a\\tb", "0123456789", "x"]
        if r.random() < .5:
            n = s.name("gp")
            l = [r.choice(strs) for _ in range(r.randint(2, 4))]
            s.f("string table")
            g.append(("extern char *%s[%d];" % (n, len(l)), "char *%s[%d] = { %s };" % (n, len(l), ", ".join('"%s"' % x for x in l)),
                      ["for (i = 0; i < %d; i++) { char *x = %s[i]; while (*x) chk(*x++); }" % (len(l), n), "out(hash);"]))
        one = [a for a in s.arrays if len(a.dims) == 1]
        if one and r.random() < .5:
            a = r.choice(one)
            n = s.name("gq")
            o = r.randrange(a.dims[0])
            s.f("address initialiser")
            g.append(("extern %s *%s;" % (a.t, n), "extern %s %s[%d]; %s *%s = %s;" % (a.t, a.name, a.dims[0], a.t, n, r.choice(["&%s[%d]", "%s + %d"]) % (a.name, o)), ["chk%s(*%s);" % ("f" if a.t == "float" else "", n), "out(%s - %s);" % (n, a.name)]))
        # functions for a table
        tab = []
        for _ in range(r.choice([0, 2, 3, 4])):
            fn = Fn()
            fn.name = s.name("tf")
            c = s.gctx()
            c.vars = [v.ro() for v in c.vars] + [V("x", "int", local=True, solo=True), V("y", "int", local=True, solo=True)]
            c.svars = []
            fn.text = "int %s(int x, int y)\n{\n    return %s;\n}\n" % (fn.name, s.iexp(c, 3)[0])
            fn.proto = "int %s(int x, int y);" % fn.name
            tab.append(fn)
        if tab:
            n = s.name("ft")
            s.fptrs = True
            s.ftable.append((n, len(tab)))
            g.append(("extern int (*%s[%d])(int, int);" % (n, len(tab)), "int (*%s[%d])(int, int) = { %s };" % (n, len(tab), ", ".join(r.choice(["", "&"]) + x.name for x in tab)), []))
        for i in range(max(2, int(r.randint(3, 7) * s.size))):
            s.function(pure=r.random() < .35 and i < 4)
        # main
        c = s.gctx()
        m = ["int vmMain(int command, int arg0)", "{", "    int i;"]
        for i in range(3):
            n = s.name("i")
            m.append("    int %s = 0;" % n)
            c.freeloops.append(n)
        m.append("    i = 0;")
        for fn in s.funcs:
            for _ in range(r.choice([1, 1, 2])):
                s.newctx(c)
                c.noeffect = True
                if not s.callable(c, fn):
                    continue
                e = s.call(c, 2, fn)[0]
                m.append("    fuel = %d;" % r.choice([5, 20, 60]))
                if fn.ret[0] == "int":
                    m.append("    out(%s);" % e)
                elif fn.ret[0] == "float":
                    m.append("    outf(%s);" % e)
                else:
                    m.append("    %s;" % e)
                m.append("    out(hash);")
        for d in g:
            m += ["    " + x for x in d[2]]
        m += ["    return (int)hash;", "}", ""]
        main = "\n".join(m)
        head = PRE + "".join(s.decls) + "\n".join(d[0] for d in g) + "\n" + "\n".join(f.proto for f in tab + s.funcs) + "\n" + SUPPORT
        defs = [d[1] for d in g]
        fns = [f.text for f in tab + s.funcs]
        if s.nfiles == 1:
            # definitions first, sometimes behind the functions
            body = "\n".join(defs) + "\n" + "\n".join(fns)
            # vmMain is the first function
            return [("a.c", head + "int vmMain(int command, int arg0);\n" + main + "\n" + body + SUPPORT_DEF)]
        parts = [[] for _ in range(s.nfiles)]
        for x in defs + fns:
            r.choice(parts).append(x)
        files = []
        for i, p in enumerate(parts):
            t = head + (main if i == 0 else "") + "\n" + "\n".join(p) + (SUPPORT_DEF if i == s.nfiles - 1 else "")
            files.append(("%s.c" % "abcdef"[i], t))
        return files
