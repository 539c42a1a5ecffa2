"""Initializers: objects of random types (nested structures, arrays, unions,
bit-fields with gaps, character arrays, pointers), initialized in part, with or
without inner braces, with trailing commas, at file scope, static in a block or
automatic. Every member is read back; gcc says what it must be."""

PRE = """
extern void out(int);
int ai[6] = { 10, 11, 12, 13, 14, 15 };
char ac[5] = "pqrs";
int f0(void) { return 100; }
int f1(void) { return 101; }
typedef int (*FP)(void);
union { int i; float f; } u_;
void of(float x) { u_.f = x; out(u_.i); }
void op(const int *p) { out(p ? p - ai : -1); }
void oc(const char *p) { out(p ? *p * 256 + p[1 - !*p] : -1); }
void og(FP p) { out(p ? p() : -1); }
"""


class T:
    def __init__(self, k, **a):
        self.k = k
        self.__dict__.update(a)


SC = ["int", "unsigned", "char", "signed char", "unsigned char", "float", "int *", "char *", "fp", "enum"]


def scalar(r):
    return T("s", t=r.choice(SC + ["int", "char", "unsigned char"]))


def typ(r, d, top=False):
    k = r.random()
    if d <= 0 or (k < .3 and not top):
        return scalar(r)
    if k < .5:
        n = r.choice([1, 2, 2, 3, 4, 5])
        if r.random() < .35:
            return T("a", e=T("s", t=r.choice(["char", "char", "unsigned char"])), n=r.choice([1, 2, 3, 4, 5, 7, 8]), open=False)
        return T("a", e=typ(r, d - 1), n=n, open=False)
    if k < .6:
        return T("u", m=[typ(r, d - 1) if r.random() < .8 else T("b", s=r.random() < .5, w=r.randrange(1, 33)) for _ in range(r.randrange(1, 4))])
    m = []
    bits = r.random() < .5
    for _ in range(r.randrange(1, 6)):
        if bits and r.random() < .7:
            for _ in range(r.randrange(1, 5)):
                x = r.random()
                if x < .2:
                    m.append(T("g", s=r.random() < .5, w=r.choice([0, 1, 3, 8, 12, 20])))
                else:
                    m.append(T("b", s=r.random() < .5, w=r.choice([1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32])))
        else:
            m.append(typ(r, d - 1))
    if all(x.k == "g" for x in m):
        m.append(scalar(r))
    return T("t", m=m)


class Init:
    def __init__(s, r):
        s.r = r
        s.n = 0
        s.top = []

    def decl(s, t, name):
        """-> declarator text of a member or object"""
        if t.k == "s":
            if t.t == "fp":
                return "FP %s" % name
            if t.t == "enum":
                return "enum EE %s" % name
            return "%s %s" % (t.t, name)
        if t.k == "a":
            return s.decl(t.e, "%s[%s]" % (name, "" if t.open else t.n))
        if t.k == "b":
            return "%s %s : %d" % ("int" if t.s else "unsigned", name, t.w)
        if t.k == "g":
            return "%s : %d" % ("int" if t.s else "unsigned", t.w)
        return "%s %s" % (s.tag(t), name)

    def uid(s):
        s.n += 1
        return s.n

    def tag(s, t):
        if not hasattr(t, "tag"):
            body = " ".join(s.decl(m, "m%d" % i) + ";" for i, m in enumerate(t.m))
            t.tag = "%s Z%d" % ("union" if t.k == "u" else "struct", s.uid())
            s.top.append("%s { %s };\n" % (t.tag, body))
        return t.tag

    # ---- values
    def value(s, t):
        r = s.r
        if t.k == "b":
            lo, hi = (-(1 << t.w - 1), (1 << t.w - 1) - 1) if t.s else (0, (1 << t.w) - 1)
            v = r.choice([0, lo, hi, r.randint(lo, hi), min(1, hi)])
            return "%du" % v if v > 0x7fffffff else "%d" % v if v > -0x80000000 else "-2147483647 - 1"
        x = t.t
        if x == "float":
            return r.choice(["1.5f", "-2.25f", "3", "-7", "'a'", "0", "1e3f", "2.0", "100 / 8"])
        if x == "int *":
            return r.choice(["ai", "&ai[3]", "ai + 2", "0", "&ai[1] + 1", "(int *)0", "&*(ai + 4)"])
        if x == "char *":
            return r.choice(['"ab"', '"x" "yz"', "ac", "ac + 1", "&ac[2]", "0", '"hello" + 1', '""'])
        if x == "fp":
            return r.choice(["f0", "&f1", "0", "f1", "*f0"][:4])
        if x == "enum":
            return r.choice(["EA", "EB", "EC", "0"])
        return r.choice(["0", "1", "-1", "5", "'a'", "'\\377'", "100", "3 * 4", "sizeof(int)", "1 ? 2 : 3", "65535", "-129", "EB + 1", "~0", "!5", "(char)300", "0x7fffffff", "2.0f > 1", "(int)2.9f", "1 << 4 | 3", "2147483647 + 0"])

    def string(s, t):
        """a string that fits"""
        r = s.r
        n = r.choice([t.n, t.n - 1, r.randrange(t.n + 1)]) if not t.open else r.randrange(6)
        n = max(0, n)
        q = "".join(r.choice(["a", "b", "z", "\\0", "\\n", "\\377", "\\x41", "0", '\\"']) for _ in range(n))
        if "\\x41" in q:
            q = q.replace("\\x41", '\\x41" "')
        q = '"' + q + '"'
        if t.open:
            t.n = n + 1
        return q

    def ischars(s, t):
        return t.k == "a" and t.e.k == "s" and "char" in t.e.t and "*" not in t.e.t

    def members(s, t):
        if t.k == "u":
            return t.m[:1]
        if t.k == "a":
            return [t.e] * t.n
        return [m for m in t.m if m.k != "g"]

    def braced(s, t, full=False):
        """{ ... }"""
        r = s.r
        if t.k in "sb":
            return "{ " + s.value(t) + (" ," if r.random() < .3 else "") + " }"
        if s.ischars(t) and r.random() < .5:
            return "{ " + s.string(t) + (", " if r.random() < .3 else "") + "}"
        x, stop = s.list(s.members(t), True, False, full)
        return "{ " + ", ".join(x) + (", }" if r.random() < .25 else " }")

    def list(s, ms, canstop, nobrace, full=False):
        """initializers of the members -> texts, whether they ended early"""
        r = s.r
        out = []
        ps = r.choice([0, .1, .3]) if canstop and not full else 0
        for i, m in enumerate(ms):
            if i and r.random() < ps:
                return out, True
            if m.k in "sb":
                if r.random() < .06 and not (nobrace and i == 0):
                    out.append(s.braced(m))
                else:
                    out.append(s.value(m))
                continue
            if s.ischars(m) and r.random() < .5:
                out.append(s.string(m))
                continue
            if r.random() < .5 and not (nobrace and i == 0):
                out.append(s.braced(m))
                continue
            # without braces: to its end, or to the end of all
            x, stop = s.list(s.members(m), canstop and not full, True)
            out += x
            if stop:
                return out, True
        return out, False

    # ---- reading
    def reads(s, t, p, o):
        if t.k == "s":
            o.append({"float": "of(%s);", "int *": "op(%s);", "char *": "oc(%s);", "fp": "og(%s);"}.get(t.t, "out(%s);") % p)
        elif t.k == "b":
            o.append("out(%s);" % p)
        elif t.k == "a":
            for i in range(t.n):
                s.reads(t.e, "%s[%d]" % (p, i), o)
        elif t.k == "u":
            s.reads(t.m[0], p + ".m0", o)
        elif t.k == "t":
            for i, m in enumerate(t.m):
                if m.k != "g":
                    s.reads(m, "%s.m%d" % (p, i), o)

    def item(s, k):
        """-> file scope text, body of a function"""
        r = s.r
        for _ in range(50):
            t = typ(r, r.choice([1, 2, 2, 3, 3]), True)
            o = []
            s.reads(t, "o%d" % k, o)
            if t.k != "s" and len(o) < 60:
                break
        else:
            t = T("a", e=T("s", t="int"), n=2, open=False)
        opened = t.k == "a" and r.random() < .4
        if opened:
            t.open = True
        full = opened and not s.ischars(t)
        if s.ischars(t) and r.random() < .6:
            x = s.string(t)
        elif full:
            # the number of elements is that of the initializers
            x = s.braced(t, True)
        else:
            if s.ischars(t):
                t.open = opened = False
            x = s.braced(t)
        d = "%s = %s;\n" % (s.decl(t, "o%d" % k), x)
        o = []
        s.reads(t, "o%d" % k, o)
        if opened:
            o.append("out(sizeof o%d / sizeof o%d[0]);" % (k, k))
        w = r.random()
        g = "".join(s.top)
        s.top = []
        cons = r.choice(["", "", "const ", ""])
        if w < .5:
            return g + r.choice(["", "static "]) + cons + d, " ".join(o)
        if w < .7:
            return g, "static " + cons + d + " ".join(o)
        n = r.randrange(3)
        return g, "int before[2]; %s%s int after; before[0] = %d; after = %d; { %s } out(before[0] + after);" % (cons, d, n, n * 7, " ".join(o))


def items(r, n):
    s = Init(r)
    return [s.item(k) for k in range(n)]


def program(r, its):
    o = [PRE, "enum EE { EA, EB = 7, EC };\n"]
    main = "void t%d(void);\n"
    head = "".join(main % i for i in range(len(its)))
    head += "int vmMain(int command, int arg0)\n{\n" + "".join("    t%d();\n" % i for i in range(len(its))) + "    return 0;\n}\n"
    return head + "".join(o) + "".join("%svoid t%d(void) { %s }\n" % (g, i, b) for i, (g, b) in enumerate(its))
