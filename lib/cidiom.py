"""Small systematic programs: each item is a function with one construct of C
whose operands have effects or special values (identities, loops with constant
bounds, values of assignments, conditions, pointer arithmetic, structures by
value). The state of all objects is printed behind every item."""

PRE = """
extern void out(int);
int n, vi, vj, ai[8], a2[3][4], *pi;
unsigned vu, au[8], *pu, hash;
short vs; unsigned short vus; char vc, ac[8]; unsigned char vuc;
float vf, vg, af[4];
struct B { int a : 3, b : 5; unsigned c : 7, d : 17; int e : 32; } bf, *pb;
struct S { int m; char k; float f; struct { int x, y[3]; } in; struct B bf; } s1, s2, as[3], *ps;
union U { int i; unsigned u; float f; char c[4]; } un;
"""
POST = """
void chk(int x) { hash = hash * 31 + x; }
void chkf(float x) { union U u; u.f = x; chk(x == x ? u.i : 1); }
void chks(struct S s) { chk(s.m); chk(s.k); chkf(s.f); chk(s.in.x); chk(s.in.y[0]); chk(s.in.y[1]); chk(s.in.y[2]); chk(s.bf.a); chk(s.bf.b); chk(s.bf.c); chk(s.bf.d); chk(s.bf.e); }
int fi(void) { n++; return vi; }
unsigned fu(void) { n += 2; return vu; }
float ff(void) { n += 3; return vf; }
char fc(void) { n += 4; return vc; }
short fsh(void) { n += 5; return vs; }
int *fp(void) { n += 6; return pi; }
struct S fst(void) { n += 7; return s1; }
struct S *fps(void) { n += 8; return ps; }
int f2(int a, int b) { n += a - b; return a * 3 + b; }
int fv(int a, struct S s, float f, unsigned char c) { n += a; return s.m + (int)f + c; }
struct S fss(struct S s, int d) { s.m += d; s.in.y[1] -= d; s.bf.a = d; return s; }
int rec(int d) { int a[3]; a[0] = d; a[1] = d > 0 ? rec(d - 1) : 7; return a[0] + a[1] * 2; }
char rc(int x) { return x; }
unsigned char ruc(int x) { return x; }
short rs(unsigned x) { return x; }
unsigned short rus(char x) { return x; }
unsigned ru(char x) { return x; }
int rif(float x) { return x; }
float rf(int x) { return x; }
char rcf(float x) { return x; }
int rb(int x) { bf.a = x; return bf.a; }
int *rp(int *p, char i) { return p + i; }
int pm(char c, unsigned char uc, short s, unsigned short us, float f, int i) { chk(c); chk(uc); chk(s); chk(us); chkf(f); chk(i); c++; uc += 200; s *= 3; us--; f += i & 7; chkf(f); return c + uc + s + us; }
int kc(c, uc, s, us, f, p) char c; unsigned char uc; short s; unsigned short us; float f; int *p; { chk(c); chk(uc); chk(s); chk(us); chkf(f); chk(p - ai); c--; uc <<= 1; s = -s; us += 3; return c * 5 + uc + s + us + *p; }
int ka(a, b, c) int a[], b, (*c)(); { return a[b & 3] + c(b, 2); }
int va(int a, ...) { int *p = &a + 1, s = 0, i; for (i = 0; i < (a & 3); i++) s = s * 3 + p[i]; return s; }
int many(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) { return a + b * 2 + c * 3 + d * 5 + e * 7 + f * 11 + g * 13 + h * 17 + i * 19 + j * 23; }
int apply(int (*f)(int, int), int a, int b) { return f(a, b) - (*f)(b, a); }
int (*pick(int k))(int, int) { return k ? f2 : 0; }
void reset(int k) {
    int i;
    n = 100; vi = k; vj = k / 3 - 5; vu = (unsigned)k * 3u; vs = (short)(k * 5); vus = (unsigned short)(k * 7); vc = (char)k; vuc = (unsigned char)(k * 3);
    vf = (float)(k % 1000) + 0.5f; vg = (float)(k % 77) - 12.25f;
    for (i = 0; i < 8; i++) { ai[i] = k % 1000 + i * i; au[i] = (unsigned)k + i; ac[i] = (char)(k + i); }
    for (i = 0; i < 12; i++) a2[i / 4][i % 4] = k % 100 + i * 3;
    for (i = 0; i < 4; i++) af[i] = (float)(k % 100) * 0.25f + (float)i;
    pi = ai + 3; pu = au + 3; pb = &bf; ps = &as[1];
    bf.a = k; bf.b = k >> 2; bf.c = k; bf.d = k * 9; bf.e = -k;
    s1.m = k; s1.k = (char)(k + 1); s1.f = vf; s1.in.x = k % 9; s1.in.y[0] = 1; s1.in.y[1] = k % 5; s1.in.y[2] = 3; s1.bf = bf;
    s2 = s1; s2.m++; as[0] = s1; as[1] = s2; as[2] = s1; as[2].m = 77;
    un.i = k;
}
void state(void) {
    int i;
    chk(n); chk(vi); chk(vj); chk(vu); chk(vs); chk(vus); chk(vc); chk(vuc); chkf(vf); chkf(vg);
    for (i = 0; i < 8; i++) { chk(ai[i]); chk(au[i]); chk(ac[i]); }
    for (i = 0; i < 12; i++) chk(a2[i / 4][i % 4]);
    for (i = 0; i < 4; i++) chkf(af[i]);
    chk(pi - ai); chk(pu - au); chk(pb == &bf); chk(ps - as);
    chk(bf.a); chk(bf.b); chk(bf.c); chk(bf.d); chk(bf.e); chks(s1); chks(s2); chks(as[0]); chks(as[1]); chks(as[2]); chk(un.i);
}
"""
PROTO = """
void chk(int x); void chkf(float x); void chks(struct S s); int fi(void); unsigned fu(void); float ff(void); char fc(void); short fsh(void); int *fp(void);
struct S fst(void); struct S *fps(void); int f2(int a, int b); int fv(int a, struct S s, float f, unsigned char c); struct S fss(struct S s, int d); int rec(int d); void reset(int k); void state(void);
char rc(int x); unsigned char ruc(int x); short rs(unsigned x); unsigned short rus(char x); unsigned ru(char x); int rif(float x); float rf(int x); char rcf(float x); int rb(int x); int *rp(int *p, char i);
int pm(char c, unsigned char uc, short s, unsigned short us, float f, int i); int kc(); int ka(); int va(int a, ...); int many(int, int, int, int, int, int, int, int, int, int); int apply(int (*f)(int, int), int a, int b); int (*pick(int k))(int, int);
enum { EA, EB = 5, EC, ED = -2, EE };
typedef int T; typedef struct S ST; typedef int A3[3]; typedef int (*FN)(int, int);
"""

INT_E = ["fi()", "vi++", "++vi", "vi--", "--vi", "(vi = %K)", "(vj, vi)", "(vi += 3)", "*pi++", "*--pi", "ai[n++ & 7]", "bf.b", "bf.b++", "(bf.b = %K)", "(n++, vi)", "fc()", "vc++", "(vc = %K)", "vs--", "fsh()", "(vus += 5)",
         "vi", "vc", "vuc", "ai[2]", "s1.m", "ps->in.y[1]", "*pi", "fst().m", "fps()->m", "fps()->in.x", "(vi & 1 ? vj : fi())", "-vi", "~vi", "-fi()", "~fi()", "!fi()", "(int)vf", "(vi > 3)", "(fi(), 9)", "(char)fi()", "(short)vi", "(int)fu()", "(unsigned char)fi()",
         "(vi + 1)", "(vi - 1)", "(vi * 3)", "(fi() + 2)", "(fi() - 2)", "(3 - fi())", "un.i", "pb->a", "a2[1][2]", "a2[n++ & 1][vi & 3]", "(vi || n++)", "(vi && n++)"]
UNS_E = ["fu()", "vu++", "++vu", "vu--", "(vu = %Ku)", "(vi, vu)", "(vu -= 7)", "*pu++", "au[n++ & 7]", "bf.e", "(unsigned)fi()", "(n++, vu)", "vu", "au[3]", "un.u", "(unsigned)vc", "~vu", "-vu", "(vu + 1)", "(vu >> 3)", "(fu() & 255)", "sizeof (vi)", "(vu ? vu : fu())", "(unsigned)vf"]
FLT_E = ["ff()", "(vf = %K.5f)", "(vf += 1.5f)", "vf", "(vi++, vf)", "*(af + 1)", "s1.f", "(float)fi()", "-vf", "fst().f", "af[n++ & 3]", "(vi ? vf : vg)", "vf++", "--vf"]
ICON = ["0", "1", "(-1)", "2", "3", "4", "7", "8", "10", "255", "256", "(-2)", "(-8)", "65536", "1073741824", "2147483647", "(-2147483647 - 1)", "0u", "1u", "'a'"]
UCON = ["0u", "1u", "2u", "3u", "8u", "4294967295u", "2147483648u", "2147483647u", "0", "1", "10", "(-1)", "256", "65535u"]
FCON = ["0.0f", "1.0f", "2.0f", "-1.0f", "0.5f", "-0.0f", "3"]
BINOPS = "+ - * / % & | ^ << >> < > <= >= == != && ||".split()
KS = [0, 1, 2, 3, -1, -7, 5, 13, 100, 127, 128, 255, 256, 1000, -1000, 65535, 32768, 12345678, -12345678, 2147483647, -2147483647]
SMALL = [0, 1, 2, 3, -1, -7, 5, 13, 100, 127, -100, 77]


def sub(r, e):
    return e.replace("%K", str(r.choice([0, 1, 3, 7, 21, 100, 200, 300])))


def use(r, e, flt=False):
    """the expression in some context"""
    if flt:
        return r.choice(["chkf(%s);", "vg = %s;", "%s;", "af[0] = %s;", "{ float l = %s; chkf(l); }"]) % e
    return r.choice(["chk(%s);"] * 5 + ["%s;", "(void)(%s);", "if (%s) chk(1); else chk(2);", "if (!(%s)) chk(1); else chk(2);", "chk(!(%s));", "chk(!!(%s));", "chk((%s) ? 5 : 6);", "chk((char)(%s));", "chk((%s) + 1);", "chk(-(%s));",
                     "chk(~(%s));", "vs = (%s);", "vuc = %s;", "ai[5] = %s;", "{ int l = %s; chk(l); }", "{ unsigned l = %s; chk(l); }", "chk((%s) && vj);", "chk((%s) || n);", "chk(f2(%s, 2));", "chk(ai[(%s) & 7]);", "while (%s) { chk(3); break; }",
                     "for (; %s; ) { chk(4); break; }", "chk((%s, 3));", "switch (%s) { case 0: chk(10); break; case 1: chk(11); case -1: chk(12); break; default: chk(13); }", "vf = (float)((%s) & 1023);", "chk((%s) == 1);", "chk((%s) != 0);", "bf.b = %s;", "chk(bf.c = %s);"]) % e


def identity(r, op=None, con=None, uns=None, right=None):
    """an operation with a special constant"""
    q = r.random() if op is None else 0
    if q > .9:
        a, b = sub(r, r.choice(FLT_E)), r.choice(FCON)
        o = r.choice("+ - * / < > <= >= == !=".split())
        if o == "/":
            b = r.choice(["1.0f", "2.0f", "0.5f", "-4.0f"])
        e = "%s %s %s" % ((a, o, b) if r.random() < .6 or o == "/" else (b, o, a))
        return use(r, e, o in "+-*/")
    uns = r.random() < .4 if uns is None else uns
    op = op or r.choice(BINOPS)
    a = sub(r, r.choice(UNS_E if uns else INT_E))
    con = con or r.choice(UCON if uns else ICON)
    right = r.random() < .6 if right is None else right
    if op in "/%":
        if right:
            if con in ("0", "0u"):
                con = "1"
            if con == "(-1)" and not uns:
                a = "(%s & 65535)" % a
        else:
            a = "((%s & 255) + 1)" % a
    if op in ("<<", ">>"):
        if right:
            con = r.choice(["0", "1", "5", "31", "16", "0u", "24"])
        else:
            a = "(%s & 31)" % a
    return use(r, "%s %s %s" % ((a, op, con) if right else (con, op, a)))


def nested(r):
    """two operations with constants, as the identities of the compiler look for"""
    uns = r.random() < .4
    l = UNS_E if uns else INT_E
    c = (["0u", "1u", "2u", "3u", "5u", "8u", "15u", "100u"] if uns else ["0", "1", "2", "3", "5", "8", "15", "(-1)", "(-3)", "100"])
    o = lambda: r.choice("+ - * & | ^ + - *".split())
    a = sub(r, r.choice(l))
    e = "(%s %s %s)" % ((a, o(), r.choice(c)) if r.random() < .6 else (r.choice(c), o(), a))
    for _ in range(r.choice([1, 1, 2])):
        e = "(%s %s %s)" % ((e, o(), r.choice(c)) if r.random() < .6 else (r.choice(c), o(), e))
    return use(r, e)


LV = [("vi", 0), ("vu", 0), ("vs", 0), ("vus", 0), ("vc", 0), ("vuc", 0), ("ai[2]", 0), ("*pi", 0), ("bf.a", 0), ("bf.b", 0), ("bf.c", 0), ("bf.d", 0), ("bf.e", 0), ("pb->a", 0), ("ps->bf.c", 0), ("ps->k", 0), ("s1.in.y[1]", 0), ("as[2].bf.b", 0), ("un.i", 0), ("un.c[1]", 0),
      ("ac[3]", 0), ("a2[1][2]", 0), ("fps()->m", 0), ("fps()->bf.b", 0), ("*fp()", 0), ("ai[n++ & 7]", 0), ("vf", 1), ("af[1]", 1), ("s1.f", 1), ("*pi++", 0), ("(n++, pb)->d", 0), ("(vi ? &s1 : &s2)->k", 0), ("as[1].in.y[vi & 1]", 0)]
CONSTS = ["0", "1", "-1", "2", "3", "4", "7", "-3", "-4", "-5", "8", "15", "16", "21", "31", "32", "-16", "-17", "63", "64", "127", "128", "129", "255", "256", "-128", "-129", "300", "32767", "32768", "65535", "65536", "131071", "131072", "2147483647", "0x80000000", "0xffffffffu", "'\\377'", "1.5f", "-2.75f", "100.0f"]


def assign(r, lv=None, con=None):
    """the value of an assignment"""
    lv, flt = lv or r.choice(LV)
    k = r.random()
    if con or k < .35:
        op, v = "=", con or r.choice(CONSTS)
    elif k < .5:
        op, v = "=", r.choice(["vi", "vu", "vc", "vuc", "vs", "vus", "(int)vf", "fi()", "bf.c", "bf.b", "vi * 3", "-vi", "~vu", "vi > 2", "!vi", "ps->m"])
        if flt:
            v = r.choice(["vg", "(float)vi", "ff()", "vi & 255", "bf.b", "vc"])
    elif k < .75:
        op = r.choice(["+=", "-=", "*="] if flt else ["+=", "-=", "*=", "&=", "|=", "^=", "/=", "%=", "<<=", ">>="])
        v = r.choice(["1.5f", "2", "0", "-1"]) if flt else r.choice(["1", "3", "7"]) if op in ("/=", "%=", "<<=", ">>=") else r.choice(["0", "1", "-1", "2", "5", "vj", "vc", "vuc", "bf.a", "1000", "255"])
    else:
        e = r.choice(["%s++", "%s--", "++%s", "--%s"]) % ("(" + lv + ")" if "*" in lv else lv)
        return use(r, e, flt)
    if "." in v and v.endswith("f") and not flt:
        if "u" in lv or ".c" in lv or ".d" in lv:
            v = "2.5f"
        elif lv in ("bf.a", "pb->a"):
            v = "1.5f"
    e = "(%s %s %s)" % (lv, op, v)
    if r.random() < .25:
        l2, f2 = r.choice(LV[:7] if "pi++" in lv else LV[:10])
        e = "(%s = %s)" % (l2, e) if not flt else e
    return use(r, e, flt)


def loop(r, first=None):
    """loops whose bounds are constants: not at all, once, several times"""
    t = r.choice(["int", "int", "unsigned", "char", "short", "unsigned char", "float", "int *", "register int", "volatile int"])
    v = "l"
    a, b = first or (r.choice([0, 1, 3, 5, 10, -3]), r.choice([0, 1, 3, 5, 10, -3]))
    if "unsigned" in t or t == "int *":
        a, b = abs(a), abs(b)
    up = r.random() < .6
    op = r.choice(["<", "<=", "!=", ">", ">=", "=="])
    st = r.choice(["%s++", "++%s", "%s += 1", "%s += 2", "%s = %s + 1"] if up else ["%s--", "--%s", "%s -= 1", "%s = %s - 1"])
    st = st.replace("%s", v)
    A, B = ("%d.0f" % a, "%d.0f" % b) if t == "float" else ("ai + %d" % a, "ai + %d" % b) if t == "int *" else (str(a), str(b))
    if t == "int *" and r.random() < .5:
        A, B = "&ai[%d]" % a, "&ai[%d]" % b
    if t.startswith("unsigned") and r.random() < .5:
        A, B = A + "u", B + "u"
    g = r.random()
    cond = "%s %s %s" % ((v, op, B) if g < .8 else (B, op, v))
    use1 = {"float": "chkf(l);", "int *": "chk(l - ai);"}.get(t, "chk(l);")
    w = r.choice([3, 3, 5, 9])
    guard = "if (++g > %d) break;" % w
    body = r.choice(["%s %s", "%s { %s }", "%s if (g == 2) continue; %s", "%s if (g & 1) { %s } else n++;"]) % (guard, use1)
    k = r.random()
    post = use1 + " chk(g);"
    if k < .45:
        return "%s l; int g = 0; for (l = %s; %s; %s) { %s } %s" % (t, A, cond, st, body, post)
    if k < .55:
        return "%s l; int g; for (g = 0, l = %s; %s; %s) { %s } %s" % (t, A, cond, st, body, post)
    if k < .65:
        return "%s l; int g = 0; l = %s; while (%s) { %s %s; } %s" % (t, A, cond, body.replace("continue", "n += 5"), st, post)
    if k < .75:
        return "%s l; int g = 0; l = %s; do { %s; %s } while (%s); %s" % (t, A, st, body, cond, post)
    if k < .8:
        return "%s l = %s; int g = 0; for (;;) { %s if (!(%s)) break; %s; } %s" % (t, A, body.replace("continue", "n += 5"), cond, st, post)
    if k < .85:
        return "%s l = %s; int g = 0; for (; %s; ) { %s; %s } %s" % (t, A, cond, st, body, post)
    if k < .9:
        c = r.choice(["0", "1", "1 > 2", "3 == 3", "0.0f", "1u", "sizeof(int) == 4", "!1", "(char)256"])
        return "int g = 0, l = 0; %s chk(g); chk(l);" % (r.choice(["while (%s) { if (++g > 2) break; l += 2; }", "do { if (++g > 2) break; l += 2; } while (%s);", "for (l = 1; %s; l++) { if (++g > 2) break; }", "for (; %s; ) if (++g > 2) break;"]) % c)
    if k < .95:
        # two loops, one with a limit from the outer one
        return "int i, j, g = 0; for (i = %d; i < %d; i++) for (j = %s; j %s %s; j++) { if (++g > 40) break; %s chk(i * 16 + j); } chk(g); chk(i);" % (
            a, a + r.choice([0, 1, 3]), r.choice(["0", "i", "i + 1", str(b)]), r.choice(["<", "<=", "!="]), r.choice(["i", "3", "i + 2", str(b)]), r.choice(["", "if (j == 2) continue;", "if (i == j) break;"]))
    return "%s l, %sm; int g = 0; for (l = %s, m = %s; l %s m; %s) { %s %s } %s" % (t, "*" if t == "int *" else "", A, B, op, st, guard, use1, post)


def cond(r, d):
    """a condition with constants, effects and short-cut operators"""
    k = r.random()
    if d <= 0 or k < .3:
        return r.choice(["0", "1", "1 < 2", "2 < 1", "!0", "fi()", "!fi()", "vi", "!vi", "vi > 3", "vi == 5", "3 > vi", "vu >= 0", "vu < 0", "0 <= vu", "vu > 0", "0u < fu()", "fu() >= 0u", "fu() < 0u", "pi", "pi == 0", "!pi", "pi != ai", "fp() == ai + 3", "pi > ai", "vf", "vf > 1.0f", "!vf", "ff() != 0.0f",
                         "bf.a", "!bf.b", "bf.c == 3", "bf.a == 0", "bf.b != 0", "(bf.a = vi)", "vc", "vuc == 200", "(vi = 0)", "(vi = vj)", "vi++", "--vi", "vi & 4", "!(vi & 4)", "(vi, vj)", "(vi++, 0)", "s1.m == s2.m", "ps->k", "1.5f", "(char)vi", "vi - vj", "ai[1] == ai[2]", "&vi != 0", "sizeof vi == 4",
                         "vs < 0", "vus > 60000", "fst().m == vi", "chk == 0", "(void *)pi == (void *)ai", "vi == vi", "-1 < 0u", "'a' == 97"])
    if k < .5:
        return "(%s && %s)" % (cond(r, d - 1), cond(r, d - 1))
    if k < .7:
        return "(%s || %s)" % (cond(r, d - 1), cond(r, d - 1))
    if k < .82:
        return "!(%s)" % cond(r, d - 1)
    if k < .92:
        return r.choice(["(%s ? (%s) != 0 : !(%s))", "(%s ? !(%s) : vi)", "(%s ? vj : !(%s))"][:1] if r.random() < .5 else ["(%s ? !(%s) : !(%s))"]) % (cond(r, d - 1), cond(r, d - 1), cond(r, d - 1))
    return "(n++, %s)" % cond(r, d - 1)


def condition(r):
    c = cond(r, r.choice([1, 2, 2, 3, 4]))
    while c.lstrip("(") in ("pi", "vf"):
        c = cond(r, 2)
    return r.choice(["if (%s) chk(1); else chk(2);", "if (%s) chk(1);", "chk(!(%s));", "chk(!!(%s));", "{ int l = !!(%s); chk(l); }", "while (%s) { chk(3); break; }", "for (; %s; vi++) { if (++n > 103) break; }", "do n++; while (n < 104 && (%s));", "chk((%s) ? vi : vj);", "vi = (%s) ? 3 : 4;",
                     "ai[1] = 2 + !(%s);", "if (%s) { if (vi) chk(1); } else chk(2);", "chk(f2(!(%s), 1));", "if (!(%s)) goto L; chk(6); L: chk(7);", "chkf((%s) ? vf : 1.0f);", "chk((%s) ? *pi++ : vi--);", "(%s) ? fi() : (vj = 3);", "s1 = (%s) ? s2 : as[2];", "chk(((%s) ? &s1 : &s2)->m);", "pi = (%s) ? ai : 0; if (!pi) pi = ai + 1;"]) % c


def pointer(r):
    c = lambda: str(r.choice([0, 1, 2, 3, -1, -2]))
    e = r.choice(["pi[%c]", "*(pi + %c)", "*(pi - %c)", "(&ai[3])[%c]", "*(&ai[2] + 1)", "*(1 + &ai[2])", "(ai + 2)[1]", "2[ai]", "*(ai + (vi & 3))", "pi[vi & 3]", "&ai[5] - &ai[%d]", "pi - ai", "&ai[vi & 3] - ai", "(char *)pi - (char *)ai", "(int)(&as[2] - &as[0])", "&ps[1] - as", "*pi++", "*++pi", "*pi--", "(*pi)++", "++*pi",
                  "*(int *)((char *)&s1 + 0)", "*((char *)&un + 1)", "((char *)&un)[%d & 3]", "(&vi)[0]", "*&vi", "*(&vi + 0)", "&*pi == pi", "&pi[0] == pi", "*a2[1]", "**a2", "*(*(a2 + 1) + 2)", "(*(a2 + 2))[1]", "a2[2][%d & 3]", "*(a2[1] + (vi & 3))", "(&a2[0][0])[5]", "&a2[2][1] - &a2[0][0]", "a2 + 1 == &a2[1]",
                  "ps[1].m", "ps[-1].m", "(ps + 1)->in.y[2]", "(*ps).k", "(*(ps - 1)).in.x", "ps++->m", "(--ps)->m", "as[vi & 1].in.y[vj & 1]", "&ps->in.y[2] - ps->in.y", "(&ps->in)->x", "*&ps->m", "pu[%c]", "*pu++ + 1", "pi > ai", "pi <= &ai[3]", "pi == &ai[3]", "pi < ai + 8", "&ai[1] < &ai[2]", "(unsigned)pi == (unsigned)&ai[3]",
                  "\"abc\"[vi & 1]", "*(\"xyz\" + 2)", "sizeof \"abc\"", "sizeof ai / sizeof ai[0]", "sizeof a2[0]", "sizeof *ps", "sizeof(struct B)", "(*fp())", "fp()[1]", "*fp()++" if 0 else "*fp()", "(*f2)(2, 3)", "(**f2)(4, 5)", "(vi & 1 ? f2 : f2)(1, 2)", "(pi += 2)[-1]", "*(pi -= 1)", "(pi = ai)[2]", "(pi++, pi[0])", "-pi[1]", "!pi[0]",
                  "(int)((unsigned)(ai + 2) - (unsigned)ai)", "((int (*)[4])a2)[1][1]", "((struct S *)as + 2)->m", "ac[(unsigned char)vi & 7]", "ai[vc & 7]", "ai[(vs & 3) + 1]", "*(ac + vuc % 8)", "ai[bf.c & 7]"])
    return use(r, e.replace("%c", c() if "pi" in e or "pu" in e or "ai[3]" in e else "1").replace("%d", str(r.randrange(5))))


def struct(r):
    return r.choice(["chk(fst().m);", "chk(fst().in.y[1]);", "chk(fst().bf.b);", "chkf(fst().f);", "chks(fst());", "s2 = fst();", "as[vi & 1] = fst();", "*ps = fst();", "*ps++ = s1;", "*ps = *fps();", "chks(s1 = s2);", "chk((s1 = as[2]).m);", "s1 = s2 = as[2];", "chks(vi & 1 ? s1 : s2);", "chk((vi & 1 ? s1 : as[2]).m);",
                     "chks(fss(s1, 2));", "chks(fss(fss(s1, 1), 2));", "s1 = fss(s1, 3);", "s1 = fss(s2, s1.m & 7);", "chk(fss(*ps, 1).in.y[1]);", "as[1] = fss(as[1], -1);", "chk(fv(1, s1, 2.5f, 200));", "chk(fv(vi, fst(), vf, vuc));", "chk(fv(bf.a, *fps(), ff(), 300));", "chk(fv(vc, vi & 1 ? s1 : s2, (float)vi, fc()));",
                     "{ struct S l; l = s1; l.m = 3; chks(l); }", "{ struct S l[2]; l[0] = s1; l[1] = l[0]; l[1].in = s2.in; chks(l[1]); }", "{ struct S l, *q = &l; *q = as[2]; q->bf.c++; chks(*q); chk(q->bf.c); }", "ps->in = s2.in;", "s1.in = as[1].in;", "s1.bf = *pb;", "*pb = ps->bf;", "bf = s2.bf;", "chk((*pb = s1.bf).d);",
                     "{ union U l; l.f = vf; chk(l.i); l.c[1] = 7; un = l; }", "(n++, s1) = s2;" if 0 else "n++, s1 = s2;", "chk((n++, s1).m);", "chks((vi++, s2));", "{ struct B l; l = bf; l.a++; l.b -= 3; chk(l.a); chk(l.b); *pb = l; }", "{ struct B l[2]; l[0] = bf; l[1].a = 1; l[1].b = l[0].b; chk(l[1].a + l[1].b); }",
                     "{ struct { char c[5]; } a, b; int i; for (i = 0; i < 5; i++) a.c[i] = (char)(vi + i); b = a; chk(b.c[4]); chk(b.c[0]); }", "{ struct { char c; } a, b, d; a.c = vc; b.c = 1; d.c = 2; b = a; chk(b.c); chk(d.c); chk(a.c); }", "chk(f2(fst().m, 3));", "chk(rec(vi & 7));", "fst();", "(void)fss(s1, 4);", "s1, fi();",
                     "{ struct S a[2], *p = a; p[0] = s1; p[1] = s2; p++; *p = fss(p[-1], p->m & 3); chks(a[1]); }", "{ struct S x; x = vi & 2 ? fst() : fss(s2, 1); chks(x); }", "if (fst().m > 3) chk(1); else chk(2);", "{ static struct S k; chks(k); k = s1; k.m += 1; chks(k); }", "chk(s1.m + s2.m * as[vi & 1].in.y[1]);"])


def switch(r):
    t = r.choice(["vi", "vi", "vu", "vc", "vuc", "vs", "bf.a", "bf.c", "fi()", "fu()", "vi & 7", "vi % 5", "(char)vi", "vi > 3", "!vi", "vi++", "(n++, vi)", "-vi", "vu / 3u"])
    vals = r.sample(sorted(set(KS + list(range(-4, 12)))), r.choice([1, 2, 3, 4, 6, 8, 12])) if r.random() < .6 else [r.choice([-3, 0, 1, 95]) + i * r.choice([1, 1, 2]) for i in range(r.choice([3, 4, 5, 9]))]
    vals = sorted(set(vals), key=lambda x: r.random())
    if t in ("vu", "fu()", "vu / 3u"):
        lim = set()
        vals = [v for v in vals if not (v & 0xffffffff in lim or lim.add(v & 0xffffffff))]
    o = ["case %d: %s" % (v, r.choice(["chk(%d); break;", "chk(%d);", "n += %d; break;", "{ int l = %d; chk(l); } break;", "if (vj) break; chk(%d);"]) % (i + 2)) for i, v in enumerate(vals)]
    if r.random() < .7:
        o.insert(r.randrange(len(o) + 1), "default: chk(99); %s" % r.choice(["", "break;"]))
    return "switch (%s) { %s }" % (t, " ".join(o))


def conversion(r):
    T = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "float"]
    a = r.choice(["vi", "vu", "vc", "vuc", "vs", "vus", "bf.a", "bf.b", "bf.c", "bf.d", "fi()", "fu()", "fc()", "vi * 3", "~vi", "vu >> 1", "-vc", "vuc << 4", "vi > 1", "un.u"])
    e = a
    for _ in range(r.choice([1, 1, 2, 3])):
        t = r.choice(T[:7])
        e = "(%s)(%s)" % (t, e)
    if r.random() < .2:
        e = "(int)(float)((%s) & 0xffff)" % e
    if r.random() < .3:
        e = "%s %s %s" % (e, r.choice(["+", "-", "*", "<", ">", "==", "&", "<=", ">>", "/"]), r.choice(["1", "1u", "3", "7u", "(char)3", "(unsigned char)250 "]))
    return use(r, e)


def anyint(r):
    return sub(r, r.choice(INT_E + UNS_E + ["bf.a", "(int)bf.c", "300", "-1", "65535", "70000", "vi * 3", "vuc + vc", "vi > vj", "'\\377'", "0x80000000", "fi() ? 1 : 2"]))


def simpleint(r):
    return r.choice(["vi", "vc", "vuc", "vs", "vus", "vu", "bf.a", "bf.b", "(int)bf.c", "ai[1]", "300", "-1", "200", "65535", "70000", "-129", "vi + 1", "vuc * 2", "-vs", "~vc", "!vi", "vi > vj", "(int)vf", "'a'", "EB", "sizeof vi", "s1.m", "ps->k", "vi & 15", "vu >> 4"])


def simpleflt(r):
    return r.choice(["vf", "1.5f", "vg", "(float)vi", "s1.f", "af[2]", "vf + 1.0f", "-vg", "bf.b", "vc", "3", "vuc"])


def call(r):
    """conversions of arguments and results"""
    k = r.random()
    if k < .3:
        f = r.choice(["rc", "ruc", "rs", "rus", "ru", "rb", "rif", "rf", "rcf"])
        a = anyint(r)
        if f in ("rif", "rcf"):
            a = r.choice(["vg", "af[1]", "(%s) & 63" % a, "1.75f", "-2.5f", "bf.b"])
        return use(r, "%s(%s)" % (f, a), f == "rf")
    if k < .5:
        return use(r, "pm(%s, %s, %s, %s, %s, %s)" % (simpleint(r), simpleint(r), simpleint(r), simpleint(r), simpleflt(r), simpleint(r)))
    if k < .6:
        return use(r, "kc(%s, %s, %s, %s, %s, %s)" % (simpleint(r), simpleint(r), simpleint(r), simpleint(r), r.choice(["vf", "1.5f", "vg", "(float)vi"]), r.choice(["pi", "ai + 1", "&ai[vi & 3]", "rp(ai, 2)"])))
    if k < .65:
        return use(r, "ka(%s, %s, %s)" % (r.choice(["ai", "pi", "a2[1]", "&ai[2]"]), r.choice(["vi", "7", "bf.b + 0"]), r.choice(["f2", "&f2", "*f2", "pick(1)"])))
    if k < .7:
        return use(r, "va(%d, %s)" % (r.randrange(4), ", ".join(r.choice(["vi", "vc", "7", "vuc", "-1", "bf.a", "vs", "vu"]) for _ in range(3))))
    if k < .78:
        x = [r.choice(["vi", "vc", "1", "vj", "bf.a", "-3", "f2(vi, 2)", "rec(2)", "many(1, 2, 3, 4, 5, 6, 7, 8, 9, vi)"]) for _ in range(10)]
        return use(r, "many(%s)" % ", ".join(x))
    if k < .88:
        return use(r, r.choice(["apply(f2, vi, vj)", "apply(pick(1), vc, 3)", "pick(vi | 1)(vi, vj)", "(*pick(2))(1, 2)", "f2(f2(1, vi), f2(vj, 2))", "f2(f2(f2(1, 2), f2(3, vi)), f2(5, f2(6, vj)))", "rp(ai, 3)[-1]", "*rp(pi, -1)", "rp(rp(ai, 1), 2) - ai", "f2(rc(300), ruc(-1))", "f2(rec(3), vi)", "(vi ? apply : apply)(f2, 1, vj)", "pick(0) == 0",
                                "((FN)f2)(1, 2)", "f2((vi++, 3), 4)", "f2(vi = 4, 5)", "f2(vi ? 1 : 2, !vj)", "f2(vi && vj, vi || vj)", "rec(f2(1, 1) & 3)", "many(1, f2(vi, 1), 3, f2(2, f2(vj, 3)), 5, 6, 7, rec(1), 9, 10)", "f2(fst().m, 2) + f2(3, s1.k)"]))
    if k < .94:
        return "{ int (*p)(int, int) = f2; %s }" % use(r, r.choice(["p(%s, 3)", "(*p)(4, %s)", "apply(p, %s, 1)", "p == f2 && p(%s, 1)"]) % simpleint(r))
    return "{ static int (*t[3])(int, int) = { f2, 0, &f2 }; int i; for (i = 0; i < 3; i++) if (t[i]) chk(t[i](%s, i)); else chk(i); }" % simpleint(r)


def local(r):
    """initialized automatic and static objects"""
    v = lambda: simpleint(r)
    c = lambda: str(r.choice([0, 1, 2, -1, 127, 128, 255, 300, -129, 65536]))
    return r.choice([
        "{ int a[3] = { 1, %s }; chk(a[0]); chk(a[1]); chk(a[2]); a[2]++; chk(a[2]); }" % c(), "{ int a[] = { 5, %s, 7, %s }; chk(sizeof a); chk(a[1]); chk(a[3]); }" % (c(), c()), "{ char a[] = \"hello\"; chk(sizeof a); a[1] = 'u'; chk(a[0]); chk(a[1]); chk(a[5]); }", "{ char a[3] = \"abc\", b = 'x'; chk(a[2]); chk(b); }",
        "{ char a[7] = \"ab\"; chk(a[1]); chk(a[2]); chk(a[6]); a[6] = 1; }", "{ char *p = \"xy\" \"z\"; chk(p[2]); chk(p[3]); chk(*p); }", "{ char a[2][4] = { \"ab\", { 'c', 'd' } }; chk(a[0][1]); chk(a[1][1]); chk(a[1][3]); }", "{ char *a[2] = { \"one\", \"two\" }; chk(a[%s & 1][1]); }" % v(),
        "{ static int a[4] = { 1, 2, %s }; chk(a[2]); chk(a[3]); a[3] = vi; a[0]++; chk(a[0]); }" % c(), "{ static char k = %s; chk(k); k++; chk(k); }" % c(), "{ static struct { char c; int i; float f; } k = { 'q', %s, 1.5f }; chk(k.c); chk(k.i); chkf(k.f); k.i--; }" % c(), "{ static int *p = &ai[2], *q = ai + 1; chk(*p + *q); chk(p - q); }",
        "{ struct { int a; char b[3]; int c : 5; } l = { 7, { 1, 2 }, %s }; chk(l.a); chk(l.b[1]); chk(l.b[2]); chk(l.c); }" % r.choice(["3", "-4", "15"]), "{ ST l = { 1, 2, 3.5f, { 4, { 5, 6 } } }; chk(l.in.y[1]); chk(l.in.y[2]); chk(l.k); chkf(l.f); chk(l.bf.d); }", "{ ST l = { 1, 2, 3.5f, 4, 5, 6, 7, 1, 2, 3 }; chk(l.in.y[2]); chk(l.bf.a); chk(l.bf.c); chk(l.bf.d); }",
        "{ int x = %s; char y = %s; unsigned char z = x; short w = y; chk(x); chk(y); chk(z); chk(w); }" % (v(), v()), "{ float x = %s; int y = (int)x & 3; chkf(x); chk(y); }" % r.choice(["vg", "bf.b", "2", "1.25f", "vc"]), "{ unsigned x = %s; int y = x; float z = (float)(y & 255); chk(y); chkf(z); }" % v(), "{ struct S x = *ps, y = fst(); chks(x); chks(y); }",
        "{ union U x = { %s }; chk(x.i); chk(x.c[0]); x.c[3] = 1; chk(x.i); }" % c(), "{ int x = %s; { int x = 3; chk(x); { char x = 300; chk(x); x++; chk(x); } chk(x); } chk(x); }" % v(), "{ int i; for (i = 0; i < 3; i++) { static int s = 5; int a = i * 2; chk(s); s += a; chk(s + a); } }", "{ extern int vi; int vj = vi + 1; chk(vj); vi = vj; }",
        "{ T T = 5; chk(T); T = vi; chk(T + 1); }", "{ enum { EA = 7, X } e = X; chk(e); chk(EA); } chk(EA);", "{ struct S { int q; } l; l.q = vi; chk(l.q); chk(sizeof(struct S)); } chk(sizeof(struct S));", "{ A3 a, *p = &a; a[0] = vi; (*p)[1] = vj; a[2] = sizeof(A3); chk(a[0]); chk(a[1]); chk(a[2]); chk(sizeof *p); }",
        "{ int a[2][3] = { { 1, 2 }, { 3 } }, i, j; for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) chk(a[i][j]); }", "{ int a[2][3] = { 1, 2, 3, %s }; chk(a[1][0]); chk(a[1][1]); chk(a[0][2]); }" % c(), "{ struct { int x : 3, y : 7; unsigned z : 2; } l = { 1, %s, 2 }; chk(l.x); chk(l.y); chk(l.z); l.z++; l.z++; chk(l.z); chk(l.y); }" % r.choice(["3", "-4", "63", "-64"]),
        "{ struct { int x : 3; int : 0; int y : 3; char c; } l; l.x = vi; l.y = vj; l.c = vc; chk(l.x); chk(l.y); chk(l.c); chk(sizeof l); }", "{ static struct { unsigned a : 1, b : 31; } k[2] = { { 1, %s }, { 0, 5 } }; chk(k[0].b); chk(k[1].a); k[1].b += vi; chk(k[1].b); k[1].b = 5; }" % r.choice(["7", "65536"]), "{ int x, y; x = y = %s; chk(x + y); x += y -= 3; chk(x); chk(y); }" % v(),
        "{ volatile int x = %s; x++; chk(x); x = x + x; chk(x); if (x) chk(1); }" % v(), "{ const int x = %s; const int *p = &x; chk(*p + x); }" % v(), "{ register int x = %s, y; for (y = 0; y < 3; y++) x = x * 3 + y; chk(x); }" % v(), "{ int a[5], *p = a, *e = a + 5; while (p < e) *p++ = p - a == 0 ? 1 : 2; chk(e - a); }" if 0 else "{ int a[5], *p = a, *e = a + 5, i = 0; while (p != e) *p++ = i++ * 2; chk(e[-1]); chk(a[2]); chk(p == e); }",
        "{ char a[8], *p = a; *p++ = 'a'; *p++ = vc; *p = 0; chk(a[0]); chk(a[1]); chk(p - a); }", "{ int i = %s & 7; switch (i) { int z; case 1: z = 5; chk(z); default: z = 6; chk(z); } }" % v()])


def jump(r):
    """labels"""
    c = lambda: cond(r, 1)
    return r.choice([
        "{ int i = 0; A: chk(i); if (++i < 4) goto A; chk(i); }", "{ int i = 0; goto M; for (; i < 3; i++) { chk(i); M: chk(i + 10); } chk(i); }", "{ if (%s) goto A; chk(1); goto B; A: chk(2); B: chk(3); }" % c(), "{ int i; for (i = 0; i < 4; i++) { int j; for (j = 0; j < 4; j++) { if (j == 2) goto N; if (i == 2) goto O; chk(i * 4 + j); } N: chk(i); } O: chk(i); }",
        "{ int i = 3; while (i) { if (i-- == 2) continue; chk(i); if (%s) break; } chk(i); }" % c(), "{ int i = 0; do { if (i == 1) continue; chk(i); } while (++i < 3); chk(i); }", "{ int i; for (i = 0; ; i++) { if (i == 5) break; if (i & 1) continue; switch (i) { case 2: continue; case 4: chk(4); break; default: chk(0); } chk(i); } chk(i); }",
        "{ goto E; { S: chk(1); goto F; } E: chk(2); goto S; F: chk(3); }", "{ int i = 0; L: M: i++; if (i < 3) goto L; if (i < 5) goto M; chk(i); }", "{ if (%s) { if (%s) chk(1); else chk(2); } else if (%s) chk(3); }" % (c(), c(), c()), "if (%s) ; else chk(1); chk(2);" % c(), "{ while (%s) { if (++n > 105) break; else continue; } chk(n); }" % c(),
        "{ switch (vi & 3) { case 0: if (%s) { case 1: chk(1); } else { case 2: chk(2); } default: chk(3); } }" % c(), "{ int i = 5; switch (vi & 3) { case 0: do { chk(10); case 3: chk(3); case 2: chk(2); case 1: chk(1); } while (--i > 3); } }", "{ for (vi &= 7; vi > 0; vi--) switch (vi) { case 5: case 3: continue; case 4: break; default: chk(vi); } chk(vi); }",
        "return; chk(1);", "{ if (%s) return; chk(1); }" % c(), "for (;;) { if (%s) return; break; } chk(2);" % c(), "switch (vi & 1) { case 0: return; } chk(3);", "{ int a = 0, b; for (b = 1; b < 100; b *= 2, a++) ; chk(a); chk(b); }", "{ int a, b; for (a = 0, b = 5; a < b; a++, b--) chk(a * b); chk(a); }", "{ int x = 5; { goto out; chk(9); } out: chk(x); }"])


def mixed(r):
    """compound assignments and operators with operands of different types"""
    lv, flt = r.choice(LV[:26])
    q = r.random()
    if q < .4 and not flt:
        return use(r, "(%s %s %s)" % (lv, r.choice(["+=", "-=", "*="]), r.choice(["1.5f", "0.5f", "af[1]", "2.0f"]))) if lv not in ("vi", "vu", "un.i", "fps()->m", "bf.e", "bf.d", "vs", "vus", "vc", "vuc", "bf.a", "bf.b", "bf.c", "pb->a", "ps->bf.c", "ps->k", "as[2].bf.b", "un.c[1]", "ac[3]") else "%s = %s & 7; %s" % (lv, lv, "%s %s 1.5f; chk(%s);" % (lv, r.choice(["+=", "*="]), lv) if lv not in ("bf.a", "bf.b", "pb->a", "as[2].bf.b") else "chk(%s);" % lv)
    a, b = anyint(r), simpleint(r)
    o = r.choice(["+", "-", "*", "&", "|", "^", "<", ">", "<=", ">=", "==", "!="])
    if q < .6:
        m = r.choice([x for x in ("<<", ">>") ])
        return use(r, "(%s) %s (%s & 31)" % (simpleint(r), m, simpleint(r)))
    if q < .7:
        return use(r, "(%s) %s ((%s) | 1)" % (simpleint(r), r.choice("/%"), r.choice(["vuc", "vus", "7", "3u", "vc & 63", "(int)bf.c"])))
    if "++" in a or "--" in a or "=" in a or "f" in a:
        b = r.choice(["7", "300", "-1", "2u", "'a'"])
    return use(r, "%s %s %s" % ((a, o, b) if r.random() < .5 else (b, o, a)) if "(" in a or " " not in a else "(%s) %s %s" % (a, o, b))


FAMILIES = [identity, nested, assign, loop, condition, pointer, struct, switch, conversion, call, local, jump, mixed]
FOLD = [identity, nested, assign, conversion]


def systematic(r, fold=False):
    """the combinations that are always tried (fold: those with constants only)"""
    for uns, cons in ((False, ICON), (True, UCON)):
        for con in cons:
            for op in BINOPS:
                for right in (False, True):
                    yield identity(r, op, con, uns, right)
    for lv in LV:
        for con in CONSTS:
            yield assign(r, lv, con)
    for a in (0, 1, 3, 5, 10):
        for b in (0, 1, 3, 5, 10):
            for _ in range(0 if fold else 8):
                yield loop(r, (a, b))


def items(r, k, fold=False):
    for _ in range(k):
        f = r.choice(FOLD if fold else FAMILIES)
        yield f(r)


def program(r, its):
    o = []
    m = []
    for i, x in enumerate(its):
        o.append("%svoid t%d(void) { %s }\n" % (r.choice(["", "static "]), i, x))
        for k in r.sample(KS, 2):
            m.append("    reset(%d); t%d(); state(); out((int)hash);\n" % (k, i))
    # functions of some hundred lines each
    parts = [m[i:i + 100] for i in range(0, len(m), 100)]
    main = "int vmMain(int command, int arg0)\n{\n%s    return 0;\n}\n" % "".join("    m%d();\n" % i for i in range(len(parts)))
    body = "".join("void m%d(void)\n{\n%s}\n" % (i, "".join(p)) for i, p in enumerate(parts))
    return PRE + PROTO + "".join("void m%d(void);\n" % i for i in range(len(parts))) + main + "".join(o) + body + POST
