"""C30..C36: the C compiler (lcc, q3cpp, q3rcc)."""
import functools
import random
import struct

import cconst
import cgen
import cidiom
import cinit
import traceback
from asmchecks import pool_run, write_files, read, environment
from lcctools import *


class W:
    """what worker processes need (set before the pool is forked)"""


def scratch(c, name):
    d = os.path.join(c.tmp, name)
    os.makedirs(d, exist_ok=True)
    return d


def sources(d, names):
    r = {}
    for n in names:
        b = read(os.path.join(d, n))
        if b is not None:
            r[n] = b
    return r


def brief(b, n=400):
    return (b.decode(errors="replace") if isinstance(b, bytes) else b)[:n]


def first_line_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "output %d is %s, expected %s" % (i, y, x)
    return "%d outputs, expected %d" % (len(b), len(a))


# ---------------------------------------------------------------- C30
def run_program(d, names, opts=(), tools=None):
    """compile, link and run in the VM -> (stage, detail) or ("ok", lines)"""
    asm = []
    for n in names:
        rc, o, e = compile_c(tools or W.tools, d, n, opts=opts)
        if rc != 0:
            return "lcc", "exit status %s: %s" % (rc, brief(b"\n".join(l for l in e.split(b"\n") if b": warning: " not in l)))
        asm.append(n[:-2] + ".asm")
    shutil.copy(os.path.join(AUX, "sys.asm"), d)
    rc, o, e = run([W.tools + "/q3asm", "-o", "x.qvm"] + asm + ["sys.asm"], d)
    if rc != 0:
        return "q3asm", "exit status %s: %s" % (rc, brief(o + e))
    rc, o, e = run([W.run, "x.qvm"], d, 40)
    if rc is None:
        return "timeout", ""
    return "ok", vm_lines(o)


def compare_native(d, names, r):
    """r: result of run_program; -> None or (kind, detail)"""
    if r[0] not in ("ok", "timeout"):
        rc, o, e = gcc_native(W.obj, d, names, "n")
        return ("discard", brief(e)) if rc else r
    rc, o, e = gcc_native(W.obj, d, names, "n")
    if rc != 0:
        return "discard", brief(e)
    rc, o, e = run([d + "/n"], d)
    lines = vm_lines(o)
    if rc != 0 or not lines:
        return "discard", "native rc %s" % rc
    if r[0] == "ok" and r[1] == lines:
        return None
    if not confirmed(W.obj, d, names, lines):
        return "discard", "native compilers differ"
    if r[0] == "timeout":
        return "timeout", "the compiled program does not end"
    return "wrong result", first_line_diff(lines, r[1])


def c30_one(seed):
    r = random.Random("C30-%d" % seed)
    g = cgen.Gen(r, size=r.choice([.3, .5, 1, 1, 1, 2]), files=r.choice([1, 1, 1, 2, 3]))
    fs = g.objects() if seed % 8 == 7 else g.program()
    d = tempfile.mkdtemp(dir=W.tmp)
    write_files(d, fs)
    names = [n for n, t in fs]
    res = run_program(d, names, r.choice([(), ("-Wf-g",)]))
    x = compare_native(d, names, res)
    st = {"programs": 1, "outputs": 0, "instr": {}}
    bad = None
    if x and x[0] == "discard":
        st["discarded"] = 1
    elif x:
        bad = (x[0], "program %d: %s" % (seed, x[1]), sources(d, names + ["sys.asm"] + [n[:-2] + ".asm" for n in names]))
    else:
        st["outputs"] = len(res[1])
        st["lines"] = sum(t.count("\n") for n, t in fs)
        for n in names:
            mnemonics(read(os.path.join(d, n[:-2] + ".asm")).decode("latin-1"), st["instr"])
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def idioms(its, seed, st, limit=3, gen=cidiom):
    """compare a program of small items; the items that differ are isolated"""
    d = tempfile.mkdtemp(dir=W.tmp)
    try:
        write_files(d, [("a.c", gen.program(random.Random("p-%d" % seed), its))])
        r = run_program(d, ["a.c"], ("-Wf-g",) if seed % 4 == 3 else ())
        x = compare_native(d, ["a.c"], r)
        if x is None:
            st["items"] += len(its)
            st["outputs"] += len(r[1])
            mnemonics(read(os.path.join(d, "a.asm")).decode("latin-1"), st["instr"])
            return []
        if len(its) == 1:
            if x[0] == "discard":
                st["items_discarded"] += 1
                return []
            return [(x[0], "item of program %d: %s: %s" % (seed, its[0], x[1]), sources(d, ["a.c", "a.asm", "sys.asm"]))]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = []
    h = (len(its) + 1) // 2
    for part in (its[:h], its[h:]):
        if len(bad) < limit:
            bad += idioms(part, seed, st, limit - len(bad), gen)
    return bad


def idiom_job(prop, seed, k, of, fold=False):
    st = {"programs": 1, "items": 0, "items_discarded": 0, "outputs": 0, "instr": {}}
    if of:
        its = list(cidiom.systematic(random.Random("%ss-%d" % (prop, seed)), fold))[k::of]
    else:
        its = list(cidiom.items(random.Random("%si-%d-%d" % (prop, seed, k)), 250, fold))
    return st, idioms(its, seed * 1000 + k, st)


def init_job(seed, k):
    st = {"programs": 1, "items": 0, "items_discarded": 0, "outputs": 0, "instr": {}}
    its = cinit.items(random.Random("C30n-%d-%d" % (seed, k)), 80)
    bad = idioms(its, seed * 1000 + k, st, 3, cinit)
    st["initializers"] = st.pop("items")
    st["initializers_discarded"] = st.pop("items_discarded")
    return st, bad


def corpus(kind):
    return sorted(glob.glob(os.path.join(AUX, kind, "*.c")))


def c30_corpus(f, opts):
    """a written program; entry.c, linked first, calls its test()"""
    d = tempfile.mkdtemp(dir=W.tmp)
    n = os.path.basename(f)
    names = ["entry_.c", n]
    shutil.copy(os.path.join(AUX, "entry.c"), d + "/entry_.c")
    shutil.copy(f, d)
    res = run_program(d, names, opts)
    x = compare_native(d, names, res)
    st = {"corpus": 1, "outputs": len(res[1]) if res[0] == "ok" else 0, "instr": {}}
    bad = None
    if x and x[0] == "discard":
        st["corpus_discarded"] = 1
    elif x:
        bad = (x[0], "%s: %s" % (n, x[1]), sources(d, [n, n[:-2] + ".asm"]))
    else:
        mnemonics(read(os.path.join(d, n[:-2] + ".asm")).decode("latin-1"), st["instr"])
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def prepare(c, kinds=("plain",), native=True):
    th = [functools.partial(lcctools, k) for k in kinds]
    if native:
        th += [runner, nativeobj]
    r = build_all(th)
    W.tmp = c.tmp
    W.kinds = dict(zip(kinds, r))
    W.tools = r[0]
    if native:
        W.run, W.obj = r[-2:]


def dispatch(job):
    try:
        return job[0](*job[1:])
    except Exception as e:
        if environment(e):
            raise
        return {}, ("output", "no sense can be made of the output: job %s%s: %s" % (job[0].__name__, str(job[1:])[:200], traceback.format_exc()[-800:]), {})


def collect(c, jobs, stats):
    """run jobs (function, args...) in parallel until done or out of time"""
    t_end = c.t0 + c.scale(200, 780)
    for st, bad in pool_run(dispatch, jobs):
        merge_stats(stats, st)
        if bad:
            for b in bad if isinstance(bad, list) else [bad]:
                c.violation(*b)
        if len(c.violations) >= 12 or time.time() > t_end:
            break


def c30(c):
    prepare(c)
    stats = {}
    n = c.scale(900, 30000)
    jobs = [(c30_corpus, f, o) for f in corpus("run") for o in ((), ("-Wf-g",))]
    jobs += [(idiom_job, "C30", c.seed, i, 16) for i in range(16)] + [(init_job, c.seed, i) for i in range(c.scale(32, 2500))] + [(idiom_job, "C30", c.seed, i, 0) for i in range(c.scale(32, 2500))]
    jobs += [(c30_one, c.seed * 1000000 + i) for i in range(n)]
    collect(c, jobs, stats)
    ins = stats.get("instr", {})
    c.finish("exploration", {
        "evaluations": stats.get("outputs", 0), "programs": stats.get("programs", 0) + stats.get("corpus", 0), "source_lines": stats.get("lines", 0),
        "results_compared": stats.get("outputs", 0), "idioms": stats.get("items", 0), "idioms_discarded": stats.get("items_discarded", 0),
        "initializers": stats.get("initializers", 0), "initializers_discarded": stats.get("initializers_discarded", 0), "discarded": stats.get("discarded", 0) + stats.get("corpus_discarded", 0),
        "distinct_instructions": len(ins), "instructions": ins,
    }, ["gcc -m32 (confirmed by clang and other optimization levels) is a correct C90 compiler for the generated programs",
        "q3asm and the interpreter are right (C20..C23, C01..)"])


# ---------------------------------------------------------------- C34
def f32bits(v):
    return struct.unpack("<I", struct.pack("<f", v))[0]


def c34_program(r, n):
    """-> text, list of (expected bits, description)"""
    g = cconst.CGen(r)
    top, body, want, funcs = [], [], [], []

    def expect(v, what):
        want.append((v & 0xffffffff, what))
    ctx = {}
    for k in range(n):
        fl = r.random() < .4
        e = g.gen(r.choice([1, 2, 3, 3, 4, 4, 5]), fl)
        isf = e.t == "float"
        bits = f32bits(e.v) if isf else e.v & 0xffffffff
        cs = ["static", "code", "run", "mix", "local", "if", "run", "mix"]
        if not isf:
            cs += ["fold8", "sfloat", "ret"]
            if e.intc:
                cs += ["case", "size", "field", "case2"]
                if e.t == "int":
                    cs.append("enum")
        else:
            cs += ["fret"]
        t = {"float": "float", "int": "int", "unsigned": "unsigned"}[e.t]
        o = "of" if isf else "out"
        for x in r.sample(cs, 5):
            ctx[x] = ctx.get(x, 0) + 1
            d = "%s: %s" % (x, e.text)
            if x == "static":
                top.append("%s s%d = %s;" % (t, k, e.text))
                body.append("%s(s%d);" % (o, k))
                expect(bits, d)
            elif x == "code":
                body.append("%s(%s);" % (o, e.text))
                expect(bits, d)
            elif x == "run":
                body.append("%s(%s);" % (o, e.rt))
                expect(bits, d + "  as  " + e.rt)
            elif x == "mix":
                body.append("%s(%s);" % (o, e.mx))
                expect(bits, d + "  as  " + e.mx)
            elif x == "local":
                body.append("{ %s l = %s, m = %s; %s(l); %s(m); }" % (t, e.text, e.mx, o, o))
                expect(bits, d)
                expect(bits, d + "  as  " + e.mx)
            elif x == "if":
                body.append("if (%s) out(1); else out(0); out(%s ? 5 : 6); for (i = 0; !(%s) && i < 2; i++) ; out(i);" % (e.text, g.p(e, 4, "mx"), e.mx))
                expect(e.v != 0, d)
                expect(5 if e.v != 0 else 6, d)
                expect(0 if e.v != 0 else 2, d)
            elif x == "fold8":
                w, sg = r.choice([(8, 1), (8, 0)])
                top.append("%s c%d = %s;" % ("signed char" if sg else "unsigned char", k, g.p(e, 2, "text")))
                body.append("out(c%d);" % k)
                expect(cconst.wrap(e.v, w, sg), d)
            elif x == "sfloat":
                if abs(e.v) < 1 << 24:
                    top.append("float f%d = %s;" % (k, e.text))
                    body.append("of(f%d);" % k)
                    expect(f32bits(float(e.v)), d)
            elif x == "ret":
                tt = r.choice(["char", "unsigned char", "short", "unsigned short", "int", "unsigned"])
                w, sg = cconst.TYPES[tt]
                funcs.append("%s r%d(void) { return %s; }" % (tt, k, e.mx))
                body.append("out(r%d());" % k)
                expect(cconst.wrap(e.v, w, sg), d + "  as  " + e.mx)
            elif x == "fret":
                funcs.append("float r%d(void) { return %s; }" % (k, e.mx))
                body.append("of(r%d());" % k)
                expect(bits, d + "  as  " + e.mx)
            elif x == "case":
                body.append("switch (%s) { case %s: out(7); break; default: out(8); }" % (e.rt, e.text))
                expect(7, d + "  as  " + e.rt)
            elif x == "case2":
                v = cconst.wrap(e.v, 32, 1)
                body.append("switch (%s) { case %s: out(7); break; case (%s) + 1u: out(9); break; case (%s) - 1u: out(10); break; default: out(8); }" % (e.rt + (" + 1u" if v & 1 else "") if e.prec >= 12 else "(%s)%s" % (e.rt, " + 1u" if v & 1 else ""), e.text, e.text, e.text))
                expect(9 if v & 1 else 7, d + "  as  " + e.rt)
            elif x == "size":
                top.append("char a%d[(%s & 63) + 1];" % (k, g.p(e, 8, "text")))
                body.append("out(sizeof a%d);" % k)
                expect((e.v & 63) + 1, d)
            elif x == "field":
                b = (e.v & 15) + 1
                top.append("struct t%d { unsigned b : (%s & 15) + 1; } b%d;" % (k, g.p(e, 8, "text"), k))
                body.append("b%d.b = ~0; out(b%d.b);" % (k, k))
                expect((1 << b) - 1, d)
            elif x == "enum":
                top.append("enum e%d { E%d = %s, F%d%s };" % (k, k, e.text, k, "" if e.v < 0x7fffffff else " = 0"))
                body.append("out(E%d); out(F%d);" % (k, k))
                expect(e.v, d)
                expect(e.v + 1 if e.v < 0x7fffffff else 0, d)
    t = ["void out(int x);", "int test(void);", "int vmMain(int command) { return test(); }", "void of(float f) { out(*(int *)&f); }"]
    for (ty, text), name in g.vars.items():
        t.append("volatile %s %s = %s;" % (ty, name, text))
    t += top + funcs + ["int test(void) {", "int i;"] + body + ["return 0;", "}"]
    expect(0, "return value")
    return "\n".join(t) + "\n", want, g.ops, ctx


def c34_one(seed):
    r = random.Random("C34-%d" % seed)
    text, want, ops, ctx = c34_program(r, r.choice([5, 20, 40]))
    d = tempfile.mkdtemp(dir=W.tmp)
    write_files(d, [("a.c", text)])
    res = run_program(d, ["a.c"], r.choice([(), ("-Wf-g",)]))
    st = {"programs": 1, "values": 0, "operators": ops, "contexts": ctx}
    bad = None
    if res[0] != "ok":
        bad = (res[0], "program %d: %s" % (seed, res[1]), sources(d, ["a.c"]))
    else:
        got = res[1]
        for i, (v, what) in enumerate(want):
            g = got[i] if i < len(got) else "missing"
            if g != "%08x" % v:
                bad = ("wrong value", "program %d: value %d is %s, should be %08x: %s" % (seed, i, g, v, what), sources(d, ["a.c", "a.asm"]))
                break
        else:
            if len(got) != len(want):
                bad = ("wrong value", "program %d: %d values instead of %d" % (seed, len(got), len(want)), sources(d, ["a.c", "a.asm"]))
        st["values"] = len(want)
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def c34(c):
    prepare(c)
    stats = {}
    jobs = [(c34_one, c.seed * 1000000 + i) for i in range(c.scale(1800, 50000))]
    jobs += [(idiom_job, "C34", c.seed, k, 8, True) for k in range(8)]
    jobs += [(idiom_job, "C34", c.seed, 1000 + k, 0, True) for k in range(c.scale(16, 1000))]
    collect(c, jobs, stats)
    c.finish("exploration", {
        "idioms": stats.get("items", 0), "idioms_discarded": stats.get("items_discarded", 0),
        "evaluations": stats.get("values", 0), "programs": stats.get("programs", 0), "contexts": stats.get("contexts", {}),
        "distinct_operators": len(stats.get("operators", {})), "operators": stats.get("operators", {}),
    }, ["expressions with overflow, inexact float results or conversions C90 leaves undefined are not generated"])


# ---------------------------------------------------------------- C33
TOKEN = re.compile(r"""/\*.*?\*/|L?"(?:\\.|[^"\\\n])*"|L?'(?:\\.|[^'\\\n])*'|\.?[0-9](?:[eE][-+]|[0-9A-Za-z_.])*|[A-Za-z_][A-Za-z_0-9]*|\.\.\.|<<=|>>=|->|\+\+|--|&&|\|\||<<|>>|[-+*/%&|^<>=!]=|\#\#|[ \t]+|\n|.""", re.S)
TRI = {"#": "=", "[": "(", "]": ")", "{": "<", "}": ">", "^": "'", "|": "!", "~": "-", "\\": "/"}
COMMENTS = ["/**/", "/* x */", "/* \" ' */", "/*/ * /*/", "/***/", "/* # if \n*/", "/* a\n b */", "/*??/*/"]


def retoken(r, text, how):
    """the same program in different spelling"""
    out = []
    sol = True          # only white space so far in this line
    directive = False
    n = 0
    macros = []
    toks = TOKEN.findall(text)
    for i, t in enumerate(toks):
        if t.startswith("/*"):
            out.append(t)
            continue
        if t == "\n":
            if "join" in how and not directive and r.random() < .3 and not any(x == "#" for x in toks[i + 1:i + 4]):
                out.append(" ")
                sol = False
                continue
            out.append(t if r.random() < .97 or directive or "lines" not in how else "\n \t\n\n")
            sol, directive = True, False
            continue
        if t.isspace():
            if "space" in how and not directive:
                t = r.choice([" ", "\t", "  \t ", "\f", "\v"]) if not directive else " "
            elif "comment" in how and r.random() < .2:
                t = (" " if out and out[-1].endswith("/") else "") + r.choice(COMMENTS[:4] if directive else COMMENTS)
            out.append(t)
            continue
        if sol and t == "#":
            directive = True
        if directive:
            if "tri" in how:
                t = "".join("??" + TRI[x] if x in TRI and r.random() < .5 else x for x in t)
            sol = False
            out.append(t)
            continue
        sol = False
        q = t
        if "macro" in how and r.random() < .15 and t[0] not in "\"'" and not re.fullmatch(r"__.*|NATIVE", t):
            q = "MM%d" % n
            k = r.random()
            if k < .3:
                macros.append("#define %s %s" % (q, t))
            elif k < .6:
                macros.append("#define %s(x) x" % q)
                q += "(%s)" % t if t not in "()," else ""
                if q[-1] != ")":
                    q = t
            elif k < .8 and re.fullmatch(r"[A-Za-z_]([A-Za-z_]\w*|\d+)", t):
                macros.append("#define %s(x) x ## %s" % (q, t[1:]))
                q += "(%s)" % t[0]
            else:
                macros.append("#define %s() %s" % (q, t))
                q += "()"
            n += 1
            q = " " + q + " "
        if "tri" in how:
            q = "".join("??" + TRI[x] if x in TRI and r.random() < .3 else x for x in q)
        if "splice" in how and len(q) > 1 and r.random() < .1 and "??" not in q:
            p = r.randrange(1, len(q))
            if q[p - 1] != "\\":
                q = q[:p] + "\\\n" + q[p:]
        if "comment" in how and r.random() < .05:
            q = " " + r.choice(COMMENTS) + q
        out.append(q)
    return "\n".join(macros) + ("\n" if macros else "") + "".join(out)


def strip_asm(b):
    """assembly without comments"""
    return b"\n".join(l for l in b.split(b"\n") if not l.lstrip().startswith(b";") and not l.startswith((b"file ", b"line ")))


HOWS = [("comment",), ("space", "lines"), ("splice",), ("tri",), ("macro",), ("comment", "space", "lines", "macro", "tri"), ("macro", "splice", "join"), ("join",)]


def c33_one(seed):
    r = random.Random("C33-%d" % seed)
    g = cgen.Gen(r, size=r.choice([.3, .5, 1]), files=r.choice([1, 1, 2, 3]))
    fs = g.program()
    d = tempfile.mkdtemp(dir=W.tmp)
    write_files(d, fs)
    names = [n for n, t in fs]
    st = {"programs": 1, "variants": {}}
    bad = []

    def count(k):
        st["variants"][k] = st["variants"].get(k, 0) + 1

    def fail(kind, detail, extra=None):
        bad.append((kind, "program %d: %s" % (seed, detail), dict(sources(d, names), **(extra or {}))))
    base = {}
    for n in names:
        rc, o, e = compile_c(W.tools, d, n)
        b = read(os.path.join(d, n[:-2] + ".asm"))
        if rc != 0 or not b:
            fail("lcc", "exit status %s: %s" % (rc, brief(e)))
            break
        base[n] = b

    def check(kind, n, rc, e, path, strip=False, extra=None):
        count(kind)
        b = read(path)
        if rc != 0 or b is None:
            fail(kind, "%s: exit status %s: %s" % (n, rc, brief(b"\n".join(l for l in e.split(b"\n") if b": warning: " not in l))), extra)
        elif (strip_asm(b) != strip_asm(base[n])) if strip else b != base[n]:
            x, y = (strip_asm(b), strip_asm(base[n])) if strip else (b, base[n])
            x, y = x.split(b"\n"), y.split(b"\n")
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            fail(kind, "%s: assembly line %d is %r, was %r" % (n, i + 1, x[i:i + 1], y[i:i + 1]), dict(extra or {}, **{"other.asm": b, "base.asm": base[n]}))
    if not bad:
        n = r.choice(names)
        # debug information may change the layout of frames, but not what the program does
        count("-Wf-g")
        x = run_program(d, names)
        y = run_program(d, names, ("-Wf-g",))
        if x != y:
            fail("-Wf-g", "%s: %s, with -Wf-g %s" % (x[0], x[1] if x[0] != "ok" else "", first_line_diff(x[1], y[1]) if y[0] == x[0] == "ok" else y))
        # options without influence on the code
        op = r.choice([["-A"], ["-A", "-A"], ["-w"], ["-v"], ["-DUNUSED=1", "-UNOTHING", "-I."], ["-N"], ["-Wf-A", "-Wf-w"], ["-P"]])
        rc, o, e = compile_c(W.tools, d, n, "o.asm", op)
        if not (op == ["-P"] and rc):
            check("option " + op[0], n, rc, e, d + "/o.asm", False)
        # another process environment
        env = dict(ENV, MALLOC_PERTURB_=str(r.randrange(1, 255)), FILLER="x" * r.randrange(20000), TMPDIR=d)
        rc, o, e = run([W.tools + "/lcc", "-DQ3_VM", "-S", "-Wf-target=bytecode", "-o", "e.asm", n], d, env=env)
        check("environment", n, rc, e, d + "/e.asm")
        # another build of the compiler
        k = r.choice(["clang", "msan"])
        rc, o, e = compile_c(W.kinds[k], d, n, "m.asm")
        check("compiler built by " + k, n, rc, e, d + "/m.asm")
        # all files in one command
        if len(names) > 1:
            for x in names:
                os.unlink(os.path.join(d, x[:-2] + ".asm"))
            rc, o, e = run([W.tools + "/lcc", "-DQ3_VM", "-S", "-Wf-target=bytecode"] + names, d)
            for x in names:
                check("one command", x, rc, e, os.path.join(d, x[:-2] + ".asm"))
        # preprocessing as a step of its own
        rc, o, e = run([W.tools + "/lcc", "-DQ3_VM", "-E", n], d)
        if rc != 0:
            fail("-E", "exit status %s: %s" % (rc, brief(e)))
        else:
            write_files(d, [("pre.i", o)])
            rc, o, e = compile_c(W.tools, d, "pre.i", "pre.asm")
            check("-E first", n, rc, e, d + "/pre.asm", True)
        # other spelling
        for how in r.sample(HOWS, 3):
            t = retoken(r, dict(fs)[n], how)
            write_files(d, [("s.c", t)])
            rc, o, e = compile_c(W.tools, d, "s.c", "s.asm")
            check("spelling " + "+".join(how), n, rc, e, d + "/s.asm", True, {"s.c": t.encode("latin-1")})
    shutil.rmtree(d, ignore_errors=True)
    return st, bad[:1]


def c33(c):
    prepare(c, ("plain", "clang", "msan"))
    stats = {}
    collect(c, [(c33_one, c.seed * 1000000 + i) for i in range(c.scale(900, 14000))], stats)
    c.finish("exploration", {
        "evaluations": sum(stats.get("variants", {}).values()), "programs": stats.get("programs", 0), "variants": stats.get("variants", {}),
    }, [])


CHECKS = {"C30": c30, "C33": c33, "C34": c34}
