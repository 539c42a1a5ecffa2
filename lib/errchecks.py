"""C32: what is wrong is reported, where it is."""
import random
import re

import cerrors
import cgen
import cmatrix
from asmchecks import write_files, read
from lccchecks import W, collect, prepare, brief
from lcctools import *


def points(text):
    """line numbers (0-based) before which a declaration or directive can be inserted"""
    out, depth, cond, head = [], 0, 0, False      # head: in the parameter declarations of an old-style definition
    prev = ";"
    lines = text.split("\n")
    for i, l in enumerate(lines):
        st = l.strip()
        if depth == 0 and cond == 0 and prev in ";}" and not head and not (lines[i - 1:i] and lines[i - 1].endswith("\\")):
            out.append(i)
        if st.startswith("#"):
            if st.startswith("#if"):
                cond += 1
            elif st.startswith("#endif"):
                cond -= 1
            continue
        c = re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|/\*.*?\*/', " ", l)
        depth += c.count("{") + c.count("(") - c.count("}") - c.count(")")
        if c.strip():
            prev = c.strip()[-1]
            head = depth == 0 and (head and prev == ";" or prev == ")")
    return out


QUIET = ("No newline at end of file", "Multibyte character constant undefined", "Character constant taken as not signed")
BROKEN = {"break outside", "continue outside", "case outside", "default outside", "continue in switch", "continue in switch in if"}


def container(r, name, text, n):
    """-> text around a statement, number of lines before it"""
    k = r.random()
    f = "ERRF%d" % n
    if k < .4:
        a, b = "int %s(void) {" % f, "return 0; }"
    elif k < .6:
        a, b = "static void %s(int p0, char *p1)\n{\nint l0 = p0;\nif (l0 > 3) {\nl0++;" % f, "} else l0--;\n}"
    elif k < .8 or name in BROKEN or "U:" in text or "goto" in text:
        a, b = "float %s(float p0)\n{\n{\n{ float l1 = p0; l1 *= 2;" % f, "}\n}\nreturn p0;\n}"
    else:
        a, b = "int %s(int p0)\n{\nfor (; p0 > 3; p0--) {\nswitch (p0) {\ncase 1: p0 -= 2;\ndefault:" % f, "while (p0 == 7) p0++;\n}\n}\nreturn 0;\n}"
    return a + "\n" + text + "\n" + b, a.count("\n") + 1


def instance(r, e, n, good):
    """-> lines of text, offset of the wrong line, number of lines in it"""
    name, where, bad, ok = e
    t = ok if good else bad
    t = re.sub(r"\bU(\d*)\b", lambda m: "u%d_%s" % (n, m.group(1)), t)
    t = t.replace("U_", "u%d_" % n)
    k = t.count("\n")
    if where == "stmt":
        t, off = container(r, name, t, n)
    else:
        off = 0
    return t, off, k


def c32_one(seed):
    r = random.Random("C32-%d" % seed)
    fs = cgen.Gen(r, size=r.choice([.2, .2, .3, .5]), files=r.choice([1, 1, 2, 3])).program()
    d = tempfile.mkdtemp(dir=W.tmp)
    st = {"programs": 1, "wrong": 0, "right": 0, "kinds": {}, "places": {}}
    names = [n for n, t in fs]
    bad = None
    tools = W.kinds[r.choice(["plain", "plain", "asan"])]

    def fail(kind, detail, e=b""):
        extra = {n: read(os.path.join(d, n)) for n in os.listdir(d) if n.endswith((".c", ".h"))}
        return kind, "program %d: %s\n%s" % (seed, detail, brief(e, 800)), extra
    for rep in range(6):
        vi = r.randrange(len(fs))
        victim, text = fs[vi]
        good = r.random() < .35
        es = [r.choice([x for x in cerrors.T if not good or x[3]])]
        if r.random() < .4:
            es += [r.choice([x for x in cerrors.T if x[3]]) for _ in range(r.choice([1, 3]))]
        lines = text.split("\n")
        pts = points(text)
        place = r.choice(["plain", "plain", "header", "#line", "continued", "trigraph"])
        files = [(n, t) for n, t in fs if n != victim]
        want = None         # (file, line, tolerance)
        ins = []
        for i, e in enumerate(es):
            wrong = not good and i == 0
            t, off, k = instance(r, e, rep * 10 + i, not wrong)
            ins.append((r.choice(pts), t, off, k, wrong, e))
        ins.sort(key=lambda x: -x[0])
        out = list(lines)
        label = None
        for p, t, off, k, wrong, e in ins:
            blk = t.split("\n")
            if wrong:
                label = e[0]
                if place == "header":
                    fill = ["/* filler */"] * r.randrange(5)
                    files.append(("bad.h", "\n".join(fill + blk) + "\n"))
                    want = ("bad.h", len(fill) + off + 1, k + 1)
                    blk = ['#include "bad.h"']
                elif place == "#line":
                    n = r.randint(1, 30000)
                    want = ("else.x", n + off, k + 1)
                    blk = ['#line %d "else.x"' % n] + blk
                elif place == "continued":
                    pre = ["/* a", "b", "*/ extern int filler_%d; \\" % rep, "extern int fil\\", "ler2_%d;" % rep]
                    want = (victim, len(pre) + off, k + 1)
                    blk = pre + blk
                elif place == "trigraph":
                    pre = ["??=define FILL_%d(x) x ??/" % rep, " + x", "extern int filler_%d??(3??);" % rep]
                    want = (victim, len(pre) + off, k + 1)
                    blk = pre + blk
                else:
                    want = (victim, off, k + 1)
                if place not in ("header", "#line"):
                    want = (victim, p + want[1] + 1, want[2])
                    at = p
            out[p:p] = blk
        # insertions before the wrong line move it
        if want and want[0] == victim:
            sh = sum(len(t.split("\n")) for p, t, off, k, wrong, e in ins if not wrong and (p < at or p == at and ins.index((p, t, off, k, wrong, e)) > [x[4] for x in ins].index(True)))
            want = (want[0], want[1] + sh, want[2])
        write_files(d, files + [(victim, "\n".join(out))])
        for n in names:
            x = os.path.join(d, n[:-2] + ".asm")
            if os.path.exists(x):
                os.unlink(x)
        opts = r.choice([[], [], ["-Wf-g"], ["-A"], ["-w"]])
        rc, o, e = run([tools + "/lcc", "-DQ3_VM", "-S", "-Wf-target=bytecode"] + opts + names, d, 60)
        msg = e.decode("latin-1")
        errs = [l for l in msg.split("\n") if ": warning: " not in l and not l.endswith(QUIET)]
        st["right" if good else "wrong"] += 1
        what = "%s with %s of [%s] in %s (%s)" % (" ".join(opts), "the right form" if good else "the wrong form", ", ".join(x[0] for x in es), victim, place)
        asm = {n: os.path.exists(os.path.join(d, n[:-2] + ".asm")) for n in names}
        if rc is None or rc not in (0, 1, 8, 100):
            bad = fail("exit", "%s: exit status %s" % (what, rc), e)
        elif good:
            if rc != 0:
                bad = fail("false error", "%s: exit status %d" % (what, rc), e)
            elif not all(asm.values()):
                bad = fail("output", "%s: assembly files missing: %s" % (what, asm))
        else:
            st["kinds"][label] = st["kinds"].get(label, 0) + 1
            st["places"][place] = st["places"].get(place, 0) + 1
            locs = []
            for l in errs:
                m = re.match(r"cpp: (\S+):(\d+) |(?:\S+: )?(\S+):(\d+): ", l)
                if m:
                    locs.append((m.group(1) or m.group(3), int(m.group(2) or m.group(4))))
            if rc == 0:
                bad = fail("not reported", "%s, wrong is %s: exit status 0" % (what, label), e)
            elif not locs:
                bad = fail("no message", "%s, wrong is %s: no message with a place" % (what, label), e)
            else:
                f, n = locs[0]
                if os.path.basename(f) != want[0] or not want[1] <= n <= want[1] + want[2]:
                    bad = fail("wrong place", "%s, wrong is %s: first error at %s:%d, should be at %s:%d..%d" % (what, label, f, n, want[0], want[1], want[1] + want[2]), e)
            if not bad and asm[victim]:
                bad = fail("output", "%s, wrong is %s: there is an assembly file for the wrong file" % (what, label), e)
            if not bad and not all(v for n, v in asm.items() if n != victim):
                bad = fail("output", "%s, wrong is %s: the other files were not compiled: %s" % (what, label, asm), e)
        if bad:
            break
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def diag(out, pat):
    return {int(m.group(1)) for m in re.finditer(pat, out)}


def c32_matrix(seed, ls):
    d = tempfile.mkdtemp(dir=W.tmp)
    text, base = cmatrix.source(ls)
    write_files(d, [("x.c", text)])
    st = {"constructs": len(ls), "must_reject": 0, "must_accept": 0}
    bad = []
    rej, acc = None, None
    for cc in (["gcc", "-fmax-errors=0"], ["clang", "-ferror-limit=0"]):
        rc, o, e = run(cc + ["-m32", "-std=c90", "-pedantic-errors", "-fsyntax-only", "x.c"], d, 120)
        t = e.decode("latin-1")
        er = diag(t, r"(?m)^x\.c:(\d+):\d+: (?:fatal )?error")
        ok = set(range(base + 1, base + len(ls) + 1)) - diag(t, r"(?m)^x\.c:(\d+):\d+: (?:(?:fatal )?error|warning)")
        rej = er if rej is None else rej & er
        acc = ok if acc is None else acc & ok
    rc, o, e = run([W.tools + "/lcc", "-DQ3_VM", "-S", "-Wf-target=bytecode", "-Wf-e100000", "-o", "x.asm", "x.c"], d, 60)
    t = e.decode("latin-1")
    if rc not in (0, 1, 8, 100) or not rej and rc != 0:
        bad = [("exit", "matrix: exit status %s: %s" % (rc, brief(e)), {"x.c": text.encode()})]
    er = diag(t, r"(?m)^x\.c:(\d+): (?!warning)")
    for i, l in enumerate(ls):
        n = base + i + 1
        if (n in rej and n not in er) or (n in acc and n in er):
            one, _ = cmatrix.source([l])
            write_files(d, [("y.c", one)])
            rc, o, e = run([W.tools + "/lcc", "-DQ3_VM", "-S", "-Wf-target=bytecode", "-o", "y.asm", "y.c"], d, 60)
            if n in rej and rc == 0:
                bad.append(("not reported", "accepted: %s %s" % l, {"y.c": one.encode()}))
            elif n in acc and rc != 0:
                bad.append(("false error", "rejected: %s %s: %s" % (l[0], l[1], brief(e)), {"y.c": one.encode()}))
        st["must_reject"] += n in rej
        st["must_accept"] += n in acc
    shutil.rmtree(d, ignore_errors=True)
    return st, bad[:3]


# ---- conditional groups, over several files
LINE = ["#if 0", "#if 1", "#ifdef A", "#ifndef A", "#if defined A && B", "#if defined(B) || !C", "#elif 1", "#elif 0", "#elif defined A", "#elif B", "#else", "#else", "#endif", "#endif", "#endif", "#define A", "#define B 1", "#undef A", "#undef B", "#define C 0", "T", "T", "T",
        "#if (", "#if", "#elif", "#elif 1 +", "#error x", "#include \"nofile.h\"", "#define", "#undef 1", "#if 1 / 0", "#ifdef"]


def group(r, depth, hs, wrong):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.random()
        if k < .4 and depth > 0:
            out.append(r.choice(LINE[:6]))
            out += group(r, depth - 1, hs, wrong)
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                out.append(r.choice(LINE[6:10]))
                out += group(r, depth - 1, hs, wrong)
            if r.random() < .5:
                out.append("#else")
                out += group(r, depth - 1, hs, wrong)
            out.append("#endif")
        elif k < .5 and hs:
            out.append('#include "%s"' % r.choice(hs))
        elif k < .7:
            out.append(r.choice(["#define A", "#define B 1", "#undef A", "#undef B", "#define C 0", "#define C 0", "#undef C"]))
        else:
            out.append("T")
    return out


def c32_cond(seed):
    r = random.Random("C32c-%d" % seed)
    d = tempfile.mkdtemp(dir=W.tmp)
    st = {"conditional_files": 0, "conditional_rejected": 0, "conditional_accepted": 0}
    bad = None
    for rep in range(12):
        fs, hs = [], []
        for n in (["h2.h", "h1.h"][r.randrange(3):] + ["x.c"]):
            ls = group(r, r.choice([1, 2, 3, 4]), hs, 0)
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                k = r.random()
                if ls and k < .35:
                    del ls[r.randrange(len(ls))]
                elif ls and k < .5:
                    ls.insert(r.randrange(len(ls) + 1), r.choice(ls))
                elif ls and k < .6:
                    i, j = r.randrange(len(ls)), r.randrange(len(ls))
                    ls[i], ls[j] = ls[j], ls[i]
                else:
                    ls.insert(r.randrange(len(ls) + 1), r.choice(LINE))
            text = "".join("%s\n" % ("t%d_%s" % (i, n[0:2].replace(".", "")) if l == "T" else l) for i, l in enumerate(ls)) or "\n"
            fs.append((n, text))
            hs.append(n)
        write_files(d, fs)
        res = []
        for cc in ("gcc", "clang"):
            rc, o, e = run([cc, "-E", "-P", "-std=c90", "-pedantic-errors", "x.c"], d, 30)
            res.append((rc, o.split(), e))
        rc, o, e = run([W.tools + "/q3cpp", "x.c"], d, 20)
        st["conditional_files"] += 1
        toks = [t for l in o.split(b"\n") if not l.startswith(b"#") for t in l.split()]
        extra = {n: t.encode() for n, t in fs}
        if rc not in (0, 1):
            bad = ("exit", "conditional groups %d.%d: exit status %s of q3cpp: %s" % (seed, rep, rc, brief(e)), extra)
        elif all(x[0] != 0 for x in res):
            st["conditional_rejected"] += 1
            if rc == 0:
                bad = ("not reported", "conditional groups %d.%d: q3cpp accepts what is wrong: %s" % (seed, rep, brief(res[0][2])), extra)
        elif all(x[0] == 0 and not x[2].strip() for x in res) and res[0][1] == res[1][1]:
            st["conditional_accepted"] += 1
            if rc != 0:
                bad = ("false error", "conditional groups %d.%d: q3cpp: %s" % (seed, rep, brief(e)), extra)
            elif toks != res[0][1]:
                bad = ("wrong groups", "conditional groups %d.%d: q3cpp writes %s, gcc and clang %s" % (seed, rep, b" ".join(toks).decode(), b" ".join(res[0][1]).decode()), extra)
        if bad:
            break
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def c32(c):
    prepare(c, ("plain", "asan"), native=False)
    stats = {}
    ls = list(cmatrix.lines())
    random.Random("C32m-%d" % c.seed).shuffle(ls)
    if not c.thorough:
        ls = ls[:36000]
    more = list(cmatrix.special())
    random.Random("C32s-%d" % c.seed).shuffle(more)
    ls += more[:c.scale(12000, len(more))] + list(cmatrix.statements(random.Random("C32t-%d" % c.seed), c.scale(4000, 40000)))
    jobs = [(c32_matrix, i, ls[i:i + 400]) for i in range(0, len(ls), 400)]
    jobs += [(c32_cond, c.seed * 1000000 + i) for i in range(c.scale(160, 4000))]
    jobs += [(c32_one, c.seed * 1000000 + i) for i in range(c.scale(500, 9000))]
    collect(c, jobs, stats)
    c.finish("exploration", {
        "conditional_files": stats.get("conditional_files", 0), "conditional_rejected": stats.get("conditional_rejected", 0), "conditional_accepted": stats.get("conditional_accepted", 0),
        "evaluations": stats.get("constructs", 0) + stats.get("conditional_files", 0) + stats.get("wrong", 0) + stats.get("right", 0),
        "constructs_of_the_matrix": stats.get("constructs", 0), "must_be_rejected": stats.get("must_reject", 0), "must_be_accepted": stats.get("must_accept", 0),
        "wrong_programs": stats.get("wrong", 0), "right_programs": stats.get("right", 0), "distinct_violations_of_the_language": len(stats.get("kinds", {})), "places": stats.get("places", {}),
    }, ["gcc and clang (-std=c90 -pedantic-errors) tell what is valid where they agree"])


CHECKS = {"C32": c32}
