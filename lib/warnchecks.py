"""C37: what is questionable in a program is warned of, where it is, and warnings change nothing."""
import random
import re

import cgen
import cwarns
from asmchecks import write_files, read
from errchecks import container, instance, points
from lccchecks import W, collect, prepare, brief
from lcctools import *

WARN = re.compile(r"(?:\S+: )?(\S+?):(\d+): warning: (.*)")
COUNTS = re.compile(r"more than |declared at|declaration at|missing prototype for")     # depends on the rest of the file


def warnings(e):
    out = []
    for l in e.decode("latin-1").split("\n"):
        m = WARN.match(l)
        if m:
            out.append((os.path.basename(m.group(1)), int(m.group(2)), m.group(3)))
    return out


def c37_one(seed):
    r = random.Random("C37-%d" % seed)
    fs = cgen.Gen(r, size=r.choice([.1, .2, .2, .3]), files=1).program()
    d = tempfile.mkdtemp(dir=W.tmp)
    st = {"programs": 0, "questionable": 0, "sound": 0, "not_asked": 0, "elsewhere": 0, "kinds": {}}
    victim, text = fs[0]
    others = fs[1:]
    tools = W.kinds[r.choice(["plain", "plain", "plain", "asan"])]
    bad = None
    base = {}
    pts = points(text)
    lines = text.split("\n")

    def compile(opts):
        x = os.path.join(d, "x.asm")
        if os.path.exists(x):
            os.unlink(x)
        rc, o, e = run([tools + "/lcc", "-DQ3_VM", "-S", "-Wf-target=bytecode"] + opts + ["-o", "x.asm", victim], d, 60)
        return rc, e, read(x) if os.path.exists(x) else None

    def fail(kind, detail, e=b""):
        extra = {n: read(os.path.join(d, n)) for n in os.listdir(d) if n.endswith((".c", ".h"))}
        return kind, "program %d: %s\n%s" % (seed, detail, brief(e, 800)), extra
    for rep in range(6):
        a = r.choice([0, 0, 1, 2, 2])
        if a not in base:
            write_files(d, others + [(victim, text)])
            rc, e, asm = compile(["-A"] * a)
            base[a] = warnings(e)
            if rc != 0:
                bad = fail("status", "exit status %s of the program alone with %d -A" % (rc, a), e)
                break
        ins = []
        for i in range(r.choice([1, 2, 4, 8])):
            x = r.choice(cwarns.T)
            good = r.random() < .4
            name, where, b, g, msg, lev = x
            t, off, k = instance(r, (name, where, b, g), rep * 10 + i, good)
            if name == "long string":        # the names must not change the length
                t = g if good else b
                t = t.replace("U", "u%d_" % (rep * 10 + i))
            ins.append((r.choice(pts), t, off, k, good, x))
        # stable: the insertions of one place one behind the other
        order = sorted(range(len(ins)), key=lambda i: ins[i][0])
        out, at, where_is, move = [], 0, [], []
        for i in order:
            p = ins[i][0]
            while at < p:
                out.append(lines[at])
                move.append(len(out))
                at += 1
            n = len(out)
            out += ins[i][1].split("\n")
            where_is.append((i, n + ins[i][2] + 1, n + 1, len(out)))
        while at < len(lines):
            out.append(lines[at])
            move.append(len(out))
            at += 1
        write_files(d, others + [(victim, "\n".join(out))])
        rc, e, asm = compile(["-A"] * a)
        st["programs"] += 1
        what = "-A x %d, [%s]" % (a, ", ".join(("sound: " if x[4] else "") + x[5][0] for x in ins))
        if rc != 0 or asm is None:
            bad = fail("status", "%s: exit status %s, %s assembly file: the program is valid" % (what, rc, "no" if asm is None else "an"), e)
            break
        ws = warnings(e)
        used = set()
        for i, n, lo, hi in where_is:
            p, t, off, k, good, (name, where, b, g, msg, lev) = ins[i]
            used.update(range(lo, hi + 1))
            hit = [w for w in ws if w[0] == victim and n <= w[1] <= n + k and re.search(msg, w[2])]
            if good:
                st["sound"] += 1
                if hit:
                    bad = fail("false warning", "%s: line %d: %r for the sound form of %s" % (what, n, hit[0][2], name), e)
            elif a >= lev:
                st["questionable"] += 1
                st["kinds"][name] = st["kinds"].get(name, 0) + 1
                if not hit:
                    bad = fail("no warning", "%s: line %d: no warning /%s/ for %s" % (what, n, msg, name), e)
            else:
                st["not_asked"] += 1
                if hit:
                    bad = fail("false warning", "%s: line %d: %r for %s without -A" % (what, n, hit[0][2], name), e)
        if bad:
            break
        # elsewhere nothing has changed
        old = sorted((f, move[n - 1] if f == victim else n, m) for f, n, m in base[a] if not COUNTS.search(m) and (f != victim or n <= len(move)))
        new = sorted(w for w in ws if (w[0] != victim or w[1] not in used) and not COUNTS.search(w[2]))
        st["elsewhere"] += len(old)
        if old != new:
            bad = fail("elsewhere", "%s: warnings of the rest of the program: only before %s, only now %s" % (what, [x for x in old if x not in new][:3], [x for x in new if x not in old][:3]), e)
            break
        # the warnings can be turned off, and they change nothing
        k = r.choice([[], ["-w"], ["-w", "-A", "-A"], ["-A", "-w"], ["-A"], ["-A", "-A"]])
        rc2, e2, asm2 = compile(k)
        if rc2 != rc:
            bad = fail("status", "%s: exit status %s with %s" % (what, rc2, " ".join(k)), e2)
        elif asm2 != asm:
            bad = fail("output", "%s: another assembly file with %s" % (what, " ".join(k)), e2)
        elif "-w" in k and warnings(e2):
            bad = fail("not silent", "%s: warnings with %s" % (what, " ".join(k)), e2)
        if bad:
            break
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def c37(c):
    prepare(c, ("plain", "asan"), native=False)
    stats = {}
    collect(c, [(c37_one, c.seed * 1000000 + i) for i in range(c.scale(700, 9000))], stats)
    c.finish("exploration", {
        "evaluations": stats.get("questionable", 0) + stats.get("sound", 0) + stats.get("not_asked", 0),
        "programs": stats.get("programs", 0), "questionable_constructs": stats.get("questionable", 0), "sound_twins": stats.get("sound", 0), "not_asked_for": stats.get("not_asked", 0),
        "kinds": len(stats.get("kinds", {})), "warnings_of_the_rest_compared": stats.get("elsewhere", 0),
    }, ["the catalogue lib/cwarns.py says what deserves a warning"])


CHECKS = {"C37": c37}
