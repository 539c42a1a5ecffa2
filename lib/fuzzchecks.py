"""C35: the compiler survives every input."""
import random
import re

import cextreme
import cover
import cgen
import cppgen
from asmchecks import write_files, read
from lccchecks import W, collect, prepare, brief, sources, run_program, compare_native
from lcctools import *

TOK = re.compile(r'''"(?:\\.|[^"\n])*"|'(?:\\.|[^'\n])*'|[A-Za-z_0-9.]+|<<=|>>=|<<|>>|[-+*/%&|^<>=!]=|&&|\|\||\+\+|--|->|\n|\s+|\S''')
DICT = '''int char short long unsigned signed float double void struct union enum const volatile register static extern typedef auto if else while for do switch case default break continue goto return sizeof
... ( ) [ ] { } ; , : ? = + - * / % & | ^ ~ ! < > << >> && || ++ -- -> . += -= <<= == != <= 0 1 -1 2 32 0x7fffffff 4294967295u 2147483648 1.5 1e38f 1e400 1e-400 'a' '' 'abcde' "x" "" L'a' L"abc" "\\x" '\\400' 08 0x 1.e 1e+ 99999999999 1ul 1lul 1f 1.0fl x y S1
# ## \\ @ $ ` /* */ // ??/ ?? __LINE__ __FILE__ asm main (void) (*f)() [] {} \377 \0'''.split()
DICT += ["\n#", "\n#define x", "\n#if", "\n#endif\n", "\n#else\n", "\n#include", "\n#undef x\n", "\n#line 5\n", "\n#pragma ref x\n", "\n#line 32767 \"a\"\n", "\n#line 3 \"/\"\n", "\n#line 7 \".\"\n", "\n#line 2 \"\"\n", "\n#line 1 \"/dev/null\"\n", "\n# 4 \"x.c\" 1\n", "\n#line 99999 \"x.c\"\n", "\\\n", " ", "\n", "\f", "\r", "\r\n", "\x00", "\xff", "\xfe"]
OPTS = [(), ("-Wf-g",), ("-A",), ("-A", "-A"), ("-w",), ("-Wf-g2",), ("-P",), ("-Wf-A", "-Wf-x"), ("-d0.1",), ("-Wf-g3",), ("-v",)]


def mutate(r, t, n=None):
    tk = TOK.findall(t) or [";"]
    for _ in range(n or r.choice([1, 1, 1, 1, 2, 3, 5])):
        i, k = r.randrange(len(tk)), r.random()
        j = min(len(tk), i + r.randrange(1, 30))
        if k < .2:
            del tk[i]
        elif k < .4:
            tk.insert(i, " " + r.choice(DICT) + " ")
        elif k < .6:
            tk[i] = " " + r.choice(DICT) + " "
        elif k < .7:
            j = r.randrange(len(tk))
            tk[i], tk[j] = tk[j], tk[i]
        elif k < .8:
            tk[i:i] = tk[i:j]
        elif k < .9:
            del tk[i:j]
        elif k < .95:
            tk[i] = r.choice(tk)
        elif k < .97:
            del tk[i:]
        else:
            b = "".join(tk)
            p = r.randrange(len(b) + 1)
            tk = TOK.findall(b[:p] + "".join(chr(r.randrange(256)) for _ in range(r.choice([1, 1, 2, 8]))) + b[p + r.randrange(3):])
        tk = tk or [";"]
    return "".join(tk)


def judge(d, rc, e, asm, kind):
    """-> None or (kind, detail)"""
    t = e.decode("latin-1")
    m = re.search(r"runtime error: [^\n]*|ERROR: AddressSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*", t)
    if m or rc == 99:
        fr = re.findall(r"#\d+ \S+ in (\S+) \S*?([^/\s]+:\d+)", t)
        return kind + " memory", brief(e[max(0, t.find("ERROR") - 300):], 2500) if m is None else "%s %s\n%s" % (m.group(0)[:300], " < ".join("%s %s" % f for f in fr[:6]), t[max(0, m.start() - 200):m.start() + 2000])
    if rc is None:
        return kind + " hang", "no end within the time limit"
    if "ssertion" in t:
        return kind + " assertion", brief(e, 600)
    if rc not in (0, 1, 8, 100):
        return kind + " exit", "exit status %s: %s" % (rc, t[-300:])
    if re.search(r"terminated with signal|fatal error in", t):
        return kind + " exit", t[-300:]
    if rc != 0 and not t.strip():
        return kind + " silent", "exit status %d without a message" % rc
    if rc != 0 and asm and os.path.exists(os.path.join(d, asm)):
        return kind + " output", "exit status %d, but there is an output file" % rc
    if rc == 0 and asm and not os.path.exists(os.path.join(d, asm)):
        return kind + " output", "exit status 0, but no output file"
    return None


def compile_any(d, tools, name, opts, timeout=40):
    return run([tools + "/lcc", "-DQ3_VM", "-S", "-Wf-target=bytecode"] + list(opts) + ["-o", "x.asm", name], d, timeout)


def c35_mutant(seed):
    r = random.Random("C35-%d" % seed)
    st = {"inputs": 0, "accepted": 0, "rejected": 0}
    d = tempfile.mkdtemp(dir=W.tmp)
    cpp = r.random() < 0.35
    if cpp:
        g = cppgen.Gen(r)
        files, opts = g.program()
        for x in ("inc1", "inc2"):
            os.mkdir(os.path.join(d, x))
        write_files(d, list(files.items()))
        t = files["m.c"]
        if len(t) > 20000:
            t = t[:20000]
    else:
        t = cgen.Gen(r, size=r.choice([.2, .3, .5]), files=1).program()[0][1]
    bad = None
    for k in range(8):
        m = mutate(r, t)
        write_files(d, [("x.c", m)])
        tools = W.kinds[r.choice(["asan", "asan", "msan"])]
        if cpp:
            rc, o, e = run([tools + "/q3cpp"] + opts + ["x.c", "x.i"], d, 40)
            b = judge(d, rc, e, None, "cpp")
            if b and "hang" in b[0] and os.path.getsize(os.path.join(d, "x.i")) > 300000:
                b = None
            what = "q3cpp " + " ".join(opts)
        else:
            o = r.choice(OPTS)
            rc, o_, e = compile_any(d, tools, "x.c", o)
            b = judge(d, rc, e, "x.asm", "lcc")
            what = "lcc " + " ".join(o)
        st["inputs"] += 1
        st["accepted" if rc == 0 else "rejected"] += 1
        if os.path.exists(os.path.join(d, "x.asm")):
            os.unlink(os.path.join(d, "x.asm"))
        if b:
            fs = {"x.c": m.encode("latin-1")}
            if cpp:
                fs.update((f.replace("/", "_"), x.encode("latin-1")) for f, x in files.items() if f != "m.c")
            bad = (b[0], "mutant %d of %d, %s x.c: %s" % (k, seed, what, b[1]), fs)
            break
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def c35_raw(seed):
    """bytes that were never a program"""
    r = random.Random("C35r-%d" % seed)
    d = tempfile.mkdtemp(dir=W.tmp)
    st = {"inputs": 0, "accepted": 0, "rejected": 0}
    bad = None
    for k in range(8):
        n = r.choice([0, 1, 2, 5, 20, 100, 1000, 5000])
        how = r.choice(["bytes", "tokens", "tokens", "chars", "one", "lines"])
        if how == "bytes":
            m = "".join(chr(r.randrange(256)) for i in range(n))
        elif how == "tokens":
            m = "".join(r.choice(["", " "]) + r.choice(DICT) for i in range(n))
        elif how == "chars":
            m = "".join(chr(r.randrange(32, 127)) if r.random() < .95 else "\n" for i in range(n))
        elif how == "one":
            m = r.choice(DICT) * n
        else:
            m = "\n".join("#" * (r.random() < .5) + " ".join(r.choice(DICT) for j in range(r.randrange(8))) for i in range(n // 4))
        if r.random() < .3:
            m = "int f(int x, int y) {\n" + m + r.choice(["", "\n}", ";}"])
        write_files(d, [("x.c", m), ("p", "#pragma once\n")])
        tools = W.kinds[r.choice(["asan", "asan", "msan"])]
        ext = r.random()
        if ext < .15:
            os.rename(d + "/x.c", d + "/x.i")
            name = "x.i"
        else:
            name = "x.c"
        o = r.choice(OPTS)
        rc, o_, e = compile_any(d, tools, name, o)
        b = judge(d, rc, e, "x.asm", "lcc")
        st["inputs"] += 1
        st["accepted" if rc == 0 else "rejected"] += 1
        if os.path.exists(d + "/x.asm"):
            os.unlink(d + "/x.asm")
        if b:
            bad = (b[0], "raw input %d of %d, lcc %s %s: %s" % (k, seed, " ".join(o), name, b[1]), {name: m.encode("latin-1")})
            break
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def near(r, hi):
    """a number near the size of a table"""
    return min(hi, max(1, (1 << r.randint(1, hi.bit_length())) * r.choice([1, 1, 1, 2, 3]) // r.choice([1, 1, 1, 2]) + r.randint(-12, 12)))


def c35_extreme(name, seed):
    r = random.Random("C35x-%s-%d" % (name, seed))
    fn, hi = cextreme.SHAPES[name]
    lo = cextreme.MIN[name]
    n = r.choice([lo, lo - 1, lo + 1, hi, r.randint(1, lo), r.randint(lo, hi), int(lo * (hi / lo) ** r.random()), near(r, hi)])
    t = fn(r, max(1, n))
    d = tempfile.mkdtemp(dir=W.tmp)
    fs = [("entry_.c", read(os.path.join(AUX, "entry.c")).decode()), ("x.c", t)]
    if name == "includes":
        fs += cextreme.include_files(n)
    write_files(d, fs)
    st = {"extreme": 1, "shapes": {name: 1}, "inputs": 1, "accepted": 0, "rejected": 0}
    bad = None
    tools = W.kinds[r.choice(["asan", "asan", "plain"])]
    o = r.choice([(), (), ("-Wf-g",), ("-A",)])
    rc, o_, e = compile_any(d, tools, "x.c", o)
    b = judge(d, rc, e, "x.asm", "lcc")
    if b:
        bad = b
    elif rc != 0:
        st["rejected"] = 1
        if n <= lo:
            rc, o, e2 = gcc_native(W.obj, d, ["entry_.c", "x.c"], "n")
            if rc == 0:
                bad = ("limit", "rejected within the limits of C90 5.2.4.1: " + brief(e))
    else:
        st["accepted"] = 1
        x = compare_native(d, ["entry_.c", "x.c"], run_program(d, ["entry_.c", "x.c"], o))
        if x and x[0] == "discard":
            st["discarded"] = 1
        elif x and x[0] != "q3asm":
            bad = x
        elif x and n <= lo:
            bad = x
    if bad:
        bad = (bad[0], "%s(%d), seed %d, lcc %s: %s" % (name, n, seed, " ".join(o), bad[1]), sources(d, ["x.c"]))
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def c35_over(i, seed):
    name, fn, hi = cover.OVER[i]
    r = random.Random("C35o-%s-%d" % (name, seed))
    st = {"oversized": 0, "inputs": 0, "accepted": 0, "rejected": 0}
    d = tempfile.mkdtemp(dir=W.tmp)
    bad = None
    for rep in range(4):
        n = r.choice([hi, r.randint(1, hi), int(hi ** r.random()), near(r, hi), near(r, hi), near(r, hi)])
        t = fn(r, max(1, n))
        write_files(d, [("x.c", t)])
        kind = r.choice(["asan", "asan", "msan", "plain"])
        tools = W.kinds[kind]
        o = list(r.choice(OPTS))
        if name == "options":
            o += ["-DD%d=%d" % (j, j) for j in range(n)]
        elif name == "include_dirs":
            o += ["-I/nothing/%d" % j for j in range(r.choice([0, 20, n]))]
        if r.random() < .2:
            rc, so, e = run([tools + "/q3cpp", "x.c", "x.i"], d, 60)
            b = judge(d, rc, e, None, "cpp")
        else:
            rc, so, e = compile_any(d, tools, "x.c", o, 60)
            b = judge(d, rc, e, "x.asm", "lcc")
        st["oversized"] += 1
        st["inputs"] += 1
        st["accepted" if rc == 0 else "rejected"] += 1
        if b:
            bad = (b[0], "%s(%d), seed %d.%d, %s, lcc %s: %s" % (name, n, seed, rep, kind, " ".join(o)[:200], b[1]), {"x.c": t.encode("latin-1")})
            break
        if os.path.exists(d + "/x.asm"):
            os.unlink(d + "/x.asm")
    shutil.rmtree(d, ignore_errors=True)
    return st, bad


def c35(c):
    prepare(c, ("plain", "asan", "msan"))
    stats = {}
    s = c.seed * 1000000
    jobs = [(c35_extreme, n, s + i) for i in range(c.scale(5, 60)) for n in cextreme.SHAPES]
    jobs += [(c35_over, n, s + i) for i in range(c.scale(6, 100)) for n in range(len(cover.OVER))]
    k = c.scale(550, 12000)
    for i in range(k):
        jobs.append((c35_mutant, s + i))
        if i % 4 == 0:
            jobs.append((c35_raw, s + i))
    collect(c, jobs, stats)
    c.finish("exploration", {
        "evaluations": stats.get("inputs", 0), "inputs_accepted": stats.get("accepted", 0), "inputs_rejected": stats.get("rejected", 0),
        "extreme_programs": stats.get("extreme", 0), "shapes": stats.get("shapes", {}), "wrong_or_oversized_programs": stats.get("oversized", 0), "discarded": stats.get("discarded", 0),
    }, ["memory errors, undefined operations and reads of uninitialized memory are those AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer see",
        "nesting of up to 2000 levels; unlimited nesting ends at the size of the process stack"])


CHECKS = {"C35": c35}
