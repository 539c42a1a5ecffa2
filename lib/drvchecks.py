"""C36: the commands lcc and q3asm: exit status, files, options, faults."""
import hashlib
import random
import re
import resource
import signal
import stat

from asmchecks import write_files, read
from lccchecks import W, collect, prepare, brief
from lcctools import *

NAMES = ["a", "b", "main", "x1", "cg_main", "two words", "dots.in.name", "q", "ab", "abc", "-dash", "per%cent%s", "dollar$1", "hash#", "semi;colon", "star*", "quote'", "amp&", "tilde~", "comma,", "eq=", "plus+", "Capital", "c.c", "i.i", "asm", "under_score", "very" + "long" * 40]
DIRS = ["", "", "", "", "sub/", "sub/deeper/", "./", "sub/../", "a.c/", "s p/"]


def snapshot(d):
    r = {}
    for p, ds, fs in os.walk(d):
        for n in ds:
            r[os.path.relpath(os.path.join(p, n), d) + "/"] = None
        for n in fs:
            f = os.path.join(p, n)
            if os.path.islink(f):
                r[os.path.relpath(f, d)] = b"-> " + os.readlink(f).encode()
            elif stat.S_ISREG(os.stat(f).st_mode):
                r[os.path.relpath(f, d)] = open(f, "rb").read()
            else:
                r[os.path.relpath(f, d)] = b"special"
    return r


def source(r, k, wrong=False):
    """a C file whose code tells which macros and headers it was compiled with"""
    t = "#include \"h.h\"\n" if r.random() < .5 else ""
    t += "#include <g.h>\n" if r.random() < .4 else ""
    t += "#ifndef HV\n#define HV 0\n#endif\n#ifndef GV\n#define GV 0\n#endif\n"
    t += "#ifdef MA\nint ma_%d = MA + 0;\n#else\nint ma_%d = -1;\n#endif\n" % (k, k)
    t += "#ifdef MB\nint mb_%d = MB + 0;\n#else\nint mb_%d = -2;\n#endif\n" % (k, k)
    t += "#if defined Q3_VM && defined __LCC__ && __STDC__ == 1\nint std_%d = 1;\n#endif\n" % k
    t += "int hv_%d = HV;\nint gv_%d = GV;\nchar *name_%d = __FILE__;\n" % (k, k, k)
    t += "".join("int f%d_%d(int a, int b) { return a * %d + b; }\n" % (i, k, r.randrange(9)) for i in range(r.choice([0, 1, 3, 40, 400])))
    if wrong:
        t += r.choice(["int wrong = ;\n", "#error wrong\n", "int f(void) { return x; }\n", '#include "nothing.h"\n', "#if 1\n"])
    return t


class Plan:
    """a command line and what it has to do"""

    def __init__(self, r, d):
        self.r, self.d = r, d
        self.files = {}
        self.args = []
        self.env = {}


def values(asm, names):
    """initial values of variables in an assembly file"""
    r = {}
    lab = None
    for l in asm.decode("latin-1").split("\n"):
        w = l.split()
        if len(w) == 2 and w[0] == "LABELV":
            lab = w[1]
        elif len(w) == 2 and w[0] == "export":
            lab = w[1]
        elif len(w) == 3 and w[0] == "byte" and w[1] == "4" and lab:
            v = int(w[2])
            r[lab] = v - (1 << 32) if v >= 1 << 31 else v
            lab = None
    return r


SUFF = (".c", ".i", ".asm", ".o")


def suffix(n, k=4):
    for i, s in enumerate(SUFF[:k]):
        if len(n) > len(s) and n.endswith(s):
            return i
    return -1


def base(n):
    b = n.rsplit("/", 1)[-1]
    return b[:b.rindex(".")] if "." in b else b


def env_of(tmp, r, extra=None):
    e = {k: v for k, v in ENV.items() if k not in ("TMP", "TEMP", "TMPDIR", "LCCDIR", "LCCINPUTS")}
    e[r.choice(["TMP", "TEMP", "TMPDIR"])] = tmp
    if r.random() < .2:
        e["TMPDIR"] = tmp
    e.update(extra or {})
    return e


def make_tree(r, d):
    """files in d -> list of (name, k, kind)"""
    fs = []
    out = []
    for x in ("sub/deeper", "a.c", "s p", "inc1", "inc2", "sub/inc3", "tmp"):
        os.makedirs(os.path.join(d, x), exist_ok=True)
    hv = {}
    for i, x in enumerate(["", "sub/", "sub/deeper/", "a.c/", "s p/", "inc1/", "inc2/", "sub/inc3/"]):
        for h in "hg":
            if r.random() < (.9 if h == "h" and i < 5 else .5):
                v = hv[(x, h)] = 10 * i + (1 if h == "h" else 2) + 100
                fs.append((x + h + ".h", "#undef %sV\n#define %sV %d\n" % (h.upper(), h.upper(), v)))
    used = set()
    for k in range(r.choice([1, 1, 2, 3, 6])):
        n = r.choice(DIRS) + r.choice(NAMES)
        kind = r.choice(["c", "c", "c", "c", "c", "c", "wrong", "missing", "dir", "i", "wrongi", "asm", "o", "none", "empty"])
        ext = {"i": ".i", "wrongi": ".i", "asm": ".asm", "o": ".o", "none": ""}.get(kind, ".c")
        n += ext
        while n.startswith("-") or base(n) in used or os.path.isdir(os.path.join(d, n)):
            n = r.choice(["x", "./"]) + "z%d" % r.randrange(1000) + ext
        if kind == "none" and suffix(n) >= 0:
            n += "x"
        used.add(base(n))
        if kind in ("c", "wrong"):
            fs.append((n, source(r, k, kind == "wrong")))
        elif kind == "i":
            fs.append((n, "int ma_%d = 7;\n#line 5 \"zz\"\nint f_%d(int a) { return a; }\n" % (k, k)))
        elif kind == "wrongi":
            fs.append((n, "int ma_%d = 7 8;\n" % k))
        elif kind == "dir":
            os.makedirs(os.path.join(d, n), exist_ok=True)
        elif kind == "empty":
            fs.append((n, ""))
        elif kind != "missing":
            fs.append((n, "something\n"))
        out.append((n, k, kind))
    write_files(d, fs)
    return out, hv


def reldirs(hv, name, h, incs, angled, text):
    """value of the header: the directory of the source, then -I in order"""
    src = name.rsplit("/", 1)[0] + "/" if "/" in name else ""
    norm = lambda p: "" if os.path.normpath(p or ".") == "." else os.path.normpath(p) + "/"
    if not angled and (norm(src), h) in hv:
        return hv[(norm(src), h)]
    for i in incs:
        if (norm(i), h) in hv:
            return hv[(norm(i), h)]
    return None


def c36_one(seed):
    r = random.Random("C36-%d" % seed)
    top = tempfile.mkdtemp(dir=W.tmp)
    st = {"commands": 0, "kinds": {}, "compiled": 0}
    bad = None
    for rep in range(5):
        d = os.path.join(top, "d%d" % rep)
        os.makedirs(d)
        tree, hv = make_tree(r, d)
        tmp = os.path.join(d, "tmp")
        if r.random() < .15:
            tmp = os.path.join(tmp, *(["long" * r.choice([1, 20, 60])] * r.choice([1, 4, 12])))
            if len(tmp) > 3900:
                tmp = os.path.join(d, "tmp")
            os.makedirs(tmp, exist_ok=True)
        tools = W.kinds[r.choice(["plain", "plain", "asan"])]
        # ---- options
        macros = {}
        opts, incs = [], []
        eflag = False
        ignored = 0
        focus = r.random() < .15                    # the same options again and again
        for _ in range(r.choice([0, 1, 2, 4, 7, 12])):
            m = r.choice(["MA", "MB"])
            k = r.randrange(7 if focus else 17)
            if k < 2:
                v = r.choice([5, 5, 42, r.randrange(1000)])
                opts.append(r.choice(["-D%s=%d", "-D%s=%d", "-D%s=%d", "-D%s=(%d)", "-Wp-D%s=%d"]) % (m, v))
                macros[m] = v
            elif k == 2:
                opts.append("-D" + m)
                macros[m] = 1
            elif k == 3:
                opts.append("-U" + m)
                macros.pop(m, None)
            elif k < 7:
                i = os.path.join(d, r.choice(["inc1", "inc2", "sub/inc3"]))
                opts.append("-I" + i)
                incs.append(os.path.relpath(i, d))
            elif k == 7 and not eflag:
                opts.append("-E")
                eflag = True
            elif k == 8:
                opts.append(r.choice(["-w", "-A", "-Wf-g", "-S", "-N", "-c", "-v", "-g", "-n"]))
            elif k == 9:
                opts.append(r.choice(["-O", "-z", "-foo", "-Wz", "-lx", "-static", "-G", "-"]))
            elif k == 10:
                opts += ["-target", "bytecode"]
            elif k == 11:
                opts.append("-tempdir=" + tmp)
            elif k == 12:
                opts.append("-Wf-target=bytecode")
        if "-v" in opts and "-G" in opts:
            opts.remove("-G")
        # redefinition of a macro is an error of q3cpp unless the text is the same: keep one -D for each
        seen = set()
        for i, o in enumerate(list(opts)):
            m = re.match(r"-(?:Wp-)?([DU])(M[AB])", o)
            if m and m.group(1) == "U":
                seen.discard(m.group(2))
            elif m and m.group(2) in seen:
                opts[i] = "-w"
            elif m:
                seen.add(m.group(2))
        macros = {}
        for o in opts:
            m = re.match(r"-(?:Wp-)?([DU])(M[AB])(?:=\(?(\d+)\)?)?$", o)
            if m and m.group(1) == "D":
                macros[m.group(2)] = int(m.group(3)) if m.group(3) else 1
            elif m:
                macros.pop(m.group(2), None)
        names = [n for n, k, kind in tree]
        pos = sorted(r.randrange(len(opts) + 1) for _ in names)
        # ---- -o
        out = None
        want = 0                       # exit status
        nf = sum(suffix(n, 3) >= 0 for n in names)
        tail = []
        refuse = False
        if r.random() < .4:
            o = r.choice(["out.asm", "sub/out.asm", "out", "s p/o.q", "out.o", "nodir/out.asm", "-o.asm", "old.asm", "out.c", "out.i", "tmp", None])
            if o is None:
                tail = ["-o"]
                refuse = True
            else:
                opts_o = ["-o", o]
                refuse = suffix(o, 2) >= 0
                if nf == 1:
                    out = o
                if r.random() < .5:
                    tail = opts_o
                else:
                    opts = opts_o + opts
                    pos = [p + 2 for p in pos]
            if o == "old.asm":
                open(os.path.join(d, o), "w").write("old")
        args = list(opts)
        for p, n in sorted(zip(pos, names), key=lambda x: -x[0]):
            # not between -target and its argument
            while p > 0 and args[p - 1:p] in (["-target"],):
                p -= 1
            args.insert(p, n)
        names = [a for i, a in enumerate(args) if a in names and not (i and args[i - 1] == "-o")]
        args += tail
        kinds = {n: (k, kind) for n, k, kind in tree}
        # ---- model
        expect = {}                    # file -> None (any), or values
        gone = set()
        if refuse:
            want = 8
        else:
            for n in names:
                k, kind = kinds[n]
                o = out if out and suffix(n, 2) >= 0 else base(n) + ".asm"
                if kind == "missing":
                    want = 1
                elif eflag:
                    text = (read(os.path.join(d, n)) or b"").decode() if kind in ("c", "wrong") else ""
                    if kind == "dir" or '"h.h"' in text and reldirs(hv, n, "h", incs, False, text) is None \
                            or "<g.h>" in text and reldirs(hv, n, "g", incs, True, text) is None and reldirs(hv, n, "g", [], False, text) is None \
                            or kind == "wrong" and ("#error" in text or "nothing.h" in text or "#if 1" in text):
                        want = 1
                elif kind in ("wrong", "dir", "wrongi"):
                    want = 1
                    gone.add(os.path.normpath(o))
                elif kind in ("c", "i", "empty"):
                    if os.path.dirname(o) == "nodir" or o == "tmp":
                        want = 1
                    else:
                        v = {}
                        if kind == "c":
                            v = {"ma_%d" % k: macros.get("MA", -1), "mb_%d" % k: macros.get("MB", -2), "std_%d" % k: 1}
                            text = read(os.path.join(d, n)).decode()
                            v["hv_%d" % k] = v["gv_%d" % k] = 0
                            found = True
                            for h, a in (("h", False), ("g", True)):
                                if "#include " + ("<g.h>" if a else '"h.h"') in text:
                                    x = reldirs(hv, n, h, incs, a, text)
                                    if x is None and a:
                                        # q3cpp adds the directory of the source to the list
                                        x = reldirs(hv, n, h, [], False, text)
                                    if x is None:
                                        found = False
                                    v["%sv_%d" % (h, k)] = x
                            if not found:
                                want = 1
                                gone.add(os.path.normpath(o))
                                continue
                        elif kind == "i":
                            v = {"ma_%d" % k: 7}
                        if v is not None:
                            expect[os.path.normpath(o)] = v
        before = snapshot(d)
        cmd = [tools + "/lcc"] + args
        rc, so, se = run(cmd, d, 60, env_of(tmp, r))
        after = snapshot(d)
        st["commands"] += 1
        for n, k, kind in tree:
            st["kinds"][kind] = st["kinds"].get(kind, 0) + 1

        def fail(kind, what):
            return kind, "command %d.%d: lcc %s\nfiles %s: %s\n%s" % (seed, rep, " ".join(map(repr, args)), tree, what, brief(se, 600)), {n: t for n, t in after.items() if t and not n.startswith("tmp")} if False else {"files.txt": "\n".join("%s: %r" % (n, (t or b"")[:400]) for n, t in sorted(after.items()))}
        if rc is None or rc not in (0, 1, 8) or b"Sanitizer" in se or b"runtime error" in se:
            bad = fail("crash", "exit status %s" % rc)
        elif want is not None and rc != want:
            bad = fail("exit status", "exit status %d, should be %d" % (rc, want))
        elif rc and not se.strip():
            bad = fail("silent", "exit status %d without a message" % rc)
        else:
            left = [n for n in after if n not in before and n.startswith("tmp/") and n != os.path.normpath(out or "-")]
            changed = [n for n in before if n not in after or after[n] != before[n]]
            new = [n for n in after if n not in before and not n.startswith("tmp/")]
            allowed = set(expect)
            if left:
                bad = fail("temporary files", "temporary files are left: %s" % left)
            elif [n for n in changed if n not in allowed | gone]:
                bad = fail("files changed", "changed or removed: %s" % [n for n in changed if n not in allowed | gone])
            elif [n for n in new if n not in allowed]:
                bad = fail("files made", "unexpected files: %s" % [n for n in new if n not in allowed])
            elif [n for n in gone if n in after and n not in expect and after[n] != before.get(n)]:
                bad = fail("incomplete output", "output of a file that failed: %s" % [n for n in gone if n in after])
            else:
                for f, v in expect.items():
                    if f not in after:
                        bad = fail("output missing", "no %s" % f)
                        break
                    if f in gone or list(map(os.path.normpath, [out or base(n) + ".asm" for n in names if suffix(n, 2) >= 0])).count(f) > 1:
                        continue
                    got = values(after[f], v)
                    w = {x: y for x, y in v.items() if got.get(x) != y}
                    if w:
                        bad = fail("wrong options", "%s: values %s, should be %s" % (f, {x: got.get(x) for x in w}, w))
                        break
                    st["compiled"] += 1
            if not bad and eflag and want == 0:
                # the output of the preprocessor of all .c files (and unsuffixed ones), in order
                p = 0
                for n in names:
                    k, kind = kinds[n]
                    if kind == "c":
                        for m, dv in (("MA", -1), ("MB", -2)):
                            t = "%s_%d = " % (m.lower(), k)
                            i = so.find(t.encode(), p)
                            if i < 0:
                                bad = fail("preprocessor output", "no %r in the output, or in another order" % t)
                                break
                            p = i
            if not bad and not eflag and so.strip():
                bad = fail("stdout", "output on stdout: %s" % brief(so))
        shutil.rmtree(d, ignore_errors=True)
        if bad:
            break
    shutil.rmtree(top, ignore_errors=True)
    return st, bad


# ---------------------------------------------------------------- faults
STAND = {
    "fail": "exit %d",
    "fail after output": "eval \"f=\\${$#}\"; echo part > \"$f\"; exit %d",
    "killed": "kill -9 $$",
    "killed after output": "eval \"f=\\${$#}\"; echo part > \"$f\"; kill -9 $$",
    "segv": "kill -SEGV $$",
    "term": "kill -TERM $$",
}


def limit(n, ignore):
    def f():
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if ignore:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    return f


def c36_fault(seed):
    """a part fails: never success, never a half file"""
    r = random.Random("C36f-%d" % seed)
    top = tempfile.mkdtemp(dir=W.tmp)
    st = {"faults": 0, "fault_kinds": {}, "fault_refused": 0, "fault_unaffected": 0}
    bad = None
    tools = W.kinds[r.choice(["plain", "plain", "asan"])]
    for rep in range(4):
        d = os.path.join(top, "f%d" % rep)
        tmp = os.path.join(d, "tmp")
        os.makedirs(tmp)
        n = r.choice([1, 1, 2, 3])
        fs = [("x%d.c" % i, source(r, i).replace('#include "h.h"\n', "").replace("#include <g.h>\n", "") + "int last_%d = 3;\n" % i) for i in range(n)]
        write_files(d, fs)
        names = [f for f, t in fs]
        ref = {}
        for f in names:
            rc, o, e = run([tools + "/lcc", "-S", "-Wf-target=bytecode", "-o", "ref.asm", f], d, 60, env_of(tmp, r))
            ref[f] = read(os.path.join(d, "ref.asm"))
            os.unlink(os.path.join(d, "ref.asm"))
        kind = r.choice(["stand-in", "stand-in", "stand-in", "missing tool", "file size", "file size", "file size", "full device", "temporary directory", "full device -E", "signal", "q3asm", "q3asm", "many at once"])
        st["faults"] += 1
        st["fault_kinds"][kind] = st["fault_kinds"].get(kind, 0) + 1
        must_fail, kw, cmd = True, {}, [tools + "/lcc", "-S", "-Wf-target=bytecode"] + names
        what = kind
        env = env_of(tmp, r)
        victims = set(names)
        outs = {f: f[:-2] + ".asm" for f in names}
        reg = True
        if kind in ("stand-in", "missing tool"):
            b = os.path.join(d, "b")
            os.makedirs(b)
            for t in ("lcc", "q3cpp", "q3rcc"):
                os.symlink(os.path.join(tools, t), os.path.join(b, t))
            shutil.copy(os.path.join(tools, "lcc"), os.path.join(b, "real"))
            os.unlink(os.path.join(b, "lcc"))
            os.rename(os.path.join(b, "real"), os.path.join(b, "lcc"))
            t = r.choice(["q3cpp", "q3rcc"])
            p = os.path.join(b, t)
            os.unlink(p)
            if kind == "missing tool":
                if r.random() < .5:
                    write_files(b, [(t, "not a program")])
                    what += ": %s is not executable" % t
                else:
                    what += ": no " + t
            else:
                victim = r.choice(names)
                how = r.choice(list(STAND))
                s = STAND[how]
                if "%d" in s:
                    s = s % r.choice([1, 2, 3, 100, 127, 255])
                every = r.random() < .4
                victims = set(names) if every else {victim}
                if not every and t == "q3rcc":
                    # q3rcc sees temporary files: recognize the source by its content
                    s = "for a; do case \"$a\" in *.i) if grep -q 'last_%d' \"$a\"; then %s; fi;; esac; done; exec '%s' \"$@\"" % (int(victim[1:-2]), s, os.path.join(tools, t))
                elif not every:
                    s = "for a; do case \"$a\" in %s) %s;; esac; done; exec '%s' \"$@\"" % (victim, s, os.path.join(tools, t))
                write_files(b, [(t, "#!/bin/sh\n%s\n" % s)])
                os.chmod(p, 0o755)
                what += ": %s is a program that does '%s' for %s" % (t, how, sorted(victims))
            cmd[0] = os.path.join(b, "lcc")
            if r.random() < .4 and n == 1:
                outs[names[0]] = "o.asm"
                cmd += ["-o", "o.asm"]
        elif kind == "file size":
            big = max(len(x) for x in ref.values())
            k = r.choice([0, 1, 512, 4096, 8192, r.randrange(1, big + 2000), big - 1, big])
            ign = r.random() < .7
            kw = {"preexec_fn": limit(k, ign)}
            must_fail = False
            what += " limited to %d bytes%s (the output has %d)" % (k, ", signal ignored" if ign else "", big)
        elif kind == "full device":
            cmd += ["-o", "/dev/full"]
            victims = {names[0]} if n == 1 else set()
            must_fail = n == 1
            reg = n != 1
        elif kind == "full device -E":
            cmd = [tools + "/lcc", "-E"] + names
            kw = {"stdout": open("/dev/full", "wb")}
            reg = False
        elif kind == "temporary directory":
            x = r.choice([os.path.join(d, "none"), os.path.join(d, names[0]), "/dev/null", os.path.join(tmp, "n" * 300), os.path.join(tmp, *["n" * 250] * 18)])
            env = dict(ENV, TMPDIR=x, TMP=x, TEMP=x)
            what += " %.80s" % x
        elif kind == "signal":
            b = os.path.join(d, "b")
            os.makedirs(b)
            shutil.copy(os.path.join(tools, "lcc"), b)
            shutil.copy(os.path.join(tools, "q3cpp"), b)
            sig = r.choice([signal.SIGINT, signal.SIGTERM, signal.SIGHUP])
            write_files(b, [("q3rcc", "#!/bin/sh\nkill -%d $PPID\nsleep .3\nexit 0\n" % int(sig))])
            os.chmod(os.path.join(b, "q3rcc"), 0o755)
            cmd[0] = os.path.join(b, "lcc")
            what += " %s" % sig
        elif kind == "q3asm":
            bad = q3asm_fault(r, d, tools, names, ref, st)
        elif kind == "many at once":
            bad = at_once(r, d, tools, names, ref, env, tmp)
        if kind not in ("q3asm", "many at once"):
            if "stdout" in kw:
                p = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300, env=env, **kw)
                rc, e = p.returncode, p.stderr
                kw["stdout"].close()
            else:
                rc, o, e = run(cmd, d, 60, env, **kw)
            left = [f for f in os.listdir(tmp) if f != "n"]
            mk = lambda k2, w: (k2, "fault %d.%d (%s): lcc %s: %s\n%s" % (seed, rep, what, " ".join(cmd[1:]), w, brief(e)), {f: t.encode() for f, t in fs})
            if must_fail:
                st["fault_refused"] += 1
            if rc is None or rc < 0 or b"Sanitizer" in e:
                # a limit of the file size may end lcc itself (it writes no files): no
                bad = mk("crash", "exit status %s" % rc)
            elif must_fail and rc == 0:
                bad = mk("success reported", "exit status 0")
            elif left and kind != "file size":
                bad = mk("temporary files", "left: %s" % left)
            elif left:
                bad = mk("temporary files", "left: %s" % left)
            if not bad and reg:
                okall = True
                for f in names:
                    got = read(os.path.join(d, outs[f]))
                    if got is None:
                        okall = False
                        if f not in victims and rc != 100:
                            bad = mk("other files", "%s was not compiled" % f)
                    elif got != ref[f]:
                        okall = False
                        bad = mk("incomplete output", "%s has %d of %d bytes" % (outs[f], len(got), len(ref[f])))
                if not bad and rc == 0 and not okall:
                    bad = mk("success reported", "exit status 0, files %s" % os.listdir(d))
                if not bad and okall and kind == "file size":
                    st["fault_unaffected"] += 1
                    if rc != 0:
                        bad = mk("exit status", "everything was written, exit status %d" % rc)
        shutil.rmtree(d, ignore_errors=True)
        if bad:
            break
    shutil.rmtree(top, ignore_errors=True)
    return st, bad


def q3asm_fault(r, d, tools, names, ref, st):
    asm = []
    for f in names:
        write_files(d, [(f[:-2] + ".asm", ref[f])])
        asm.append(f[:-2] + ".asm")
    base = [tools + "/q3asm"] + r.choice([[], ["-v"], ["-m"], ["-vq3"], ["-m", "-vq3"]])
    rc, o, e = run(base + ["-o", "ref"] + asm, d, 60)
    good = read(os.path.join(d, "ref.qvm"))
    gmap = read(os.path.join(d, "ref.map"))
    if rc != 0 or good is None:
        return "q3asm", "reference run: exit status %s: %s" % (rc, brief(o + e)), {}
    how = r.choice(["size", "size", "full", "full map", "missing", "directory", "no directory", "file for directory", "list", "no input"])
    kw, cmd, must, res = {}, base + ["-o", "out"] + asm, True, "out.qvm"
    if how == "size":
        k = r.choice([0, 1, 100, 4096, r.randrange(len(good) + 200), len(good) - 1, len(good)])
        kw = {"preexec_fn": limit(k, True)}
        must = k < len(good)
        how += " %d of %d" % (k, len(good))
    elif how == "full":
        os.makedirs(os.path.join(d, "out.qvm", "x"))
    elif how == "full map":
        cmd = [tools + "/q3asm", "-m", "-o", "out"] + asm
        os.symlink("/dev/full", os.path.join(d, "out.map"))
    elif how == "missing":
        cmd.insert(r.randrange(len(base) + 2, len(cmd) + 1), "nothing.asm")
    elif how == "directory":
        os.makedirs(os.path.join(d, "dd.asm"))
        cmd.append("dd.asm")
    elif how == "no directory":
        cmd[len(base) + 1] = "nodir/more/out"         # q3asm makes the directories
        must, res = False, "nodir/more/out.qvm"
    elif how == "file for directory":
        cmd[len(base) + 1] = "x0.asm/out"
    elif how == "list":
        write_files(d, [("l.q3asm", "-o out\n" + "\n".join(asm) + "\nnothing\n")])
        cmd = base + ["-f", "l"]
    elif how == "no input":
        cmd = base + ["-o", "out"]
    rc, o, e = run(cmd, d, 60, **kw)
    what = "q3asm fault (%s): %s: exit status %s: %s" % (how, " ".join(cmd[1:]), rc, brief(o + e))
    x = os.path.join(d, res)
    got = read(x) if os.path.isfile(x) else None
    st["q3asm_faults"] = st.get("q3asm_faults", 0) + 1
    if rc is None or rc < 0 or b"Sanitizer" in e:
        return "crash", what, {}
    if must and rc == 0:
        return "success reported", what, {}
    if not must and rc == 0 and got != good:
        return "incomplete output", what, {}
    if not must and rc != 0 and "-m" not in base:
        return "exit status", what, {}
    return None


def at_once(r, d, tools, names, ref, env, tmp):
    """several lcc at the same time, in one directory, with one directory for temporary files"""
    ps = []
    for i in range(12):
        f = names[i % len(names)]
        ps.append((i, f, subprocess.Popen([tools + "/lcc", "-S", "-Wf-target=bytecode", "-o", "p%d.asm" % i, f], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    for i, f, p in ps:
        o, e = p.communicate(timeout=300)
        if p.returncode != 0 or read(os.path.join(d, "p%d.asm" % i)) != ref[f]:
            [q.wait() for _, _, q in ps]
            return "at once", "12 lcc at once: number %d: exit status %s, %s: %s" % (i, p.returncode, f, brief(e)), {}
    if os.listdir(tmp):
        return "temporary files", "12 lcc at once leave %s" % os.listdir(tmp), {}
    return None


def c36(c):
    prepare(c, ("plain", "asan"), native=False)
    stats = {}
    jobs = [(c36_one, c.seed * 1000000 + i) for i in range(c.scale(220, 6000))]
    jobs += [(c36_fault, c.seed * 1000000 + i) for i in range(c.scale(170, 4500))]
    random.Random(c.seed).shuffle(jobs)
    collect(c, jobs, stats)
    c.finish("exploration", {
        "evaluations": stats.get("commands", 0) + stats.get("faults", 0), "commands": stats.get("commands", 0), "files_of_commands": stats.get("kinds", {}), "outputs_compared": stats.get("compiled", 0),
        "faults": stats.get("faults", 0), "kinds_of_faults": stats.get("fault_kinds", {}), "faults_that_must_be_reported": stats.get("fault_refused", 0) + stats.get("q3asm_faults", 0),
    }, ["the checks run as root: files without permission to read are not tested"])


CHECKS = {"C36": c36}
