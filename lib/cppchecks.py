"""C31: the preprocessor."""
import random
import re

import cppgen
from asmchecks import pool_run, write_files, read
from lccchecks import W, scratch, collect, prepare, brief
from lcctools import *

LIMITS = [("Input buffer overflow", lambda files, ref: any(len(x) > 12000 for f in files.values() for x in re.split(r"\n(?:MARK|#)", f))),
          ("Stringified macro arg is too long", lambda files, ref: any(t[0][0] == '"' and len(t[0]) > 350 for t in ref))]


def norm(ts):
    """token texts; strings whose white space is not judged lose it, names of files are normalized"""
    out, strict = [], 0
    for t, f, n in ts:
        if t == "STRICT":
            strict = 4
        if t[0] == '"':
            if re.search(r'\.[ch]"$', t):
                t = os.path.normpath(t[1:-1])
            elif not strict:
                t = t.replace(" ", "")
        if strict:
            strict -= 1
        out.append(t)
    return out


def toks(b):
    return [x for x in cppgen.tokens(b.decode("latin-1")) if not x[1].startswith("<")]


def reference(cc, d, opts, name, slash):
    o = ["-std=" + ("gnu90" if slash else "c90"), "-trigraphs", "-undef", "-nostdinc"] + opts + [name]
    o = (["-Wpedantic"] if slash else ["-pedantic-errors"]) + o
    return run([cc, "-E"] + o, d, 30)


def compare(d, opts, name, slash, files, tools, st, dense=True):
    """-> (kind, detail) or None"""
    rc, go, ge = reference("gcc", d, opts, name, slash)
    if rc != 0 or b"empty macro arguments" in ge or b" redefined" in ge:
        st["invalid"] = st.get("invalid", 0) + 1
        return None
    rc, q, e = run([tools + "/q3cpp", "-D__STDC__=1"] + opts + [name], d, 30)
    a = toks(go)
    if rc == 99 or b"Sanitizer" in e or b"runtime error" in e:
        return "memory", brief(e, 1500)
    if rc is None:
        if len(go) > 300000:
            st["beyond_limits"] = st.get("beyond_limits", 0) + 1
            return None
        return "hang", "no end after 30 s"
    if rc != 0:
        t = e.decode("latin-1")
        for m, f in LIMITS:
            if m in t and f(files, a):
                st["beyond_limits"] = st.get("beyond_limits", 0) + 1
                return None
        if b"Disagreement in number" in e and not dense:
            st["invalid"] = st.get("invalid", 0) + 1
            return None
        rc2, lo, le = reference("clang", d, opts, name, slash)
        if rc2 != 0 or b"empty macro argument" in le:
            st["unconfirmed"] = st.get("unconfirmed", 0) + 1
            return None
        return "rejected", "exit status %s: %s" % (rc, brief(t))
    b = toks(q)
    na, nb = norm(a), norm(b)
    pos = [(i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x[0].startswith("MARK") and (x[2] != y[2] or os.path.normpath(x[1]) != os.path.normpath(y[1]))]
    if na != nb or pos:
        rc, lo, le = reference("clang", d, opts, name, slash)
        l = toks(lo)
        if rc != 0 or norm(l) != na or [x[1:] for x in l if x[0].startswith("MARK")] != [x[1:] for x in a if x[0].startswith("MARK")] and na == nb:
            st["unconfirmed"] = st.get("unconfirmed", 0) + 1
            return None
    if na != nb:
        i = next((i for i in range(min(len(na), len(nb))) if na[i] != nb[i]), min(len(na), len(nb)))
        return "tokens", "token %d (line %s) differs: expected .. %s .., got .. %s .." % (i, a[i][1:] if i < len(a) else "-", " ".join(na[max(0, i - 3):i + 5]), " ".join(nb[max(0, i - 3):i + 5]))
    if pos:
        i, x, y = pos[0]
        return "position", "%s stands in %s:%d, but is attributed to %s:%d" % (x[0], x[1], x[2], y[1], y[2])
    st["tokens"] = st.get("tokens", 0) + len(a)
    st["positions"] = st.get("positions", 0) + sum(x[0].startswith("MARK") for x in a)
    st["compared"] = st.get("compared", 0) + 1
    return None


def c31_one(seed):
    r = random.Random("C31-%d" % seed)
    g = cppgen.Gen(r)
    files, opts = g.program()
    d = tempfile.mkdtemp(dir=W.tmp)
    for x in ("inc1", "inc2"):
        os.mkdir(os.path.join(d, x))
    write_files(d, [(f, t) for f, t in files.items()])
    st = {"programs": 1, "features": dict(g.stat)}
    k = r.choice(["plain", "plain", "asan", "msan"])
    st["build_" + k] = 1
    bad = compare(d, opts, "m.c", g.slash, files, W.kinds[k], st, g.dense)
    shutil.rmtree(d, ignore_errors=True)
    return st, (bad[0], "program %d (q3cpp %s m.c): %s" % (seed, " ".join(opts), bad[1]), {f.replace("/", "_"): t.encode("latin-1") for f, t in files.items()}) if bad else None


def c31_corpus(name):
    """sources of the repository, with empty system headers"""
    st = {"corpus": 1}
    d = tempfile.mkdtemp(dir=W.tmp)
    t = read(os.path.join(REPO, name)).decode("latin-1")
    base = os.path.basename(name)
    for h in set(re.findall(r'(?m)^[ \t]*#[ \t]*include[ \t]*[<"]([^">]*)[>"]', t)):
        p = os.path.join(REPO, os.path.dirname(name), h)
        os.makedirs(os.path.dirname(os.path.join(d, "inc", h)), exist_ok=True)
        x = ""
        if os.path.exists(p):
            x = re.sub(r'(?m)^[ \t]*#[ \t]*include[ \t]*[<"].*', "", read(p).decode("latin-1"))
        write_files(d, [("inc/" + h, x)])
    files = {base: t}
    write_files(d, [(base, t)])
    bad = compare(d, ["-Iinc", "-DQ3_VM", "-DNDEBUG"], base, True, files, W.kinds["asan"], st)
    shutil.rmtree(d, ignore_errors=True)
    return st, (bad[0] + " " + name, "%s: %s" % (name, bad[1]), {base: t.encode("latin-1")}) if bad else None


def corpus_files():
    r = []
    for p, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if not x.startswith(".") and x not in ("build", "doc", "zig-cache")]
        r += [os.path.relpath(os.path.join(p, f), REPO) for f in fs if f.endswith((".c", ".h"))]
    return sorted(r)


def c31(c):
    prepare(c, ("plain", "asan", "msan"), native=False)
    stats = {}
    n = c.scale(1800, 60000)
    jobs = [(c31_corpus, f) for f in corpus_files()] + [(c31_one, c.seed * 1000000 + i) for i in range(n)]
    collect(c, jobs, stats)
    c.finish("exploration", {
        "evaluations": stats.get("tokens", 0), "programs": stats.get("programs", 0), "repository_sources": stats.get("corpus", 0), "compared": stats.get("compared", 0),
        "tokens_compared": stats.get("tokens", 0), "positions_compared": stats.get("positions", 0), "invalid_discarded": stats.get("invalid", 0),
        "unconfirmed_discarded": stats.get("unconfirmed", 0), "beyond_limits": stats.get("beyond_limits", 0),
        "asan_runs": stats.get("build_asan", 0), "msan_runs": stats.get("build_msan", 0), "features": stats.get("features", {}),
    }, ["what gcc and clang agree on is what C90 prescribes", "logical lines beyond 12000 and strings beyond 350 characters may exceed limits of q3cpp"])


CHECKS = {"C31": c31}
