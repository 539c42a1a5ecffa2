"""Shared driver code of the checks: builds, workers, verdicts, evidence."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JOBS = min(8, os.cpu_count() or 8)


class BuildError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        if os.path.isdir(p):
            for d, dirs, files in os.walk(p):
                dirs.sort()
                for f in sorted(files):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build(name, inputs, commands, output):
    """Run commands (list of argv lists; independent lists run in parallel if
    nested one level deeper) in a fresh directory, keyed by the content of
    inputs.  Returns the path of output.  '{out}' is replaced by the directory."""
    key = hashlib.sha256((tree_hash(inputs) + json.dumps(commands) + name).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, name + "-" + key)
    target = os.path.join(d, output)
    if os.path.exists(os.path.join(d, ".ok")):
        return target
    os.makedirs(BUILD, exist_ok=True)
    # drop older builds of the same thing
    for e in os.listdir(BUILD):
        if e.rsplit("-", 1)[0] == name:
            shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix=name + "-")

    def one(cmd):
        cmd = [c.replace("{out}", tmp) for c in cmd]
        r = sh(cmd, cwd=tmp)
        if r.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-3000:]))

    try:
        for step in commands:
            if step and isinstance(step[0], list):
                with cf.ThreadPoolExecutor(JOBS) as ex:
                    list(ex.map(one, step))
            else:
                one(step)
        open(os.path.join(tmp, ".ok"), "w").close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return target


def build_all(thunks):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(t) for t in thunks]
        return [f.result() for f in fs]


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.violations = []
        self.findings = []
        self.notes = []
        self.tmp = tempfile.mkdtemp(prefix="v_%s_" % prop)
        self.out = os.path.join(VERIF, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        self.known = self._load_known()
        self.known_hit = set()

    def _load_known(self):
        """known-findings.txt: 'finding: property=<id> key=<key> <text>' lines
        are matched by property and key; 'fixed:' lines suppress nothing."""
        r = {}
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + self.prop and w[2].startswith("key="):
                    r[w[2][4:]] = w[3].strip()
        return r

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, kind, detail, files=None, key=None):
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
            return
        n = len(self.violations)
        if n >= 20:
            return
        d = os.path.join(self.out, str(n))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "report.txt"), "w") as f:
            f.write("property %s, seed %d\n%s: %s\n" % (self.prop, self.seed, kind, detail))
        for name, content in (files or {}).items():
            if isinstance(content, str):
                content = content.encode(errors="replace")
            with open(os.path.join(d, name), "wb") as f:
                f.write(content)
        self.violations.append((kind, detail, d))

    def finish(self, level, coverage, assumptions=()):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": coverage, "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for kind, detail, d in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("  %s: %s" % (kind, detail[:600]))
        print("%s: %d evaluations, %d violations, %.1f s" % (
            self.prop, coverage.get("evaluations", coverage.get("programs", 0)), len(self.violations), time.time() - self.t0))
        sys.stdout.flush()
        os._exit(1 if self.violations else 0)


def group_cpu(pgid):
    """processor time of a process group, in seconds"""
    t = 0
    for f in glob.glob("/proc/[0-9]*/stat"):
        try:
            w = open(f).read().rsplit(")", 1)[1].split()
        except (OSError, IndexError):
            continue
        if int(w[2]) == pgid:
            t += sum(map(int, w[11:15]))
    return t / os.sysconf("SC_CLK_TCK")


def wait_limited(p, stdin, timeout):
    """-> rc (None: timeout), stdout, stderr of a process that leads a group of
    its own. The time limit is for the processor time (and five times as much
    for the real time): a busy machine makes no difference."""
    for n in range(5):
        try:
            o, e = p.communicate(stdin, timeout=timeout)
            return p.returncode, o, e
        except subprocess.TimeoutExpired:
            if group_cpu(p.pid) > timeout * .8:
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    o, e = p.communicate()
    return None, o, e


def run_limited(cmd, timeout, env=None, cwd=None, stdin=None, mem=None):
    """Run in an own process group, kill the group on timeout.
    Returns (returncode or None on timeout, stdout, stderr)."""
    def pre():
        os.setsid()
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=pre)
    return wait_limited(p, stdin, timeout)


def merge_stats(total, s):
    for k, v in s.items():
        if isinstance(v, dict):
            merge_stats(total.setdefault(k, {}), v)
        elif isinstance(v, list):
            total.setdefault(k, []).extend(v)
        elif isinstance(v, (int, float)):
            total[k] = total.get(k, 0) + v
        else:
            total[k] = v


def san_summary(err):
    """The interesting lines of a sanitizer report."""
    t = err.decode(errors="replace") if isinstance(err, bytes) else err
    keep = [l for l in t.splitlines() if "ERROR:" in l or "WARNING: Thread" in l or "runtime error" in l or "SUMMARY" in l or l.strip().startswith("#0") or l.strip().startswith("#1")]
    return " | ".join(x.strip() for x in keep[:6]) or t[-400:]
