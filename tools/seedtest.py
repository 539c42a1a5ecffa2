#!/usr/bin/env python3
"""seedtest.py [--nocheck] [--tests] [ID...]: confirms planted bugs in copies of
/repo and /verif that are mounted over them in a user namespace: the demo passes
on the clean tree and fails with the patch, the tests pass with the patch, and
the property's check reports a violation."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = [a for a in sys.argv[1:] if a.startswith("--")]
ids = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
jobs = 2
for f in flags:
    if f.startswith("--jobs="):
        jobs = int(f[7:])
NAMES = json.load(open("/opt/vp/BASELINE.json"))


def one(i):
    sd = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    base = "/tmp/st_" + i
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        subprocess.check_call(["cp", "-a", "/repo", base + "/repo"])
        os.makedirs(base + "/verif")
        subprocess.check_call("cd %s && git ls-files -co --exclude-standard | grep -v ^seeded/ | tar -c -T - | tar -x -C %s/verif" % (ROOT, base), shell=True)
        os.makedirs(base + "/demo")
        shutil.copy(os.path.join(sd, 'patch.diff'), base + '/patch.diff')
        for f in os.listdir(sd):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(sd, f), base + "/demo/")
        ns = ["unshare", "-Urm", "bash", "-c"]
        pre = "mount --bind %s/repo /repo; mount --bind %s/verif /verif; " % (base, base)
        res = {}

        def run(name, cmd, timeout=900):
            try:
                r = subprocess.run(ns + [pre + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                rc, o = r.returncode, r.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                rc, o = -1, "timeout"
            open(base + "." + name + ".log", "w").write(o)
            res[name] = rc
            return rc, o
        run("build0", "bash /opt/vp/build.sh")
        run("demo0", "cd /repo && bash %s/demo/demo.sh" % base, 300)
        rc, o = run("apply", "git config --global --add safe.directory '*' 2>/dev/null; cd /repo && git -c safe.directory='*' apply %s/patch.diff" % base)
        if rc:
            return i, "patch does not apply: " + o[:200]
        if run("build1", "bash /opt/vp/build.sh")[0]:
            return i, "does not build"
        run("demo1", "cd /repo && bash %s/demo/demo.sh" % base, 300)
        msg = "demo %s/%s" % (res["demo0"], res["demo1"])
        bad = res["demo0"] != 0 or res["demo1"] == 0
        if "--tests" in flags:
            run("test", "bash /opt/vp/test.sh %s/t.json" % base)
            t = json.load(open(base + "/t.json"))
            msg += ", %d tests failed" % len(t["failed"])
            bad = bad or t["failed"] or len(t["passed"]) != 14
        if "--nocheck" not in flags:
            rc, o = run("check", "cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick" % meta["property"])
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
            caught = rc == 1 and v
            d = o.splitlines()
            detail = d[d.index(v[0]) + 1].strip()[:160] if caught else o[-200:].replace("\n", " ")
            msg += ", %s: %s" % ("caught" if caught else "MISSED rc=%s" % rc, detail)
        return i, ("NOT VALID: " if bad else "ok: ") + msg
    finally:
        shutil.rmtree(base, ignore_errors=True)


with cf.ThreadPoolExecutor(jobs) as ex:
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)
