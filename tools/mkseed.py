#!/usr/bin/env python3
"""mkseed.py FILE...: creates seeded/<id>/ from definitions (tools/seed/*.py are
lists of dicts: id, property, edits [(file, old, new)], needs, breaks, demo files)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sd = os.path.join(here, "seed")


def make(s):
    d = os.path.join(root, "seeded", s["id"])
    t = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x" % (t, t), shell=True)
        for f, old, new in s["edits"]:
            p = os.path.join(t, f)
            x = open(p, encoding="latin-1", newline="").read()
            if x.count(old) != 1:
                raise SystemExit("%s: %d matches of %r in %s" % (s["id"], x.count(old), old, f))
            open(p, "w", encoding="latin-1", newline="").write(x.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t, "diff"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        for name, content in s["files"].items():
            open(os.path.join(d, name), "w").write(content)
        for c in s.get("copy", []):
            shutil.copy(os.path.join(sd, c), os.path.join(d, "demo.sh" if c.startswith("demo_") else c))
    finally:
        shutil.rmtree(t)


for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        make(s)
        print(s["id"])
