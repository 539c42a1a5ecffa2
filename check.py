#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib
import vmchecks
import asmchecks
import lccchecks
import cppchecks
import fuzzchecks
import errchecks
import warnchecks
import drvchecks
import hostchecks
import libchecks

MODULES = [vmchecks, asmchecks, lccchecks, cppchecks, fuzzchecks, errchecks, warnchecks, drvchecks, hostchecks, libchecks]


# whatever ignores signals where this runs, the programs under test start with
# the default actions
for sig in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT, signal.SIGALRM, signal.SIGCHLD):
    signal.signal(sig, signal.SIG_DFL)
signal.pthread_sigmask(signal.SIG_SETMASK, [])


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--replay-vm":
        vmchecks.replay(sys.argv[2:])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    fn = None
    for m in MODULES:
        fn = fn or m.CHECKS.get(prop)
    if not fn:
        print("unknown property", prop)
        return 2
    try:
        fn(vlib.Check(prop, tier))
    except vlib.BuildError as e:
        print("build failed:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
