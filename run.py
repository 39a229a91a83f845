#!/usr/bin/env python3
"""run.py ID: the check of one property. See DESIGN.md."""
import os, sys, shutil, importlib, traceback, glob

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
pid = sys.argv[1]
if sys.argv[2:] == ["thorough"]:
    os.environ["VERIF_TIER"] = "thorough"
os.environ.setdefault("VERIF_BUILD", os.path.join(here, ".build", pid))
sys.dont_write_bytecode = True
from vlib import build, core


def main():
    build.lock()
    fn = None
    for f in sorted(glob.glob(os.path.join(here, "vlib", "checks_*.py"))):
        m = importlib.import_module("vlib." + os.path.basename(f)[:-3])
        fn = m.CHECKS.get(pid, fn)
    if fn is None:
        print("no check for", pid)
        return 2
    ctx = core.Ctx(pid)
    try:
        fn(ctx)
    except core.Violation:
        pass
    except Exception as e:
        if ctx.violation is None:
            traceback.print_exc()
            print("ERROR property=%s %s" % (pid, str(e)[-300:]))
            return 3
        print("(after the violation: %s)" % str(e)[:300], file=sys.stderr)
    rc = core.finish(ctx)
    return rc


rc = main()
if os.environ.get("VERIF_KEEP") is None:
    shutil.rmtree(os.environ["VERIF_BUILD"], ignore_errors=True)
sys.exit(rc)
