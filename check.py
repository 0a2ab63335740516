#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on the current tree of /repo."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine/py"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import common

def guard():
    # a construct on which the analysis explodes is undecided, never an alarm
    import resource, signal
    lim = int(os.environ.get("VERIF_MEM", str(12 << 30)))
    resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))
    def stop(*a): raise TimeoutError("time budget of the check exhausted")
    signal.signal(signal.SIGALRM, stop); signal.alarm(int(os.environ.get("VERIF_TIME", "780")))

def main():
    guard()
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rep = common.Report(pid, tier)
    try:
        m = importlib.import_module(pid.lower())
        expl, rule = m.main(rep)
    except Exception as e:
        # a construct the analysis cannot follow decides nothing: it is reported as undecided, not as an alarm
        traceback.print_exc(file=sys.stdout); rep.undec("analysis", "%s: %s" % (type(e).__name__, e))
        expl, rule = "the analysis stopped early, see the undecided items", "-"
    return rep.finish(expl, rule)
sys.exit(main())
