#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   --   exit 0 held, 1 violation"""
import importlib, os, resource, signal, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import lib
class TimeUp(Exception): pass

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if pid == "setup":
        lib.build_program(); print("setup ok"); return 0
    mod = importlib.import_module(pid)
    rep = lib.Report(pid, tier)
    p = lib.build_program()
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    cap = 20 << 30
    resource.setrlimit(resource.RLIMIT_AS, (cap if hard == resource.RLIM_INFINITY else min(cap, hard), hard))
    limit = int(os.environ.get("AS_LIMIT", "700"))
    def late(sig, frm): raise TimeUp("time limit of %d s" % limit)
    signal.signal(signal.SIGALRM, late); signal.alarm(limit)
    try:
        mod.run(p, rep)
    except Exception as e:
        # what was found so far stands; the rest is not decided
        traceback.print_exc()
        rep.ob("analysis_incomplete"); rep.assumptions.append("analysis incomplete: %s" % (str(e) or type(e).__name__))
        print("INCOMPLETE: %s" % (str(e) or type(e).__name__))
    signal.alarm(0)
    return lib.finish(rep)
sys.exit(main())
