#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] | --setup | --all | --list"""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))


def main():
    import engine, registry
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if args == ["--list"]:
        for p in registry.PROPS:
            print(p, registry.PROPS[p]["title"])
        return 0
    try:
        if args == ["--setup"]:
            t = time.time()
            P = engine.program()
            print("setup: %d units, %d functions, %d records in %.0f s" % (len(P.units), len(P.fns), len(P.recs), time.time() - t))
            return 0
        ids = list(registry.PROPS) if args == ["--all"] else args
        rc = 0
        for pid in ids:
            rc = max(rc, engine.run(pid, registry.PROPS[pid], tier, seed))
        return rc
    except engine.AnalysisError as e:
        print("analysis error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
