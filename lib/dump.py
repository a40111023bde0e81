"""debug aid: dump the facts of functions whose qualified name contains an argument"""
import sys, json
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import prog
def main():
    sel = None
    if len(sys.argv) > 2:
        sel = lambda r, c: any(s in r for s in sys.argv[2:])
    P = prog.Program(sel)
    for f in P.fns.values():
        if sys.argv[1] in f.q:
            r = {k: v for k, v in f.r.items() if k not in ("b", "n")}
            print("====", json.dumps(r))
            for i, n in enumerate(f.n):
                print("   n%d %s" % (i, json.dumps(n)))
            for b in f.blocks.values():
                print("   B%s" % json.dumps(b))
if __name__ == "__main__":
    main()
