import sys, time
from terms import *
import interp
from interp import *
if __name__ == "__main__":
    P = Program(sys.argv[1]); k = P.find_root(sys.argv[2]) 
    op = set(sys.argv[3].split(",")) if len(sys.argv) > 3 else set()
    t=time.time(); I = Interp(P, k, opaque=lambda n, fn: n in op or n.split("::")[-1] in op)
    outs = I.run()
    for o in outs:
        print("----", o.kind, o.info or "")
        if o.val is not None: print("  ret:", pretty(o.val)[:1500])
        for kk,v in o.st.facts.items():
            if isinstance(kk,T): print("   ", "" if v else "NOT", pretty(kk)[:400])
            else: print("    forall", pretty(kk[1])[:200], [ [ ("" if b else "!")+pretty(t)[:200] for t,b in c] for alt in v for c in alt])
        for kk,v in o.st.env.items():
            if kk[0]=='arg': print("   post", kk, pretty(v)[:600])
        if len(sys.argv)>4:
            for e in o.st.events(): print("     ev", str(e)[:300])
    print(len(outs), "outcomes", time.time()-t, "s")
