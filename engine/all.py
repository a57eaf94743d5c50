import sys,time
from interp import *
P=Program(sys.argv[1])
tot=0
for k in P.roots:
    if len(sys.argv)>2 and sys.argv[2] not in k: continue
    t=time.time(); I=Interp(P,k,opaque=(lambda n,f:n.startswith('session::session::Session::')) if 'tokio' in k or 'run_sync' in k else None)
    try:
        o=I.run(); 
        dt=time.time()-t
        pan=[x for x in o if x.kind=='panic']
        print("%6d outs %4d pan %6.2fs %s %s"%(len(o),len(pan),dt,k.split('#[')[0], set(p.info[1] for p in pan)))
    except Exception as e:
        import traceback
        print("FAIL",k.split('#[')[0],type(e).__name__,str(e)[:200]); tot+=1
        if len(sys.argv)>2: traceback.print_exc()
print(tot,"failures")
