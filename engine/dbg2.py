import sys
import interp; from interp import *
P=Program('/tmp/facts'); k=P.find_root('session::tokio::run_session'); sys.setrecursionlimit(900)
I=Interp(P,k,opaque=lambda n,f:n.startswith('session::session::Session::'))
import traceback
try: o=I.run(); print(len(o))
except RecursionError as e: 
    tb=traceback.format_exc().split('\n'); print('\n'.join(tb[-50:]))
