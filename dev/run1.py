"""run1.py PID [substring] [chars] [timeout]: run proof cases, each in its own process with a time limit"""
import sys; sys.path.insert(0,"/verif")
import importlib, multiprocessing as mp, time, traceback, signal
from pyvc import session
sys.setrecursionlimit(20000)
m=importlib.import_module("contracts.p_"+sys.argv[1])
T=int(sys.argv[4]) if len(sys.argv)>4 else 60
class TO(BaseException): pass
def work(k, q):
    c,f=m.PROOFS[k]
    def h(*a):
        f=traceback.extract_stack()
        q.put((k,"TIMEOUT "+" < ".join("%s:%d"%(x.name,x.lineno) for x in reversed(f[-60:]))))
        import os; time.sleep(0.3); os._exit(1)
    signal.signal(signal.SIGALRM,h); signal.alarm(T)
    q.put((k,session.run_case(sys.argv[1],c,f)))
todo=[k for k,(c,f) in enumerate(m.PROOFS) if len(sys.argv)<=2 or sys.argv[2] in c]
ctx=mp.get_context("fork"); run={}
tot=ok=0
while todo or run:
    while todo and len(run)<7:
        k=todo.pop(0); q=ctx.Queue(); p=ctx.Process(target=work,args=(k,q),daemon=True); p.start(); run[k]=(p,q,time.time())
    for k,(p,q,t) in list(run.items()):
        try: r=q.get(timeout=0.05)[1]
        except Exception:
            if p.is_alive() and time.time()-t<T+20: continue
            p.kill(); r="DIED"
        del run[k]
        if isinstance(r,str): print(m.PROOFS[k][0],r[:1200],flush=True); tot+=1; continue
        bad=[o for o in r["obligations"] if o["status"]!="discharged"]
        tot+=len(r["obligations"]); ok+=len(r["obligations"])-len(bad)
        print(r["case"],len(r["obligations"]),len(bad),r["wall_s"],r["solver_s"],r["queries"],flush=True)
        for o in bad: print("   ",o["name"],o["status"],o["reason"][:int(sys.argv[3]) if len(sys.argv)>3 else 300])
print("discharged",ok,"of",tot)
