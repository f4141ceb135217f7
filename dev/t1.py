import sys; sys.path.insert(0,"/verif")
import z3
from pyvc.core import *
from pyvc import env
from pyvc.interp import *
I=env.make()
NV=z3.Int("NV"); M=z3.Int("M")
I.assume(NV>=1); I.assume(M>=0)
X=z3.Function("X",z3.IntSort(),z3.RealSort()); V=z3.Function("V",z3.IntSort(),z3.IntSort(),z3.RealSort())
def seq(n,f,b="i"):
    i=fresh_int(b); return (Gen(n,i,(Unit(f(i)),)),)
def fl(t): return Sc("float",t)
def nm(f,flags=("nonl","stripped","nobrace","noquote","noctl")): return lambda i: Text((Atom(f,(i,),flags),))
from pyvc.core import fresh_int
L=lambda s: I.new_list(s)
def mk():
    d={}
    d["X"]=L(seq(M,lambda i: fl(X(i))))
    d["V"]=L(seq(NV,lambda n: LV(seq(M,lambda m: fl(V(n,m))))))
    d["NV"]=Sc("int",NV); d["NIV"]=1; d["FFI"]=1001; d["NLHEAD"]=Sc("int",z3.Int("NLHEAD"))
    fs=lambda s: Text((Atom(s,(),{"nonl","stripped","nobrace","noquote","noctl","nonempty"}),))
    for k in ("ONAME","ORG","SNAME","MNAME"): d[k]=fs(k)
    d["IVOL"]=Sc("int",z3.Int("IVOL"));d["NVOL"]=Sc("int",z3.Int("NVOL"))
    d["DATE"]=L([Unit(Sc("int",z3.Int("DATE%d"%i))) for i in range(3)])
    d["RDATE"]=L([Unit(Sc("int",z3.Int("RDATE%d"%i))) for i in range(3)])
    d["DX"]=L([Unit(fl(z3.Real("DX0")))])
    d["XNAME"]=L([Unit(fs("XNAME0"))])
    VS=z3.Function("VSCAL",z3.IntSort(),z3.RealSort());VM=z3.Function("VMISS",z3.IntSort(),z3.RealSort())
    d["VSCAL"]=L(seq(NV,lambda i: fl(VS(i))))
    d["VMISS"]=L(seq(NV,lambda i: fl(VM(i))))
    d["VNAME"]=L(seq(NV,nm("VNAME")))
    ns,nn=z3.Int("NSCOML"),z3.Int("NNCOML")
    I.assume(ns>=0);I.assume(nn>=0)
    d["NSCOML"]=Sc("int",ns);d["NNCOML"]=Sc("int",nn)
    d["SCOM"]=L(seq(ns,nm("SCOM")));d["NCOM"]=L(seq(nn,nm("NCOM")))
    return I.alloc(DictO(d))
d=mk()
def run():
    cls=env.func(I,"nappy.na_file.na_file_1001.NAFile1001")
    o=I.call(cls,["out.na"],{"mode":"w","na_dict":d})
    fmt=Text((Atom("FF",(),{"numfmt","nopad"}),)); 
    I.call(I.getattr_(o,"write"),[],{"float_format":fmt})
    return o
import time
t=time.time()
import traceback
try:
  for k,v,s,p in I.explore(run):
    print(k, v.etype if k=="raise" else v, v.value if k=="raise" else "", p)
    if k!="raise":
        I.restore(s)
        for q in I.filelog: print(q.v[0])
        f=I.obj(q.v[1])
        for q in f.content: print("   ",q)
except Exception: traceback.print_exc()
print(time.time()-t, I.queries)
