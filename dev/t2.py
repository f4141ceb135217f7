import sys; sys.path.insert(0,"/verif")
import z3, time, traceback
from pyvc.core import *
from pyvc import env, lib
from pyvc.interp import *
from contracts import na, text
def one(ffi, verbose=False, delim="    "):
    I=env.make({"nappy.utils.text_parser.readItemsFromUnknownLines": text.c_readItemsUnknown})
    I.int_exact=True
    B=na.Dict(I,ffi)
    d=na.make_dict(B)
    fmt=Text((Atom("FF",(),{"numfmt","nopad"}),))
    I.ghost_ints=[B.M,B.NV]
    def run():
        cls=env.func(I,"nappy.na_file.na_file_%d.NAFile%d"%(ffi,ffi))
        o=I.call(cls,["out.na"],{"mode":"w","na_dict":d})
        I.call(I.getattr_(o,"write"),[],{"float_format":fmt,"delimiter":delim})
        if verbose:
            for q in I.filelog:
                for x in I.obj(q.v[1]).content: print("   ",repr(x))
        r=I.call(cls,["out.na"],{"mode":"r"})
        I.call(I.getattr_(r,"readData"),[])
        return r
    t=time.time()
    try:
      for k,v,s,p in I.explore(run):
        print(ffi,k, v.etype if k=="raise" else v, v.value if k=="raise" else "", p)
        if k!="raise":
            I.restore(s); I.pc.extend(p)
            exp=B.header(na.fl); D=lambda t: na.fl(lib.denote(I,"FF",t))
            exp.update(B.data(D, D))
            got=I.obj(v).attrs
            for key in exp:
                if key not in got:
                    print("   MISSING",key); continue
                I.why=""
                ok=I.eq_val(got[key],exp[key])
                if not ok:
                    print("   DIFF",key,I.why)
                    print("      got", got[key] if not isinstance(got[key],Ref) else I.obj(got[key]).seq)
                    print("      exp", exp[key])
            del I.pc[-len(p):]
    except Exception: traceback.print_exc()
    print(ffi, time.time()-t, I.queries)
for f in map(int,sys.argv[1:]) : one(f)
