# run t2 with a trap printing the stack of decide(cond) whose text matches argv[2]
import sys; sys.path.insert(0,"/verif")
import traceback,re
from pyvc import algebra
orig=algebra.Algebra.decide
pat=sys.argv[2]; cnt=[0]
def decide(self,c):
    s=str(c if not hasattr(c,'t') else c.t)
    if re.search(pat,s) and not isinstance(c,bool):
        n=len(self.pc); r=orig(self,c)
        if len(self.pc)>n and cnt[0]<400:
            cnt[0]+=1; print("DECIDE",cnt[0],s[:200]); (cnt[0]==int(sys.argv[3]) if len(sys.argv)>3 else False) and traceback.print_stack(limit=14)
        return r
    return orig(self,c)
algebra.Algebra.decide=decide

src=open("/verif/dev/t2.py").read().replace("sys.argv[1:]","sys.argv[1:2]"); exec(src)
