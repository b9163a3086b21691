import sys,collections
sys.path.insert(0,'/verif')
import engine.sym as S, traceback
C=collections.Counter()
orig=S.PathState.branch
def br(self,e):
    n=len(self.decisions)
    r=orig(self,e)
    if len(self.decisions)>n and not self.decisions[-1][1]:
        st=[f"{f.filename.split('/src/')[-1]}:{f.lineno}" for f in traceback.extract_stack(limit=12) if 'engine/' not in f.filename]
        C[' < '.join(st[::-1][:3])+"  "+str(e)[:80].replace('\n',' ')]+=1
    return r
S.PathState.branch=br
import atexit
import engine.runner as R
ow=R._worker if hasattr(R,'_worker') else None
oe=R.explore
def ex(h,*a,**k):
    r=oe(h,*a,**k)
    print(h.name,file=sys.stderr)
    for k,v in C.most_common(25): print(v,k,file=sys.stderr)
    C.clear()
    return r
R.explore=ex
sys.argv=['run_check.py']+sys.argv[1:]
import runpy
runpy.run_path('/verif/run_check.py',run_name='__main__')
