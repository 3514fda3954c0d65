import sys
sys.path.insert(0,'/verif')
import dv.harness as H
_o=H.ProveH.check
def check(self,label,cond,**k):
    return _o(self,label,cond,**k)
_c=H.ProveH.call
def call(self,fn,*a,**k):
    r=_c(self,fn,*a,**k)
    if not r.ok: print('CALL FAILED',r.exc if hasattr(r,'exc') else r.__dict__, getattr(r,'err',None) and r.err.d, getattr(r,'where',None))
    return r
H.ProveH.call=call
import importlib
spec=importlib.import_module('specs.'+sys.argv[1])
print(H.run_task(spec,sys.argv[2],eval(sys.argv[3]),[],100,10000000) if 0 else 0)
import inspect; print(inspect.signature(H.run_task))
r=H.run_task(spec,sys.argv[2],eval(sys.argv[3]),{},100,20000000)
print({k:(v if len(str(v))<2000 else str(v)[:1500]) for k,v in r.items()})
