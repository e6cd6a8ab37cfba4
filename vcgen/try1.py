import json,glob,sys,time
sys.path.insert(0,'/verif/vcgen')
import natives
from execute import *
def load(pat): return json.load(open(glob.glob(f'/verif/build/mir/*{pat}*.json')[0]))
ex=Executor(load(sys.argv[1]), natives)
ex.natives_d64=False; ex.ensures_seen={}; ex.covers={}; ex.ct_uses=[]
t=time.time()
ex.run()
print("paths",len(ex.paths),"obs",len(ex.obligations),"unsupported",ex.unsupported[:5], "t",time.time()-t)
for o in ex.obligations:
    print(o.kind,"|",o.label,"|",str(o.goal)[:600],"|",len(o.path),o.at)
