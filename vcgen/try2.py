import json,glob,sys,time
sys.path.insert(0,'/verif/vcgen')
import natives, emit, verus
from execute import *
pat=sys.argv[1] if len(sys.argv)>1 else ''
fns=[];info={};seen={}
for f in sorted(glob.glob(f'/verif/build/mir/contracts*{pat}*.json')):
    d=json.load(open(f)); name=f.split('/')[-1]
    if not name.split('..')[-1].startswith(('srp_','spake_','aucpace_','client_','server_')) or '_spec' in name: continue
    CTX.certs.clear()
    ex=Executor(d, natives); ex.ensures_seen={}; ex.covers={}; ex.ct_uses=[]; ex.natives_d64='aucpace' in name
    ex.run()
    root=name.split('..')[-1].split('.')[0]
    for i,o in enumerate(x for x in ex.obligations if x.goal is not True):
        fn,t=(natives.ctime if o.kind=="ct" else emit).obligation(f"ob_{root}_{i}",o)
        k=t.split('\n',1)[1]
        if k in seen: continue
        seen[k]=1
        fns.append((f"ob_{root}_{i}",t)); info[f"ob_{root}_{i}"]=o
    for i,k in enumerate(CTX.certs):
        r=emit.cert(f"ce_{root}_{i}",k)
        if r is None: continue
        kk=r[1].split('\n',1)[1]
        if kk in seen: continue
        seen[kk]=1
        fns.append((f"ce_{root}_{i}",r[1])); info[f"ce_{root}_{i}"]=k
print(len(fns))
t=time.time()
r=verus.run_all('/verif/build/vc','t',fns)
print("ok",len(r.ok),"failed",len(r.failed),"und",len(r.undecided),"wall",time.time()-t,"smt",r.smt,"cpu",r.time,r.error and r.error[:3000])
for n in list(r.failed)[:60]+list(r.undecided)[:10]:
    o=info[n]
    print(n, (o.label,str(o.goal)[:200]) if hasattr(o,'label') else str(o)[:200])
