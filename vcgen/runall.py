import json,glob,sys,time,traceback
sys.path.insert(0,'/verif/vcgen')
import natives
from execute import *
pat=sys.argv[1] if len(sys.argv)>1 else ''
verbose=len(sys.argv)>2
for f in sorted(glob.glob(f'/verif/build/mir/contracts*{pat}*.json')):
    d=json.load(open(f))
    name=f.split('/')[-1]
    if not any(x in name for x in ('_contracts..','client_','server_','aucpace_agreement')): continue
    if not name.split('..')[-1].startswith(('srp_','spake_','aucpace_','client_','server_')) or '_spec' in name: continue
    CTX.certs.clear()
    ex=Executor(d, natives); ex.ensures_seen={}; ex.covers={}; ex.ct_uses=[]; ex.natives_d64='aucpace' in name
    t=time.time()
    try: ex.run()
    except Exception as e: 
        traceback.print_exc(); print(name,"CRASH",e); continue
    open_=[o for o in ex.obligations if o.goal is not True]
    print(f"{name[:60]:60} paths {len(ex.paths):4} obs {len(ex.obligations):4} open {len(open_):4} certs {len(CTX.certs)} uns {len(ex.unsupported)} cov {len(ex.covers)} t {time.time()-t:.1f}")
    for u in list(dict.fromkeys(ex.unsupported))[:4]: print("    U:",str(u)[:400])
    seen=set()
    for o in open_:
        if (o.label,o.at) in seen and not verbose: continue
        seen.add((o.label,o.at))
        if len(seen)>8 and not verbose: continue
        print("    O:",o.kind,o.label,"|",str(o.goal)[:300],"|",len(o.path),o.at)
