#!/usr/bin/env python3
"""Development helper: one pass over every property on /repo's current tree (no evidence, no replay files).
Prints, per property, how many conditions are open, failed or outside the fragment, and what the concrete search finds."""
import glob, json, multiprocessing as mp, os, re, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, "vcgen"))
import check
from check import *


def main():
    ms = int(sys.argv[1]) if len(sys.argv) > 1 else 4000
    t0 = time.time()
    os.makedirs(os.path.join(B, "vc"), exist_ok=True)
    runner = start_runner()
    p = sh(["bash", os.path.join(V, "tools", "dump.sh")])
    if p.returncode: print("BUILD", p.stderr[-3000:]); runner.kill(); return
    files = sorted(f for f in glob.glob(os.path.join(B, "mir", "*.json")) if ROOTPAT.search(os.path.basename(f)) and re.search(os.environ.get("ONLY", ""), os.path.basename(f)))
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool: outs = pool.map(work, files, chunksize=1)
    t1 = time.time()
    fns, meta, dup = [], {}, {}
    for o in outs:
        for x in o["obs"] + [dict(c, label="cert " + c["kind"], props=["*"], at="") for c in o["certs"]]:
            if x["text"] is None: continue
            key = re.sub(r"^proof fn \w+", "", x["text"])
            if key in dup: meta[dup[key]].append((o["root"], x)); continue
            dup[key] = x["name"]; meta[x["name"]] = [(o["root"], x)]
            fns.append((x["name"], x["text"]))
    import verus
    res = verus.run_all(os.path.join(B, "vc"), "all", fns, rlimit=float(os.environ.get("RL","30")), timeout=300)
    runner.wait()
    print(f"{len(fns)} conditions, ok {len(res.ok)}, failed {len(res.failed)}, undecided {len(res.undecided)}, {t1-t0:.0f}+{time.time()-t1:.0f} s", (res.error or "")[:500])
    bad = {}
    for n in list(res.failed) + list(res.undecided):
        for r, x in meta[n]: bad.setdefault(r, []).append((n, x))
    for r, xs in bad.items():
        for n, x in xs[:4]: print(f"  OPEN {r}: {x['label']} ({','.join(x['props'])}) {x['at']} {n}")
        if len(xs) > 4: print(f"  OPEN {r}: ... {len(xs)} in all")
    seen = set()
    for o in outs:
        if o["err"]: print(f"  CRASH {o['root']}: {o['err'][-400:]}")
        for u in o["uns"]:
            k = (u[0], u[2])
            if k not in seen: print(f"  UNSUPPORTED {o['root']}: {u}")
            seen.add(k)
    names = {o["root"] for o in outs}
    exp = json.load(open(os.path.join(V, "vcgen", "expected.json")))
    for r in sorted({r for q in exp.values() for r in q} - names): print("  MISSING", r)
    if ms:
        props = set()
        for o in outs:
            r = o["root"]
            t = ms if r in bad or o["uns"] or o["err"] else min(ms, 300)
            df = dictionary([x["text"] for x in o["obs"] if x["text"]], os.path.join(B, "vc", f"all_{r}.dict"), o.get("consts", ()))
            s = search(r, 1, t, df, None)
            for h in s["found"][:6]:
                print(f"  FOUND {r}: {h['what'][:200]}")


main()
