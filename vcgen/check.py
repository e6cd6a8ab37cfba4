#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property of properties.jsonl on /repo's current tree.

  1. build the MIR dumper, dump the MIR of the contract programs and of everything in /repo they reach;
  2. symbolic execution of every contract program: verification conditions and rewrite certificates;
  3. Verus on every condition of this property (and the certificates of the programs it comes from);
  4. vacuity: every cover point of those programs must not be provably unreachable, and is looked for
     concretely;
  5. failed conditions: search for a failing input by running the contract program on the real code.
"""
import glob, json, multiprocessing as mp, os, re, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
B = os.path.join(V, "build")
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)

ROOTPAT = re.compile(r"contracts\.\.(\w+_contracts|aucpace_agree|aucpace_client|aucpace_server)\.\.((?:srp|spake|aucpace|client|server)_\w+)\.")
# properties, besides C24, that say a contract program does not panic
SAFETY = [("srp_client_login", "C03"), ("srp_server_login", "C03"), ("srp_agreement", "C01"), ("srp_public_values", "C02"),
          ("srp_building_blocks", "C02"), ("srp_group", "C05"), ("spake_session", "C09"), ("spake_agree", "C06"), ("spake_pw_scalar", "C08"),
          ("spake_system_rng", "C06"), ("aucpace_agreement_", "C13"), ("client_register", "C19"), ("client_login", "C19"),
          ("aucpace_malformed", "C22"), ("aucpace_any_answers", "C22")]
LEVEL = "proof"
TRUSTED = [
    "rustc's MIR of the code (nightly front end), unwinding edges dropped",
    "vcgen/execute.py: the meaning of MIR statements (bounded machine integers, references as access paths)",
    "vcgen/natives.py: assumed contracts of dependencies (num-bigint, curve25519-dalek, digest, sha2, hkdf, subtle, password-hash, rand_core, core, alloc)",
    "vcgen/terms.py: normalisation of integer polynomials, point combinations and byte concatenations, where no certificate is listed",
    "Verus 0.2026.09.13 with its Z3",
]


def props_of(label): return label.split("|")[0].split(",") if "|" in label else []


def constants(d):
    """integers and byte strings in the code of /repo that a contract program reaches: food for the search"""
    out = set()
    def walk(x):
        if isinstance(x, dict):
            if x.get("c") == "int":
                try:
                    if 0 <= int(x["v"]) <= 999999: out.add(f"i {int(x['v'])}")
                except (ValueError, TypeError): pass
            elif x.get("c") == "bytes" and isinstance(x.get("v"), str) and 2 < len(x["v"]) <= 8192: out.add("b " + x["v"])
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            if x and x[0] == "switch" and len(x) > 2 and isinstance(x[2], list):
                for v in x[2]:
                    if int(v[0]) <= 999999: out.add(f"i {int(v[0])}")
            for v in x: walk(v)
    for f in d["fns"].values():
        if f["path"].lstrip("<&").startswith(("srp::", "spake2::", "aucpace::")): walk(f["blocks"])
    return sorted(out)


def work(path):
    import natives, emit, execute
    from terms import CTX
    root = ROOTPAT.search(os.path.basename(path)).group(2)
    out = {"root": root, "obs": [], "certs": [], "covers": {}, "uns": [], "err": None}
    t0 = time.time()
    try:
        d = json.load(open(path))
        out["consts"] = constants(d)
        CTX.certs.clear()
        ex = execute.Executor(d, natives)
        ex.ensures_seen, ex.covers, ex.ct_uses, ex.natives_d64 = {}, {}, [], "aucpace" in path
        ex.run()
        seen = {}
        for i, o in enumerate(ex.obligations):
            ps = props_of(o.label) if o.kind in ("ensures", "ct") else ["C24"] + [p for r, p in SAFETY if root.startswith(r)]
            e = {"label": o.label, "props": ps, "kind": o.kind, "at": o.at, "fn": o.fn, "n": len(o.path)}
            if o.goal is True: e["text"] = None
            else:
                name = f"ob_{root}_{i}"
                f, t = (natives.ctime if o.kind == "ct" else emit).obligation(name, o)
                e["name"], e["text"], e["hyp"] = name, t, sorted({k for _, k in f.hyp})
                e["inj"] = o.inj
            out["obs"].append(e)
        for i, k in enumerate(CTX.certs):
            name = f"ce_{root}_{i}"
            r = emit.cert(name, k)
            out["certs"].append({"kind": k[0], "name": name, "text": r[1] if r else None})
        for lab, paths in ex.covers.items():
            probes = []
            for j, p in enumerate(sorted(paths, key=len)[:3]):
                f = emit.Fn()
                pp = [f.prop(c) for c in p]
                name = f"cov_{root}_{len(out['covers'])}_{j}"
                probes.append((name, f.text(name, pp, ["assert(false);"])))
            out["covers"][lab] = {"paths": len(paths), "probes": probes}
        out["uns"] = [list(map(str, u)) for u in dict.fromkeys(map(tuple, ex.unsupported))]
        out["paths"] = len(ex.paths)
        out["fns"] = sorted({f["path"] for f in ex.used_fns.values()})
        out["natives"] = {k: v for k, v in ex.used_natives.items() if not k.startswith("contracts::")}
        out["loops"] = {f"{k[0]} at {k[1]}": v for k, v in ex.loops_cut.items()}
        out["loops"].update(getattr(ex, "loops_summed", {}))
        out["ct"] = [list(map(str, u)) for u in ex.ct_uses]
    except Exception as e:
        out["err"] = f"{e!r} {traceback.format_exc()[-1500:]}"
    out["time"] = time.time() - t0
    return out


def sh(cmd, **kw): return subprocess.run(cmd, capture_output=True, text=True, **kw)


def start_runner():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "runner"), CARGO_NET_OFFLINE="true")
    return subprocess.Popen(["cargo", "build", "--release", "--quiet", "--offline"], cwd=os.path.join(V, "runner"), env=env,
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)


RUNNER = os.path.join(B, "runner", "release", "runner")


def search(root, seed, ms, dictfile, prop, threads=8):
    try:
        p = sh([RUNNER, "search", root, str(seed), str(ms)] + ([dictfile] if dictfile else ["-"]) + ([prop] if prop else []),
               env=dict(os.environ, RUNNER_THREADS=str(threads)), timeout=ms / 1000 + 90)
    except subprocess.TimeoutExpired:
        return {"found": [], "covered": {}, "counts": [0, 0, 0]}
    r = {"found": [], "covered": {}, "counts": [0, 0, 0]}
    for l in p.stdout.splitlines():
        if l.startswith("FOUND "):
            _, case, what = l.split(" ", 2)
            r["found"].append({"case": case, "what": what, "inputs": []})
        elif l.startswith("  ") and r["found"]: r["found"][-1]["inputs"].append(l.strip())
        elif l.startswith("COVERED "):
            _, n, lab = l.split(" ", 2)
            r["covered"][lab] = int(n)
        elif l.startswith("COUNTS "): r["counts"] = list(map(int, l.split()[1:]))
    if p.returncode != 0 and not r["found"]:
        # the process itself died (abort, stack overflow)
        r["found"].append({"case": "?", "what": f"PANICKED the process ended with {p.returncode} {p.stderr[-300:]}", "inputs": []})
    return r


def concerns(what, prop, root):
    if what.startswith("FAILED "): return prop in props_of(what[7:])
    return prop == "C24" or any(root.startswith(r) and p == prop for r, p in SAFETY) or prop in ROOTPROPS.get(root, ())


ROOTPROPS = {}


def dictionary(texts, path, consts=()):
    ints, lits = set(), set()
    for t in texts:
        for m in re.findall(r"seq!\[((?:\d+u8(?:, )?)+)\]", t): lits.add(bytes(int(x[:-2]) for x in m.split(", ")))
        t2 = re.sub(r"seq!\[[^\]]*\]", "", t)
        for m in re.findall(r"(?<![\w])(\d{1,6})(?![\w])", t2): ints.add(int(m))
    with open(path, "w") as f:
        for i in sorted(ints): f.write(f"i {i}\n")
        for b in sorted(lits):
            if 1 < len(b) <= 4096: f.write(f"b {b.hex()}\n")
        # constants of the code, those the code did not have when the expectations were written more often
        base = set(json.load(open(os.path.join(HERE, "constants.json"))))
        for c in consts: f.write((c + "\n") * (1 if c in base else 6))
    return path


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(B, "replay"), exist_ok=True)
    runner = start_runner()
    p = sh(["bash", os.path.join(V, "tools", "dump.sh")])
    if p.returncode != 0:
        print("cannot build the contract programs against /repo:\n" + p.stderr[-4000:])
        runner.kill()
        sys.exit(2)
    t_dump = time.time() - t0
    files = sorted(f for f in glob.glob(os.path.join(B, "mir", "*.json")) if ROOTPAT.search(os.path.basename(f)))
    if prop != "--expected":
        # the contract programs of this property, and any that belong to none yet
        e = json.load(open(os.path.join(HERE, "expected.json")))
        other = {r for q in e for r in e[q]} - set(e.get(prop, []))
        files = [f for f in files if ROOTPAT.search(os.path.basename(f)).group(2) not in other]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool: outs = pool.map(work, files, chunksize=1)
    for o in outs: ROOTPROPS[o["root"]] = {q for x in o["obs"] if x["kind"] in ("ensures", "ct") for q in x["props"]}
    t_exec = time.time() - t0 - t_dump
    if prop == "--expected":
        e = {}
        for o in outs:
            for x in o["obs"]:
                for q in x["props"]: e.setdefault(q, {}).setdefault(o["root"], 0)
        json.dump(sorted({c for o in outs for c in o["consts"]}), open(os.path.join(HERE, "constants.json"), "w"), indent=0)
        json.dump({q: sorted(e[q]) for q in sorted(e)}, open(os.path.join(HERE, "expected.json"), "w"), indent=1)
        return
    known = json.load(open(os.path.join(V, "known-findings.json")))
    # what concerns this property
    expected = json.load(open(os.path.join(HERE, "expected.json"))).get(prop, [])
    mine = [o for o in outs if o["root"] in expected or any(prop in x["props"] for x in o["obs"])]
    names = {o["root"] for o in mine}
    broken = {o["root"]: (o["err"] and [["internal", o["err"], ""]] or o["uns"]) for o in mine if o["err"] or o["uns"]}
    for r in expected:
        if r not in names: broken[r] = [["no contract program", r, ""]]
    fns, meta, dup, trivial = [], {}, {}, 0
    for o in mine:
        for x in o["obs"]:
            if prop not in x["props"]: continue
            if x["text"] is None: trivial += 1; continue
            k = x["text"].split("\n", 1)[1]
            # the same condition under another name
            key = re.sub(r"^proof fn \w+", "", x["text"])
            if key in dup: meta[dup[key]].append((o["root"], x)); continue
            dup[key] = x["name"]
            meta[x["name"]] = [(o["root"], x)]
            fns.append((x["name"], x["text"]))
    n_ob = len(fns)
    from emit import SOFT
    cdup, ncert, nuncert, soft = {}, 0, {}, {}
    for o in mine:
        for c in o["certs"]:
            if c["text"] is None: nuncert[c["kind"]] = nuncert.get(c["kind"], 0) + 1; continue
            key = re.sub(r"^proof fn \w+", "", c["text"])
            if key in cdup: continue
            cdup[key] = c["name"]; ncert += 1
            if c["kind"] in SOFT: soft[c["name"]] = c["kind"]
            meta[c["name"]] = [(o["root"], dict(c, label="rewrite certificate: " + c["kind"], at="", fn="", kind="cert"))]
            fns.append((c["name"], c["text"]))
    import verus
    res = verus.run_all(os.path.join(B, "vc"), prop, fns, rlimit=30 if tier == "thorough" else 6, timeout=300)
    # a rewrite of modular arithmetic without an accepted certificate counts as trusted
    for n in [n for n in list(res.failed) + list(res.undecided) if n in soft]:
        res.failed.pop(n, None); res.undecided.pop(n, None)
        ncert -= 1
        nuncert[soft[n]] = nuncert.get(soft[n], 0) + 1
        fns = [f for f in fns if f[0] != n]
    # an unanswered condition is asked once more, alone (unless another one failed: then the answer is no anyway)
    again = [f for f in fns if f[0] in res.undecided][:24] if not res.failed else []
    if again:
        r2 = verus.run_all(os.path.join(B, "vc"), prop + "_again", again, rlimit=90, timeout=200)
        res.time += r2.time; res.smt += r2.smt
        for n, _ in again:
            if n in r2.ok: res.undecided.pop(n); res.ok.add(n)
            elif n in r2.failed: res.undecided.pop(n); res.failed[n] = r2.failed[n]
    # vacuity
    probes = [(n, t) for o in mine for c in o["covers"].values() for n, t in c["probes"]]
    vac = verus.run_all(os.path.join(B, "vc"), prop + "_cover", probes, rlimit=10, timeout=200) if probes else verus.Result()
    dead_covers, covers = [], {}
    for o in mine:
        for lab, c in o["covers"].items():
            covers[f"{o['root']}: {lab}"] = None
            if c["probes"] and all(n in vac.ok for n, _ in c["probes"]): dead_covers.append(f"{o['root']}: {lab}")
    t_verus = time.time() - t0 - t_dump - t_exec
    runner_err = None
    if runner.wait() != 0: runner_err = runner.stderr.read()[-3000:]
    # ---- concrete side
    def known_match(root, what):
        for k in known.get("findings", []):
            if k["property"] == prop and k["root"] == root and k["what"] in what: return k
    bad = {}
    for n in list(res.failed) + list(res.undecided):
        for root, x in meta[n]: bad.setdefault(root, []).append((n, x))
    searched, hits = {}, []
    deadline = t0 + (760 if tier == "quick" else 3000)
    if not runner_err:
        suspects = sorted({r for r, xs in bad.items() if not all(known_match(r, x["label"]) for _, x in xs)} | set(broken))
        # suspects first: briefly one after the other, then at length; the first failing input ends the search
        long = 25000 if tier == "quick" else 120000
        todo = [(r, 4000, seed) for r in suspects] + [(r, long, seed + 7919) for r in suspects]
        todo += [(o["root"], 400 if tier == "quick" else 20000, seed) for o in mine if o["root"] not in suspects]
        for root, ms, sd in todo:
            if any(not known_match(r, h["what"]) for r, _, h in hits): break
            left = deadline - time.time()
            if left < 5: break
            texts = [x["text"] for _, x in bad.get(root, []) if x.get("text")]
            if not texts: texts = [x["text"] for o in mine if o["root"] == root for x in o["obs"] if x["text"]]
            df = dictionary(texts, os.path.join(B, "vc", f"{prop}_{root}.dict"), next((o.get("consts", ()) for o in outs if o["root"] == root), ()))
            n = len(suspects) or 1
            ms = int(min(ms, left * 1000 / 2, max(4000, 240000 / n) if tier == "quick" else ms))
            r = search(root, sd, ms, df, prop)
            searched[root] = [x + y for x, y in zip(searched.get(root, [0, 0, 0]), r["counts"])]
            for lab, c in r["covered"].items():
                k = f"{root}: {lab}"
                if k in covers: covers[k] = (covers[k] or 0) + c
            for h in r["found"]:
                if concerns(h["what"], prop, root): hits.append((root, df, h))
    # ---- verdict
    viol, reported = [], []
    for root, df, h in hits:
        k = known_match(root, h["what"])
        if k: reported.append(k); continue
        viol.append(("input", root, h["what"], df, h))
    if not any(v[0] == "input" for v in viol):
        for root, xs in bad.items():
            for n, x in xs:
                k = known_match(root, x["label"])
                if k: reported.append(k); continue
                viol.append(("proof", root, x["label"], None, (n, x)))
    for k in {json.dumps(k): k for k in reported}.values(): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    status = 0
    replay = None
    if viol:
        status = 1
        kind, root, what, df, h = viol[0]
        replay = os.path.join(B, "replay", f"{prop}_{root}.txt")
        with open(replay, "w") as f:
            f.write(f"property {prop}\ncontract program {root} (contracts/src)\nfails: {what}\n\n")
            if kind == "input":
                keep = os.path.join(B, "replay", f"{prop}_{root}.dict")
                open(keep, "w").write(open(df).read())
                f.write(f"Run on the real code: {RUNNER} replay {root} {h['case']} {keep}\n(build it with: cd {V}/runner && CARGO_TARGET_DIR={B}/runner cargo build --release --offline)\n\nInputs:\n")
                f.write("\n".join("  " + i for i in h["inputs"]) + "\n\n")
            f.write("Failed obligations:\n")
            for r2, xs in bad.items():
                for n, x in xs[:6]:
                    f.write(f"--- {n}: {x['label']} ({x['kind']}, {x['fn']} {x['at']})\n{(res.failed.get(n) or res.undecided.get(n))[:1500]}\n{x['text'][:6000]}\n")
            for r2, us in broken.items():
                f.write(f"--- {r2}: outside the verified fragment: {us[:5]}\n")
        tail = "" if kind == "input" else " no-failing-input-found"
        print(f"failed: {root}: {what}")
        print(f"VIOLATION property={prop} replay={replay}{tail}")
    # ---- evidence
    hyps = {}
    for n, _ in fns:
        for h in meta[n][0][1].get("hyp") or []: hyps[h] = hyps.get(h, 0) + 1
    labels = sorted({x["label"] for o in mine for x in o["obs"] if prop in x["props"] and x["kind"] in ("ensures", "ct")})
    found = {n for r, xs in bad.items() for n, x in xs if known_match(r, x["label"])}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL, "wall_s": round(time.time() - t0, 1),
        "coverage": {
            "obligations": n_ob + trivial + ncert - len(found),
            "failed_obligations_listed_as_known_findings": sorted(found),
            "discharged": len([n for n, _ in fns if n in res.ok]) + trivial,
            "conditions_proved_by_verus": len([n for n, _ in fns if n in res.ok and not n.startswith("ce_")]),
            "conditions_closed_by_the_generator": trivial,
            "rewrite_certificates_proved_by_verus": len([n for n, _ in fns if n in res.ok and n.startswith("ce_")]),
            "rewrites_trusted_by_kind": nuncert,
            "failed": sorted(f"{r}: {x['label']}" for r, xs in bad.items() for n, x in xs if n not in found)[:40],
            "postconditions": labels,
            "contract_programs": sorted(names),
            "paths": sum(o.get("paths", 0) for o in mine),
            "functions_of_repo_verified": sorted({f for o in mine for f in o.get("fns", []) if f.lstrip("<&").startswith(("srp::", "spake2::", "aucpace::"))}),
            "loops_cut_by_invariant": {k: v for o in mine for k, v in o.get("loops", {}).items()},
            "assumed_contracts_of_dependencies": sorted({k for o in mine for k in o.get("natives", {})}),
            "hypotheses_used": hyps,
            "vacuity_cover_points": len(covers), "cover_points_reached_on_real_code": len([1 for v in covers.values() if v]),
            "cover_points_provably_unreachable": dead_covers,
            "bounded_stand_ins": {r: {"why": us[:3], "executions": searched.get(r)} for r, us in broken.items()},
            "contract_executions_on_real_code": sum(c[0] for c in searched.values()),
            "checker_cmd": "verus FILE --no-cheating (generated files build/vc/%s_*.rs)" % prop,
            "solver_s": round(res.smt, 2), "verus_s": round(res.time, 2), "symbolic_execution_s": round(t_exec, 2), "build_s": round(t_dump, 2),
            "trusted_base": TRUSTED,
        },
    }
    json.dump(ev, open(os.path.join(V, "evidence", f"{prop}.json"), "w"), indent=1)
    c = ev["coverage"]
    print(f"{prop}: {c['discharged']}/{c['obligations']} obligations, {len(names)} contract programs, {c['contract_executions_on_real_code']} executions, "
          f"{len(broken)} bounded, {len(dead_covers)} dead covers, {ev['wall_s']} s" + (f" (runner: {runner_err})" if runner_err else ""))
    for r, us in broken.items(): print(f"  bounded: {r}: {us[:2]}"[:600])
    for d in dead_covers: print("  provably unreachable:", d)
    sys.exit(status)


if __name__ == "__main__": main()
