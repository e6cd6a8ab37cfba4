"""Writes MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
exp = json.load(open(os.path.join(V, "vcgen", "expected.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "na.json")))
NOTE = ("Proved for all inputs, hash functions, hashers, generators, nonce and buffer sizes of the contract programs {roots}, on the MIR of "
        "/repo's current source: no bound on lengths or iterations. Trusted: rustc's MIR, the executor's meaning of MIR, the assumed contracts of "
        "dependencies (natives.py), the normal forms without certificate, Verus and Z3. A function outside the fragment falls back to a bounded "
        "run of its contract on concrete inputs, labelled bounded in the evidence.{extra}")
EXTRA = json.load(open(os.path.join(V, "tools", "extra_notes.json")))
checks = []
for q in props:
    if q in NA: continue
    roots = exp[q]
    r = ", ".join(roots) if len(roots) <= 8 else f"{len(roots)} programs in contracts/src"
    checks.append({
        "property": q, "quick_cmd": f"./check {q}", "thorough_cmd": f"./check {q} --thorough", "evidence_file": f"evidence/{q}.json",
        "technique": "contract-based deductive verification of the MIR of the real code (symbolic verification-condition generator, Verus/Z3)",
        "level": "proof", "level_note": NOTE.format(roots=r, extra=" " + EXTRA[q] if q in EXTRA else "")})
json.dump({"version": 1, "setup_cmd": "bash tools/dump.sh", "checks": checks,
           "not_applicable": [{"property": q, "reason": NA[q]} for q in props if q in NA],
           "notes": "No hooks in /repo. known-findings.json lists the two repaired defects."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
