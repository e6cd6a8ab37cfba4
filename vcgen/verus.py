"""Runs Verus on generated files and maps its answers back to the proof functions."""
import json, os, re, subprocess, concurrent.futures as cf, time
HERE = os.path.dirname(os.path.abspath(__file__))
from emit import big, L


def prelude():
    s = open(os.path.join(HERE, "prelude.rs")).read()
    return s.replace("LORDER", big(L))


class Result:
    def __init__(self):
        self.failed, self.undecided, self.ok, self.time, self.smt = {}, {}, set(), 0.0, 0.0
        self.error = None


def run_file(path, text_fns, rlimit=30, timeout=300):
    """text_fns: [(name, text)]"""
    pre = prelude()
    head, tail = pre.split("//DECLS")
    lines, where = head.count("\n") + 1, []
    parts = [head, "\n"]
    for n, t in text_fns:
        k = t.count("\n")
        where.append((lines + 1, lines + k + 1, n))
        parts.append(t)
        lines += k
    parts.append(tail)
    with open(path, "w") as f: f.write("".join(parts))
    r = Result()
    t0 = time.time()
    try:
        p = subprocess.run(["verus", path, "--no-cheating", "--output-json", "--time", "--rlimit", str(rlimit), "--multiple-errors", "0",
                            "--num-threads", "1", "--no-auto-recommends-check", "--no-lifetime", "--triggers-mode", "silent"], capture_output=True, text=True, timeout=timeout,
                           cwd=os.path.dirname(path), env=dict(os.environ, RUST_MIN_STACK=str(1 << 30)))
    except subprocess.TimeoutExpired:
        r.error = "timeout"
        for _, _, n in where: r.undecided[n] = "timeout"
        r.time = time.time() - t0
        return r
    r.time = time.time() - t0
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
        res = j["verification-results"]
        r.smt = j.get("times-ms", {}).get("smt", {}).get("total", 0) / 1000
    except Exception:
        res = {}
        j = {}
    # errors
    cur = None
    blocks = re.split(r"\n(?=error|warning|note)", "\n" + p.stderr)
    base = os.path.basename(path)
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"): continue
        if b.startswith("error: aborting"): continue
        m = re.search(re.escape(base) + r":(\d+):", b)
        name = None
        if m:
            ln = int(m.group(1))
            for a, z, n in where:
                if a <= ln <= z: name = n
        if name is None or b.startswith("error[") or not re.match(r"error: (assertion failed|precondition|postcondition|.*rlimit|.*Resource limit|assert)", b):
            r.error = (r.error or "") + b[:2000]
            continue
        if "rlimit" in b or "Resource limit" in b: r.undecided[name] = b
        else: r.failed[name] = b
    if not res.get("success") and not r.failed and not r.undecided and not r.error:
        r.error = p.stderr[-2000:] or "verus gave no result"
    if r.error and len(text_fns) > 1 and not r.failed and time.time() - t0 < timeout / 4:
        # the whole file came to nothing: find out which of them is to blame
        h = len(text_fns) // 2
        a, b = (run_file(path, x, rlimit, timeout / 2) for x in (text_fns[:h], text_fns[h:]))
        a.failed.update(b.failed); a.undecided.update(b.undecided); a.ok |= b.ok
        a.time += b.time + r.time; a.smt += b.smt + r.smt; a.error = a.error or b.error
        return a
    if r.error:
        for _, _, n in where:
            if n not in r.failed: r.undecided[n] = r.error
    r.ok = {n for _, _, n in where if n not in r.failed and n not in r.undecided}
    return r


def run_all(dirname, tag, fns, jobs=8, **kw):
    os.makedirs(dirname, exist_ok=True)
    jobs = max(1, min(jobs, (len(fns) + 3) // 4))
    chunks = [fns[i::jobs] for i in range(jobs)]
    tot = Result()
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda c: run_file(os.path.join(dirname, f"{tag}_{c[0]}.rs"), c[1], **kw), [(i, c) for i, c in enumerate(chunks) if c]):
            tot.failed.update(r.failed); tot.undecided.update(r.undecided); tot.ok |= r.ok
            tot.time += r.time; tot.smt += r.smt
            if r.error: tot.error = r.error
    return tot
