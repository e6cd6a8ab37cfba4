"""Loops over byte strings of unknown length.

A loop (of any code: /repo, a contract, or core's own iterator adapters) that steps through a byte string and in
every iteration appends to some buffers and moves some counters by a constant is replaced by its closed form.
The loop invariant is found and checked here: from an arbitrary iteration k (buffers holding anything, counters
at start + k*step, every local the body assigns undefined) the body is executed for each of the 256 values of
the current byte; each run must come back to the same `next` call with every buffer extended by a literal
that depends on the byte alone and nothing else of the earlier state changed.  By induction the loop appends
flatmap(table, bytes) to the buffer."""
from execute import *
from terms import *
import terms, hashlib


class ProbeHit(Exception):
    def __init__(self, st, cell): self.st, self.cell = st, cell


class NotSummarised(Exception): pass


TEMP = ("temp",)


def diff(a, b, path, out):
    """what changed from a to b: [(path, kind, amount)]; raises NotSummarised when it is not a sum or an extension"""
    if a is b or a == b: return
    if isinstance(a, Bytes) and isinstance(b, Bytes):
        p = extension(a, b)
        if p is None: raise NotSummarised(f"{a!r} becomes {b!r}")
        out.append((path, "bytes", p)); return
    if isinstance(a, Poly) and isinstance(b, Poly) and (b - a).const is not None:
        out.append((path, "int", (b - a).const)); return
    if isinstance(a, Adt) and isinstance(b, Adt) and (a.path, a.variant, len(a.fields)) == (b.path, b.variant, len(b.fields)):
        for i, (x, y) in enumerate(zip(a.fields, b.fields)): diff(x, y, path + (("f", i),), out)
        return
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and set(a.f) == set(b.f):
        if a.kind == "iter": 
            if "probe" in b.f: return
            raise NotSummarised("another iterator moves")
        for k in a.f: diff(a.f[k], b.f[k], path + (("o", k),), out)
        return
    if isinstance(a, Clo) and isinstance(b, Clo) and a.key == b.key:
        for i, (x, y) in enumerate(zip(a.up, b.up)): diff(x, y, path + (("f", i),), out)
        return
    raise NotSummarised(f"{a!r} becomes {b!r}")


def extension(a, b):
    """b = a ++ literal: the literal"""
    n = len(a.segs)
    if b.segs[:n] == a.segs:
        r = Bytes(b.segs[n:])
    elif n and b.segs[:n - 1] == a.segs[:-1] and a.segs[-1][0] == "lit" and len(b.segs) >= n and b.segs[n - 1][0] == "lit" and b.segs[n - 1][1].startswith(a.segs[-1][1]):
        r = mk((("lit", b.segs[n - 1][1][len(a.segs[-1][1]):]),) + b.segs[n:])
    else:
        return None
    return r.lit


def get(v, path):
    for k, x in path:
        v = v.f[x] if k == "o" else v.fields[x] if isinstance(v, Adt) else v.up[x]
    return v


def put(v, path, new):
    if not path: return new
    (k, x), rest = path[0], path[1:]
    if k == "o": return v.set(**{x: put(v.f[x], rest, new)})
    if isinstance(v, Adt):
        f = list(v.fields); f[x] = put(f[x], rest, new); return Adt(v.path, v.variant, f, v.ty)
    f = list(v.up); f[x] = put(f[x], rest, new); return Clo(v.key, f, v.tid)


def shape(st): return tuple((f.key, f.bb) for f in st.frames)


def run_body(ex, st):
    """execute until the marked iterator is asked again; no branching"""
    n = len(ex.paths)
    try:
        out = ex.step_until_fork(st)
    except ProbeHit as h:
        return h
    del ex.paths[n:]
    raise NotSummarised("the loop branches or ends early")


def start(ex, st, fr, x, byte, back):
    """a copy of st in which the iterator holds one element, the given byte"""
    s = st.copy()
    cell = s.alloc(blit(bytes([byte])))
    ex.store(s, fr, x.set(ref=Ref(cell), pos=P(0), end=P(1), probe=cell))
    CTX.facts = s.facts
    return s, cell


def summarise(ctx, fr, x, back):
    """the state after the loop, with `next` answering None; None if the loop is not of this form"""
    ex, st = ctx.ex, ctx.st
    if getattr(ex, "probing", False): raise Unsupported("nested loops over byte strings of unknown length")
    seq = ex.load(st, x.ref)
    if not isinstance(seq, Bytes): return None
    seq = sub(seq, x.pos, x.end)
    if back: seq = reverse_of(seq)
    ex.probing = True
    facts = CTX.facts
    try:
        return _summarise(ex, st, fr, x, back, seq)
    except NotSummarised as e:
        ex.__dict__.setdefault("why_not", []).append(str(e))
        return None
    finally:
        ex.probing = False
        CTX.facts = facts


def reverse_of(b):
    import natives
    return natives.reverse(b)


def _summarise(ex, st, fr, x, back, seq):
    shape0 = shape(st)
    cells = set(st.heap)
    local = {c for f in st.frames for c in f.locals.values()}
    itercell = fr.cell
    ex.fresh = getattr(ex, "fresh", 0) + 1
    tag = f"loop{ex.fresh}"
    k = P(node("var", tag + "_k", sort="int", usize=True))
    temps, acc, inc = set(), {}, {}

    def general():
        """the state at an arbitrary iteration"""
        g = st.copy()
        for c in temps: g.heap[c] = UNDEF
        for (c, path), a in acc.items(): g.heap[c] = put(g.heap[c], path, a)
        for (c, path), d in inc.items(): g.heap[c] = put(g.heap[c], path, get(st.heap[c], path) + k * d)
        if not g.assume(lt(k, x.end - x.pos)): raise NotSummarised("empty")
        return g

    def observe(g, hit):
        """classify what one iteration changed; True if something new had to be generalised"""
        s = hit.st
        if shape(s) != shape0: raise NotSummarised("the loop comes back in another place")
        if s.nbranch != g.nbranch: raise NotSummarised("the loop branches")
        new, deltas = False, {}
        for c in cells:
            a, b = g.heap[c], s.heap.get(c)
            if a is b or c in temps: continue
            out = []
            try:
                diff(a, b, (), out)
            except NotSummarised:
                if c in local and c != itercell:
                    temps.add(c); new = True
                    for key in [q for q in list(acc) + list(inc) if q[0] == c]: acc.pop(key, None); inc.pop(key, None)
                    continue
                raise
            for path, kind, d in out:
                if kind == "bytes":
                    if d is None:
                        raise NotSummarised("a buffer grows by something unknown")
                    if (c, path) not in acc:
                        acc[(c, path)] = batom(node("var", f"{tag}_b{len(acc)}", sort="bytes")); new = True
                    deltas[(c, path)] = d
                else:
                    if inc.get((c, path), d) != d or (c, path) in inc and inc[(c, path)] != d:
                        if c in local and c != itercell and not path: 
                            inc.pop((c, path)); temps.add(c); new = True; continue
                        raise NotSummarised("a counter moves irregularly")
                    if (c, path) not in inc: inc[(c, path)] = d; new = True
        # references and known values in ghost state must not have moved
        if s.ghost != g.ghost: raise NotSummarised("ghost state changes")
        return new, deltas

    # which locals, buffers and counters move: iterate to a fixed point on a few byte values
    for byte in (0x00, 0x41, 0xff, 0x00):
        while True:
            g, cell = start(ex, general(), fr, x, byte, back)
            g0 = g.copy()
            hit = run_body(ex, g)
            if hit.cell != cell: raise NotSummarised("another loop")
            new, _ = observe(g0, hit)
            if not new: break
    tables = {key: [] for key in acc}
    for byte in range(256):
        g, cell = start(ex, general(), fr, x, byte, back)
        g0 = g.copy()
        hit = run_body(ex, g)
        if hit.cell != cell: raise NotSummarised("another loop")
        new, deltas = observe(g0, hit)
        if new: raise NotSummarised("an iteration changes more than the others")
        for key in acc: tables[key].append(deltas.get(key, b""))
        if len(tables) and set(acc) != set(tables): raise NotSummarised("buffers")
    # the state after the last iteration
    n = x.end - x.pos
    for c in temps: st.heap[c] = UNDEF
    for (c, path), d in inc.items(): st.heap[c] = put(st.heap[c], path, get(st.heap[c], path) + n * d)
    for (c, path), t in tables.items(): st.heap[c] = put(st.heap[c], path, cat(get(st.heap[c], path), flatmap(t, seq)))
    ex.store(st, fr, x.set(pos=x.end) if not back else x.set(end=x.pos))
    ex.loops_summed = getattr(ex, "loops_summed", {})
    ex.loops_summed[shape0[-1][0]] = "closed form of a loop over a byte string: 256 cases of one iteration, by induction"
    return st


HEX = [f"{b:02x}".encode() for b in range(256)]


def flatmap(t, seq):
    if seq.lit is not None: return blit(b"".join(t[c] for c in seq.lit))
    if all(len(x) == 1 for x in t):
        if all(t[b][0] == b for b in range(256)): return seq
        if len(set(t)) == 1: return bfill(P(t[0][0]), seq.length)
    if t == HEX: return batom(node("hexmap", seq, sort="bytes", len=seq.length * 2))
    if set(t) == {b""}: return Bytes(())
    h = hashlib.sha256(b"".join(bytes([len(x) & 255, len(x) >> 8]) + x for x in t)).hexdigest()[:16]
    ls = {len(x) for x in t}
    if len(ls) == 1: return batom(node("flatmap", h, seq, sort="bytes", len=seq.length * ls.pop(), inj=len(set(t)) == 256))
    return batom(node("flatmap", h, seq, sort="bytes"))
