"""Loops that run a symbolic number of times, one step at a time (`while i < n`, `for i in 0..n`, the loops of
core's own adapters over such ranges).

When a loop is reached, its first two iterations are executed.  If both are taken under one condition
`bound - k >= 0` that moves by one per iteration, and the state changes by growing buffers, filling in buffers
and moving counters, a closed form of the state after k iterations is guessed from them.  The guess is then
checked: from the closed form at an arbitrary k, with the condition holding, the body must come back to the loop
head in exactly the closed form at k + 1, and must leave the loop exactly when the condition fails.  By induction
the loop ends in the closed form at k = bound + 1; everything the body owes (indices in bounds, no overflow) is
owed at the arbitrary k.  A loop that is not of this form is left to the other rules."""
from execute import *
from terms import *
import terms, itertools, loops


class Hit(Exception):
    def __init__(self, st, back): self.st, self.back = st, back


class No(Exception): pass


GONE = object()
COUNT = itertools.count()


# ------------------------------------------------------------------ running one iteration
def one(ex, st, depth, head, blocks, reads=None, byte=None):
    """one iteration from the loop head: (state back at the head, its condition); the loop may only fork once;
    reads: list to collect the bytes read in; byte: (string, position, value) the value one byte is taken to have"""
    base = len(st.path)
    started = [False]
    def probe(s, f):
        n = len(s.frames)
        if n > depth: started[0] = True; return
        if n < depth: raise Hit(s, False)
        if f.bb == head:
            if started[0]: raise Hit(s, True)
            started[0] = True; return
        started[0] = True
        if f.bb not in blocks: raise Hit(s, False)
    backs, exits, work, forks, asked = [], [], [st], 0, 0
    ex.wprobe, ex.wreads, ex.wbyte = probe, [] if reads is None else reads, byte
    try:
        while work:
            s = work.pop()
            CTX.facts = s.facts
            n = len(ex.paths)
            try:
                out = ex.step_until_fork(s)
                if len(ex.paths) != n: raise No("ends in the loop")
                if len(out) > 1:
                    forks += 1
                    if forks > 1: raise No("the loop branches")
                work.extend(out)
            except Hit as h:
                (backs if h.back else exits).append(h.st)
    finally:
        ex.wprobe = ex.wreads = ex.wbyte = None
    if len(backs) != 1 or len(exits) != 1 or forks != 1: raise No(f"{len(backs)} ways back, {len(exits)} ways out, {forks} forks")
    b, e = backs[0], exits[0]
    cb = [c for k, c in b.path[base:] if k == "branch"]
    ce = [c for k, c in e.path[base:] if k == "branch"]
    if len(cb) != 1 or len(ce) != 1 or bnot(cb[0]) != ce[0]: raise No("the condition of the loop")
    return b, bound(cb[0])


def bound(c):
    """p with c = (p >= 0)"""
    if c.op == "ge0": return c.args[0]
    if c.op == "not" and c.args[0].op == "ge0": return -c.args[0].args[0] - 1
    raise No(f"condition {c!r}")


# ------------------------------------------------------------------ guessing the closed form
class Same:
    def __init__(self, v): self.v = v
    def at(self, k): return self.v


class Count:
    def __init__(self, v, d): self.v, self.d = v, d
    def at(self, k): return self.v + k * self.d


class Run:
    """pre ++ (what k iterations wrote) ++ the rest of the old contents"""
    def __init__(self, pre, unit, m, src, post): self.pre, self.unit, self.m, self.src, self.post = pre, unit, m, src, post
    def at(self, k):
        n = k * self.m
        w = bfill(self.unit, n) if self.src is None else Bytes((("sub", self.src[0], self.src[1], self.src[1] + n),))
        if self.post == "keep": return cat(self.pre, w)
        if self.post[0] == "front": return cat(w, self.pre)
        old, at = self.post[1], self.post[2]
        return cat(self.pre, w, sub(old, at + n, old.length))


class Parts:
    def __init__(self, mk_, parts): self.mk, self.parts = mk_, parts
    def at(self, k): return self.mk([p.at(k) for p in self.parts])


class Tab:
    """grows by a literal that depends on one byte alone"""
    def __init__(self, v): self.v, self.any = v, batom(node("var", f"wloop_b{next(COUNT)}", sort="bytes"))
    def at(self, k): return self.any


class Temp:
    def at(self, k): return UNDEF


def written(x, y):
    """(unit, source) of the bytes written by the first and the second iteration"""
    m = x.length.const
    if m is None or m < 1 or y.length != P(m): raise No("the size of what an iteration writes")
    if x == y:
        if x.lit is not None and len(set(x.lit)) == 1: return m, P(x.lit[0]), None
        if len(x.segs) == 1 and x.segs[0][0] in ("el", "fill"): return m, x.segs[0][1], None
    if len(x.segs) == 1 == len(y.segs) and x.segs[0][0] == "sub" == y.segs[0][0] and x.segs[0][1] is y.segs[0][1]:
        a, lo = x.segs[0][1], x.segs[0][2]
        if y.segs[0][2] - lo == P(m): return m, None, (a, lo)
    raise No(f"what the iterations write: {x!r}, {y!r}")


def common(a, b):
    """the longest common prefix, up to a boundary of segments of one of them"""
    n = P(0)
    for s, t in zip(a.segs, b.segs):
        if s == t: n = n + seg_len(s); continue
        if s[0] == t[0] == "sub" and s[1] is t[1] and s[2] == t[2]:
            d = (s[3] - t[3])
            return n + (seg_len(t) if d.const is not None and d.const > 0 or d.const is None and entails_ge0(d) else seg_len(s))
        if s[0] == t[0] == "lit":
            k = 0
            while k < min(len(s[1]), len(t[1])) and s[1][k] == t[1][k]: k += 1
            return n + k
        return n
    return n


def guess(a, b, c, local, tab=None):
    if a is b is c or a == b == c: return Same(a)
    try:
        if isinstance(a, Poly) and isinstance(b, Poly) and isinstance(c, Poly):
            d = (b - a).const
            if d is None or (c - b).const != d: raise No("a counter moves irregularly")
            return Count(a, d)
        if isinstance(a, Bytes) and isinstance(b, Bytes) and isinstance(c, Bytes):
            la, lb, lc = a.length, b.length, c.length
            m = (lb - la).const
            if tab is not None and loops.extension(a, b) and loops.extension(b, c):
                t = Tab(a); tab.append(t); return t
            if m is None or (lc - lb).const != m or m < 0: raise No("a buffer grows irregularly")
            if m > 0:
                if sub(b, P(0), la) == a and sub(c, P(0), lb) == b:
                    m, unit, src = written(sub(b, la, lb), sub(c, lb, lc))
                    return Run(a, unit, m, src, "keep")
                if nf(sub(b, P(m), lb)) == nf(a) and nf(sub(c, P(m), lc)) == nf(b):
                    m, unit, src = written(sub(b, P(0), P(m)), sub(c, P(0), P(m)))
                    if src is None: return Run(a, unit, m, None, ("front",))
                raise No("a buffer changes")
            # same length: written in place, from p on
            p, q = common(a, b), common(b, c)
            m = (q - p).const
            if m is None or m < 1: raise No(f"places written to: {p!r}, {q!r}")
            if sub(b, p + m, lb) != sub(a, p + m, la) or sub(c, q + m, lc) != sub(b, q + m, lb): raise No("a buffer changes")
            m2, unit, src = written(sub(b, p, p + m), sub(c, q, q + m))
            return Run(sub(a, P(0), p), unit, m, src, ("over", a, p))
        if isinstance(a, Adt) and isinstance(b, Adt) and isinstance(c, Adt) and (a.path, a.variant, len(a.fields)) == (b.path, b.variant, len(b.fields)) == (c.path, c.variant, len(c.fields)):
            return Parts(lambda vs: Adt(a.path, a.variant, vs, a.ty), [guess(x, y, z, False, tab) for x, y, z in zip(a.fields, b.fields, c.fields)])
        if isinstance(a, Obj) and isinstance(b, Obj) and isinstance(c, Obj) and a.kind == b.kind == c.kind and a.kind != "rng" and set(a.f) == set(b.f) == set(c.f):
            keys = list(a.f)
            return Parts(lambda vs: Obj(a.kind, **dict(zip(keys, vs))), [guess(a.f[x], b.f[x], c.f[x], False, tab) for x in keys])
        if isinstance(a, Clo) and isinstance(b, Clo) and isinstance(c, Clo) and a.key == b.key == c.key:
            return Parts(lambda vs: Clo(a.key, vs, a.tid), [guess(x, y, z, False, tab) for x, y, z in zip(a.up, b.up, c.up)])
        raise No(f"{a!r} becomes {b!r}")
    except No:
        if local: return Temp()
        raise


def nf(v):
    """constant runs joined with the fills beside them"""
    if not isinstance(v, Bytes): return v
    out = []
    for s in v.segs:
        if s[0] == "lit" and len(set(s[1])) == 1: s = ("fill", P(s[1][0]), P(len(s[1])))
        if out and out[-1][0] == "fill" == s[0] and out[-1][1] == s[1]: out[-1] = ("fill", s[1], out[-1][2] + s[2])
        else: out.append(s)
    return tuple(s for s in out if seg_len(s).const != 0)


def equal(a, b):
    if a is b or a == b: return True
    if isinstance(a, Bytes) and isinstance(b, Bytes): return nf(a) == nf(b)
    if isinstance(a, Adt) and isinstance(b, Adt) and (a.path, a.variant, len(a.fields)) == (b.path, b.variant, len(b.fields)):
        return all(equal(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and set(a.f) == set(b.f): return all(equal(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Clo) and isinstance(b, Clo) and a.key == b.key: return all(equal(x, y) for x, y in zip(a.up, b.up))
    return False


# ------------------------------------------------------------------ the rule
def summarise(ex, st, f):
    """st moved to the last visit of the loop head (where the condition fails); False if the rule does not apply"""
    if getattr(ex, "wprobe", None) or getattr(ex, "probing", False): return False
    fn, head = f.fn, f.bb
    marks = (len(ex.obligations), set(ex.seen_ob), len(ex.unsupported), len(ex.paths))
    facts = CTX.facts
    known = []
    try:
        return _summarise(ex, st, f, head, ex.loop_blocks(fn, head), known)
    except Exception as e:
        if known: f.visits[("wloop", head)] = str(e)[:200]
        ex.__dict__.setdefault("why_not", []).append(f"{fn['path']} bb{head}: {e}")
        del ex.obligations[marks[0]:]
        ex.seen_ob = marks[1]
        del ex.unsupported[marks[2]:]
        del ex.paths[marks[3]:]
        return False
    finally:
        CTX.facts = facts


def _summarise(ex, st, f, head, blocks, known):
    depth = len(st.frames)
    reads = []
    try:
        return by_form(ex, st, f, head, blocks, known, depth, reads, None)
    except Exception as e:
        # the same loop, one value of the byte it reads at a time
        for v, i in reads[:4]:
            if v.lit is None and i.const is None or i.const is not None:
                try:
                    return by_form(ex, st, f, head, blocks, known, depth, [], (v, i))
                except Exception: pass
        raise e


def by_form(ex, st, f, head, blocks, known, depth, reads, at):
    s0 = st.copy()
    byte = lambda j, b=0x41: None if at is None else (at[0], at[1] + j, b)
    s1, p0 = one(ex, st.copy(), depth, head, blocks, reads, byte(0))
    s2, p1 = one(ex, s1.copy(), depth, head, blocks, None, byte(1))
    if (p0 - p1).const != 1: raise No("the condition does not move by one")
    known.append(1)
    CTX.facts = s0.facts
    n = p0 + 1
    if not (n.const is not None and n.const >= 0 or entails_ge0(n)): raise No(f"the number of iterations: {n!r}")
    if s0.ghost != s1.ghost or s0.ghost != s2.ghost: raise No("ghost state changes")
    local = {c for c in f.locals.values()}
    form, tabs = {}, None if at is None else []
    CTX.facts = s2.facts
    for c, a in s0.heap.items():
        form[c] = guess(a, s1.heap.get(c, GONE), s2.heap.get(c, GONE), c in local, tabs)
    # an arbitrary iteration
    ex.fresh = getattr(ex, "fresh", 0) + 1
    k = P(node("var", f"wloop{ex.fresh}_k", sort="int", usize=True))
    if at is not None:
        if len(tabs) != 1: raise No("several buffers grow")
        table = []
    for b in range(256 if at is not None else 1):
        g = s0.copy()
        for c in (ge0(k), ge0(n - k)):
            if not g.assume(c, "loop"): raise No("no iteration")
        CTX.facts = g.facts
        for c, fm in form.items():
            if not isinstance(fm, Same): g.heap[c] = fm.at(k)
        s, pk = one(ex, g, depth, head, blocks, None, byte(k, b))
        if pk != p0 - k: raise No(f"the condition at iteration k: {pk!r}")
        CTX.facts = s.facts
        for c, fm in form.items():
            if isinstance(fm, Temp): continue
            want = fm.at(k + 1)
            if at is not None: want, got = grown(fm, want, s.heap.get(c), k, table)
            else: got = s.heap.get(c)
            if not equal(want, got): raise No(f"the closed form does not carry over: {want!r} / {got!r}")
        if at is not None and len(table) != b + 1: raise No("nothing is written")
        if s.ghost != s0.ghost: raise No("ghost state changes")
    # the state in which the loop ends
    CTX.facts = st.facts
    if at is not None:
        tabs[0].any = cat(tabs[0].v, loops.flatmap(table, sub(at[0], at[1], at[1] + n)))
    for c, fm in form.items():
        if not isinstance(fm, Same): st.heap[c] = fm.at(n)
    ex.loops_summed = getattr(ex, "loops_summed", {})
    ex.loops_summed[f.fn["path"]] = "closed form of a loop run a symbolic number of times: guessed from two iterations, proved by induction on an arbitrary one" + (" (256 cases)" if at is not None else "")
    return True


def grown(fm, want, got, k, table):
    """where fm has the buffer that grows by the table, note what was written"""
    if isinstance(fm, Tab):
        if not isinstance(got, Bytes): raise No("a buffer changes")
        x = loops.extension(want, got) if got != want else b""
        if x is None: raise No("a buffer grows by something unknown")
        table.append(x)
        return want, want
    if isinstance(fm, Parts):
        def kids(v): return v.fields if isinstance(v, Adt) else list(v.f.values()) if isinstance(v, Obj) else v.up
        if type(want) is not type(got) or len(kids(want)) != len(kids(got)): return want, got
        for p, x, y in zip(fm.parts, kids(want), kids(got)):
            x, y = grown(p, x, y, k, table)
            if not equal(x, y): return want, got
        return want, want
    return want, got
