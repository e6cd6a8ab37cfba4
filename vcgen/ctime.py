"""Constant-time regions (C23).

Between ghost::ct_begin(label, expected, reply, secrets) and ghost::ct_end() everything a run reveals through its
timing is an observation: which way a branch goes, which element is indexed, how far a variable-time comparison
of byte strings gets.  For each observation o that mentions a secret there is a relational obligation: in two runs
that agree on everything but the secrets, that got to the same place, and in which the reply is right or wrong
alike, o is the same.  The secrets of the two runs are two arbitrary values of the right length."""
import re
from terms import *
from execute import *
import emit


class LeakOb(Obligation):
    """goal: the observation; region: (label, the reply is right, secrets)"""
    __slots__ = ("region",)


# library functions whose running time may depend on the bytes they are given, other than comparisons
VARIABLE = re.compile(r"fmt::|from_utf8|num_bigint|num_traits|::sort|password_hash|decompress|ToString|to_string|ghost::(debug|is_utf8|contains)|"
                      r"arith::(Div|Rem)|from_digit|lexlt|Lazy|rand_core|hkdf")


def mentions(x, secrets, ex=None, st=None, depth=0):
    if depth > 60: return True
    rec = lambda y: mentions(y, secrets, ex, st, depth + 1)
    if isinstance(x, N):
        if x in secrets: return True
        k = x.id
        memo = ex.__dict__.setdefault("_mentions", {}) if ex is not None else {}
        r = memo.get((k, secrets))
        if r is None:
            r = any(rec(a) for a in x.args)
            memo[(k, secrets)] = r
        return r
    if isinstance(x, Poly): return any(rec(a) for a in x.atoms())
    if isinstance(x, Bytes):
        for s in x.segs:
            if any(rec(y) for y in s[1:] if isinstance(y, (N, Poly, Bytes))): return True
        return False
    if isinstance(x, Pt): return any(rec(a) or rec(p) for a, p in x.t)
    if isinstance(x, Sc): return rec(x.p)
    if isinstance(x, Adt): return any(rec(y) for y in x.fields)
    if isinstance(x, Arr): return any(rec(y) for y in x.els)
    if isinstance(x, Clo): return any(rec(y) for y in x.up)
    if isinstance(x, Obj): return any(rec(y) for y in x.f.values())
    if isinstance(x, Ref) and st is not None:
        try: return rec(ex.load(st, x))
        except Unsupported: return True
    if isinstance(x, tuple): return any(rec(y) for y in x)
    return False


def region(st): return st.ghost.get("ct")


def observe(ex, st, at, what, x):
    """x (a condition, an integer or a pair of byte strings compared from the left) is visible in the run time"""
    r = region(st)
    if r is None: return
    label, right, secrets = r
    if not mentions(x, secrets, ex, st): return
    fn = st.frames[-1].fn["path"] if st.frames else "?"
    pth = tuple(c for _, c in st.path)
    key = ("ct", what, x, pth, label, at)
    if key in ex.seen_ob: return
    ex.seen_ob.add(key)
    o = LeakOb((what, x), pth, label, at, "ct", fn, bool(st.ghost.get("inj")))
    o.region = r
    ex.obligations.append(o)


def branching(ex, st, conds):
    r = region(st)
    if r is None: return
    f = st.frames[-1] if st.frames else None
    at = f.fn["blocks"][f.bb]["at"] if f and f.bb is not None else "?"
    seen = set()
    for c in conds:
        if isinstance(c, bool) or c in st.facts or bnot(c) in st.facts or bnot(c) in seen: continue
        seen.add(c)
        observe(ex, st, at, "branch", c)


def compared(ctx, a, b):
    """a == b by a function that stops at the first difference"""
    if region(ctx.st) is None: return
    a, b = ctx.d(a), ctx.d(b)
    if isinstance(a, Adt) and isinstance(b, Adt):
        for x, y in zip(a.fields, b.fields): compared(ctx, x, y)
    elif isinstance(a, Arr) and isinstance(b, Arr):
        for x, y in zip(a.els, b.els): compared(ctx, x, y)
    elif isinstance(a, Poly) and isinstance(b, Poly): return
    elif isinstance(a, Bytes) and isinstance(b, Bytes):
        observe(ctx.ex, ctx.st, ctx.at, "compare", (a, b))
    elif mentions((a, b), region(ctx.st)[2], ctx.ex, ctx.st): raise Unsupported("comparison of a secret that is not a byte string")


def library_call(ex, st, name, args):
    r = region(st)
    if r is not None and VARIABLE.search(name) and any(mentions(a, r[2], ex, st) for a in args):
        raise Unsupported(f"{name} on a secret, in code that has to be constant-time")


def index(ex, st, i):
    if region(st) is not None and not isinstance(i, int) and P(i).const is None:
        f = st.frames[-1]
        observe(ex, st, f.fn["blocks"][f.bb]["at"], "index", P(i))


def obligation(name, ob):
    what, x = ob.goal
    label, right, secrets = ob.region
    f = emit.Fn(ob.inj)
    f.cutall = True
    def run(i):
        f.memo = {}
        for j, s in enumerate(secrets):
            v = f"secret{i}_{j}"
            f.params[v] = "B"
            f.memo[s] = v
        for j, s in enumerate(secrets):
            l = atom_len(s)
            if not mentions(l, secrets): f.assume(f"secret{i}_{j}.len() == {f.poly(l)}", "the secrets of two compared runs have the same length")
        p = [f.prop(c) for c in ob.path]
        e = f.prop(right)
        if what == "branch": o = f.prop(x)
        elif what == "index": o = f.poly(x)
        else: o = f"{f.use('first_difference', ['B', 'B'], 'int')}({f.bytes(x[0])}, {f.bytes(x[1])})"
        return p, e, o
    p1, e1, o1 = run(1)
    p2, e2, o2 = run(2)
    path = p1 + p2 + [f"({e1}) == ({e2})"]
    body = [f"if 0 <= {lo} && {lo} <= {hi} && {hi} <= {n}.len() {{ assert({n} =~= {n}.subrange(0, {lo}) + {n}.subrange({lo}, {hi}) + {n}.subrange({hi}, {n}.len() as int)); }}"
            for n, cs in f.cuts.items() for lo, hi in cs]
    return f, f.text(name, path, body + [f"assert(({o1}) == ({o2}));"])
