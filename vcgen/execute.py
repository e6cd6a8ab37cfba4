"""Symbolic executor for the MIR dumped by the driver.

One run explores every path of one function.  Branches on symbolic conditions fork the path; panics,
failed bounds and overflow checks are obligations; calls are executed through the callee's contract when
it has one (contracts.py), through an assumed contract when it is external (natives.py), and through its
own MIR otherwise.
"""
import json
from terms import *
import terms


class Unsupported(Exception):
    """The code uses a construct outside the verified fragment."""


class Adt:
    __slots__ = ("path", "variant", "fields", "ty")
    def __init__(self, path, variant, fields, ty=None):
        self.path, self.variant, self.fields, self.ty = path, variant, tuple(fields), ty
    def __repr__(self): return f"{self.path.split('::')[-1] if self.path else ''}#{self.variant}{self.fields!r}"
    def __eq__(self, o): return isinstance(o, Adt) and (self.path, self.variant, self.fields) == (o.path, o.variant, o.fields)
    def __hash__(self): return hash((self.path, self.variant, self.fields))


def Tup(*f): return Adt(None, 0, f)
UNIT = Tup()
OPT, RES = "core::option::Option", "core::result::Result"
def Some(v): return Adt(OPT, 1, (v,))
NONE = Adt(OPT, 0, ())
def Ok(v): return Adt(RES, 0, (v,))
def Err(v): return Adt(RES, 1, (v,))


class Arr:
    """array / Vec / slice of non-byte elements with a known length"""
    __slots__ = ("els",)
    def __init__(self, els): self.els = tuple(els)
    def __repr__(self): return f"Arr{list(self.els)}"
    def __eq__(self, o): return isinstance(o, Arr) and self.els == o.els
    def __hash__(self): return hash(("Arr", self.els))


class Clo:
    __slots__ = ("key", "up", "tid")
    def __init__(self, key, up, tid): self.key, self.up, self.tid = key, tuple(up), tid
    def __repr__(self): return f"closure {self.key}"


class Fn:
    __slots__ = ("callee",)
    def __init__(self, c): self.callee = c
    def __repr__(self): return f"fn {self.callee['path']}"


class Ref:
    __slots__ = ("cell", "path")
    def __init__(self, cell, path=()): self.cell, self.path = cell, tuple(path)
    def __repr__(self): return f"&{self.cell}{list(self.path) if self.path else ''}"
    def __eq__(self, o): return isinstance(o, Ref) and (self.cell, self.path) == (o.cell, o.path)
    def __hash__(self): return hash((self.cell, self.path))


class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()


class Obj:
    """immutable record for native state: kind + fields (digest state, rng, iterators, ...)"""
    __slots__ = ("kind", "f")
    def __init__(self, kind, **f): self.kind, self.f = kind, f
    def __getattr__(self, k):
        try: return self.f[k]
        except KeyError: raise AttributeError(k)
    def set(self, **kw):
        d = dict(self.f); d.update(kw); return Obj(self.kind, **d)
    def __repr__(self): return f"{self.kind}{self.f}"
    def key(self): return (self.kind, tuple(sorted((k, v) for k, v in self.f.items())))
    def __eq__(self, o): return isinstance(o, Obj) and self.kind == o.kind and self.f == o.f
    def __hash__(self): return hash((self.kind, tuple(sorted((k, hash(v)) for k, v in self.f.items() if not isinstance(v, dict)))))


class Frame:
    __slots__ = ("fn", "key", "locals", "bb", "si", "dest", "target", "visits", "onret")
    def __init__(self, fn, key):
        self.fn, self.key = fn, key
        self.locals = {}
        self.bb = 0
        self.si = 0
        self.dest = None      # (frame-independent) Ref to write the result to
        self.target = None
        self.visits = {}
        self.onret = None
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.key, f.locals, f.bb, f.si, f.dest, f.target, f.onret = self.fn, self.key, dict(self.locals), self.bb, self.si, self.dest, self.target, self.onret
        f.visits = dict(self.visits)
        return f


class State:
    __slots__ = ("frames", "heap", "path", "facts", "n", "nbranch", "trace", "ghost")
    def __init__(self):
        self.frames, self.heap, self.path, self.facts = [], {}, [], set()
        self.n = 0
        self.nbranch = 0
        self.trace = []
        self.ghost = {}
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.path = list(self.path)
        s.facts = set(self.facts)
        s.n, s.nbranch = self.n, self.nbranch
        s.trace = list(self.trace)
        s.ghost = dict(self.ghost)
        return s
    def alloc(self, v):
        self.n += 1
        self.heap[self.n] = v
        return self.n
    def assume(self, c, kind="branch"):
        """add condition c to the path; False if it contradicts a fact syntactically"""
        if c is True: return True
        if c is False: return False
        if bnot(c) in self.facts: return False
        if c in self.facts: return True
        self.path.append((kind, c))
        self.learn(c)
        return True
    def learn(self, c):
        self.facts.add(c)
        if c.op == "and":
            for x in c.args: self.learn(x)
        # p >= 0 tells p + k >= 0; recorded lazily by the exact canonical node only


class Obligation:
    __slots__ = ("goal", "path", "label", "at", "kind", "fn", "inj")
    def __init__(self, goal, path, label, at, kind, fn, inj=False):
        self.inj = inj
        self.goal, self.path, self.label, self.at, self.kind, self.fn = goal, tuple(path), label, at, kind, fn


class Fork(Exception):
    """raised by a native: outcomes = [(cond, thunk(state) -> value or Fork)]"""
    def __init__(self, outcomes): self.outcomes = outcomes


class CallInto:
    """returned by a native: continue by calling fnval with args and deliver its result (through `then`)"""
    def __init__(self, fnval, args, then=None): self.fnval, self.args, self.then = fnval, args, then


def seq2(a, b):
    """continuation a, then b"""
    if a is None or b is None: return a or b
    def both(ex, s, r):
        r = a(ex, s, r)
        if isinstance(r, CallInto): return CallInto(r.fnval, r.args, seq2(r.then, b))
        return b(ex, s, r)
    return both


class CallBody:
    """returned by a native: execute the callee's own source after all"""
    def __init__(self, key): self.key = key


class CallAgain:
    """returned by a native: evaluate the same call again (with what the branch taken now says)"""
    def __init__(self, ctx): self.c, self.args = ctx.callee, ctx.args


class Panic:
    def __init__(self, msg): self.msg = msg


class Executor:
    def __init__(self, dump, natives, overrides=None, limits=None):
        self.d = dump
        self.types = dump["types"]
        self.fns = dump["fns"]
        self.natives = natives
        self.overrides = overrides or {}
        self.obligations = []
        self.seen_ob = set()
        self.paths = []         # finished paths: (state, result)
        self.used_natives = {}
        self.used_fns = {}
        self.used_contracts = {}
        self.unsupported = []
        self.max_paths = (limits or {}).get("paths", 4000)
        self.max_steps = (limits or {}).get("steps", 2_000_000)
        self.steps = 0
        self.adts = {}
        for t in self.types:
            if t["k"] == "adt": self.adts.setdefault(t["path"], t)
        self.statics = {}
        self.loops_cut = {}

    # ------------------------------------------------------------- types
    def ty(self, i): return self.types[i]

    def is_bytes_ty(self, t):
        k = t["k"]
        if k == "str": return True
        if k in ("slice", "array"):
            e = self.ty(t["el"])
            return e["k"] == "int" and e["bits"] == 8 and not e["signed"]
        if k == "adt":
            p = t["path"]
            if p in ("alloc::string::String",): return True
            if p in ("alloc::vec::Vec", "generic_array::GenericArray", "alloc::boxed::Box"):
                a = t["args"][0]
                e = self.ty(a) if isinstance(a, int) else None
                if p == "alloc::boxed::Box": return e is not None and self.is_bytes_ty(e)
                return e is not None and e["k"] == "int" and e["bits"] == 8 and not e["signed"]
        return False

    def const_len(self, c):
        if c["c"] == "int": return P(int(c["v"]))
        if c["c"] == "param": return P(self.constparam(c["name"]))
        raise Unsupported(f"array length {c}")

    def constparam(self, name):
        return node("var", "c_" + name, sort="int", usize=True)

    # ------------------------------------------------------------- symbolic inputs
    def symbolic(self, st, tid, name):
        t = self.ty(tid)
        h = self.natives.symbolic(self, st, t, name)
        if h is not None: return h
        k = t["k"]
        if k == "bool": return node("var", name, sort="bool")
        if k == "int": return P(node("var", name, sort="int", bits=t["bits"], signed=t["signed"]))
        if k == "ref":
            inner = self.ty(t["to"])
            return Ref(st.alloc(self.symbolic(st, t["to"], name)))
        if self.is_bytes_ty(t):
            if k == "array": return batom(node("var", name, sort="bytes", len=self.const_len(t["len"])))
            return batom(node("var", name, sort="bytes", **({"text": True} if k == "str" or k == "adt" and t["path"] == "alloc::string::String" else {})))
        if k == "tuple":
            return Tup(*[self.symbolic(st, e, f"{name}_{i}") for i, e in enumerate(t["els"])])
        if k == "array":
            n = self.const_len(t["len"]).const
            if n is not None and n <= 64: return Arr([self.symbolic(st, t["el"], f"{name}_{i}") for i in range(n)])
        if k == "param":
            return node("var", name, sort="Obj", tyname=t["s"])
        if k == "adt":
            if t["adt"] == "struct" and (all(f[1] is not None for f in t["variants"][0]["fields"])):
                return Adt(t["path"], 0, [self.symbolic(st, f[1], f"{name}_{f[0]}") for f in t["variants"][0]["fields"]], tid)
            return node("var", name, sort="Obj", tyname=t["s"])
        if k == "alias":
            return node("var", name, sort="Obj", tyname=t["s"])
        raise Unsupported(f"symbolic input of type {t['s']}")

    # ------------------------------------------------------------- memory
    def proj(self, v, step):
        k = step[0]
        if k == "f":
            if isinstance(v, Adt):
                if step[1] >= len(v.fields): raise Unsupported(f"field {step[1]} of {v!r}")
                return v.fields[step[1]]
            if isinstance(v, Clo): return v.up[step[1]]
            if v is UNDEF: return UNDEF
            r = self.natives.field(self, v, step)
            if r is not None: return r
            raise Unsupported(f"field {step[1]} of {v!r}")
        if k == "i":
            if isinstance(v, Bytes):
                w = getattr(self, "wreads", None)
                if w is not None:
                    w.append((v, step[1]))
                    y = self.wbyte
                    if y is not None and step[1] == y[1] and v == y[0]: return P(y[2])
                return terms.index(v, step[1])
            if isinstance(v, Arr):
                c = step[1].const
                if c is None or c >= len(v.els): raise Unsupported("symbolic index into array of non-bytes")
                return v.els[c]
        if k == "s":
            if isinstance(v, Bytes): return sub(v, step[1], step[2])
            if isinstance(v, Arr):
                lo, hi = step[1].const, step[2].const
                if lo is None or hi is None: raise Unsupported("symbolic slice of non-bytes")
                return Arr(v.els[lo:hi])
        raise Unsupported(f"projection {step} of {v!r}")

    def inject(self, v, step, new):
        k = step[0]
        if k == "f":
            if isinstance(v, Adt):
                f = list(v.fields); f[step[1]] = new
                return Adt(v.path, v.variant, f, v.ty)
            if isinstance(v, Clo):
                f = list(v.up); f[step[1]] = new
                return Clo(v.key, f, v.tid)
            if v is UNDEF:
                raise Unsupported("partial initialisation")
        if k == "i":
            if isinstance(v, Bytes):
                return update(v, step[1], step[1] + 1, mk([("el", P(new))]))
            if isinstance(v, Arr):
                c = step[1].const
                if c is None: raise Unsupported("symbolic index write")
                f = list(v.els); f[c] = new
                return Arr(f)
        if k == "s":
            if isinstance(v, Bytes): return update(v, step[1], step[2], new)
            if isinstance(v, Arr):
                lo, hi = step[1].const, step[2].const
                return Arr(v.els[:lo] + new.els + v.els[hi:])
        raise Unsupported(f"write projection {step} of {v!r}")

    def load(self, st, ref):
        v = st.heap[ref.cell]
        for s in ref.path: v = self.proj(v, s)
        return v

    def store(self, st, ref, new):
        def go(v, path):
            if not path: return new
            return self.inject(v, path[0], go(self.proj(v, path[0]), path[1:]))
        st.heap[ref.cell] = go(st.heap[ref.cell], ref.path) if ref.path else new

    def deref(self, st, v):
        """follow references until a non-reference value"""
        while isinstance(v, Ref): v = self.load(st, v)
        return v

    def local_cell(self, st, f, l):
        c = f.locals.get(l)
        if c is None:
            c = st.alloc(UNDEF)
            f.locals[l] = c
        return c

    def place(self, st, f, p):
        cur = Ref(self.local_cell(st, f, p[0]))
        for e in p[1]:
            k = e[0]
            if k == "deref":
                v = self.load(st, cur)
                if isinstance(v, Ref): cur = v
                elif isinstance(v, Obj) and v.kind == "box": cur = v.ref
                else: raise Unsupported(f"dereference of {v!r}")
            elif k == "field": cur = Ref(cur.cell, cur.path + (("f", e[1]),))
            elif k == "downcast": pass
            elif k == "index":
                i = self.load(st, Ref(self.local_cell(st, f, e[1])))
                if "ct" in st.ghost: self.natives.ctime.index(self, st, i)
                cur = Ref(cur.cell, cur.path + (("i", i),))
            elif k == "cindex":
                if e[3]:
                    n = self.length(self.load(st, cur))
                    cur = Ref(cur.cell, cur.path + (("i", n - e[1]),))
                else:
                    cur = Ref(cur.cell, cur.path + (("i", P(e[1])),))
            elif k == "subslice":
                n = self.length(self.load(st, cur))
                hi = n - e[2] if e[3] else P(e[2])
                cur = Ref(cur.cell, cur.path + (("s", P(e[1]), hi),))
            else:
                raise Unsupported("projection " + k)
        return cur

    def length(self, v):
        if isinstance(v, Bytes): return v.length
        if isinstance(v, Arr): return P(len(v.els))
        raise Unsupported(f"length of {v!r}")

    # ------------------------------------------------------------- operands
    def const(self, st, c):
        k = c["c"]
        if k == "int":
            t = self.ty(c["ty"])
            v = int(c["v"])
            if t["k"] == "bool": return bool(v)
            if t["k"] == "int" and t["signed"] and v >= 1 << (t["bits"] - 1): v -= 1 << t["bits"]
            return P(v)
        if k == "refbytes": return Ref(st.alloc(blit(bytes.fromhex(c["v"]))))
        if k == "bytes": return blit(bytes.fromhex(c["v"]))
        if k == "array":
            t = self.ty(c["ty"])
            return Arr([self.const(st, x) for x in c["v"]])
        if k == "ref": return Ref(st.alloc(self.const(st, c["v"])))
        if k == "agg":
            t = self.ty(c["ty"])
            fs = [self.const(st, x) for x in c["fields"]]
            if t["k"] == "adt":
                r = self.natives.const_adt(self, t, c["variant"], fs)
                if r is not None: return r
            return Adt(t["path"] if t["k"] == "adt" else None, c["variant"], fs, c["ty"])
        if k == "zst":
            t = self.ty(c["ty"])
            if t["k"] == "fndef": return Fn(t["callee"])
            if t["k"] == "closure": return Clo(t["key"], (), c["ty"])
            if t["k"] == "adt": return Adt(t["path"], 0, (), c["ty"])
            return UNIT
        if k == "param": return P(self.constparam(c["name"]))
        if k == "uneval":
            v = self.natives.constant(self, st, c)
            if v is not None: return v
            if "v" in c: return self.const(st, c["v"])
            if "body" in c: return self.run_const(st, c["body"])
            raise Unsupported(f"constant {c['path']}")
        if k == "static":
            return self.static(st, c["path"], c)
        if k == "opaque":
            v = self.natives.constant(self, st, c)
            if v is not None: return v
            raise Unsupported(f"opaque constant {self.ty(c['ty'])['s'] if 'ty' in c else c}")
        raise Unsupported(f"constant {c}")

    def static(self, st, path, c):
        """a place holding the static's identity"""
        k = ("static", path)
        if k not in st.ghost:
            st.ghost[k] = st.alloc(Obj("static", path=path))
        return Ref(st.ghost[k])

    def run_const(self, st, key):
        """execute a constant/promoted body; it must be branch-free on symbols"""
        if key not in self.fns: raise Unsupported(f"constant body {key} not available")
        sub_ = State()
        sub_.heap, sub_.n, sub_.facts, sub_.path, sub_.ghost = st.heap, st.n, st.facts, list(st.path), st.ghost
        fr = Frame(self.fns[key], key)
        ret = sub_.alloc(UNDEF)
        fr.dest = Ref(ret)
        sub_.frames.append(fr)
        save = self.paths
        self.paths = []
        try:
            self.explore(sub_)
            if len(self.paths) != 1: raise Unsupported(f"constant body {key} branches")
            s2 = self.paths[0][0]
        finally:
            self.paths = save
        st.heap, st.n, st.ghost = s2.heap, s2.n, s2.ghost
        return st.heap[ret]

    def operand(self, st, f, o, dead_ok=False):
        if "p" in o:
            v = self.load(st, self.place(st, f, o["p"]))
            if v is UNDEF and dead_ok: return v
            if v is UNDEF:
                t = self.ty(f.fn["locals"][o["p"][0]])
                if not o["p"][1] and (t["k"] == "tuple" and not t["els"]): return UNIT
                if not o["p"][1] and t["k"] == "adt" and t["path"] == "core::marker::PhantomData": return Adt(t["path"], 0, ())
                raise Unsupported("use of an uninitialised or loop-varying local")
            return v
        if "k" in o: return self.const(st, o["k"])
        return False  # runtime checks flag

    # ------------------------------------------------------------- rvalues
    def rvalue(self, st, f, r, dty):
        k = r[0]
        if k == "use": return self.operand(st, f, r[1])
        if k == "ref":
            p = r[2]
            if p[1] and p[1][-1][0] == "deref":
                v = self.load(st, self.place(st, f, [p[0], p[1][:-1]]))
                if isinstance(v, Obj) and v.kind == "dyn": return v
            return self.place(st, f, p)
        if k == "repeat":
            v = self.operand(st, f, r[1])
            n = self.const_len(r[2])
            t = self.ty(dty) if dty is not None else None
            if isinstance(v, Poly) and t is not None and self.is_bytes_ty(t): return bfill(v, n)
            if n.const is None or n.const > 4096: raise Unsupported("array of symbolic length")
            return Arr([v] * n.const)
        if k == "bin":
            # the standard library's MIR is optimised: it compares discriminants of dead temporaries and
            # drops the result; such a value stays undefined and any use of it is refused
            a, b = self.operand(st, f, r[2], True), self.operand(st, f, r[3], True)
            if a is UNDEF or b is UNDEF: return UNDEF
            return self.binop(st, f, r[1], a, b, dty, r)
        if k == "un":
            v = self.operand(st, f, r[2])
            if r[1] == "Not":
                if isinstance(v, (bool, N)): return bnot(v)
                t = self.ty(dty)
                if t["k"] == "bool": return bnot(v)
                if t["signed"]: return -v - 1
                return P((1 << t["bits"]) - 1) - v
            if r[1] == "Neg": return -v
            if r[1] == "PtrMetadata": return self.length(self.load(st, v))
            raise Unsupported("unary " + r[1])
        if k == "discr":
            v = self.load(st, self.place(st, f, r[1]))
            v = self.deref(st, v)
            if v is UNDEF: return UNDEF
            if isinstance(v, Adt) and v.path:
                t = self.adts.get(v.path)
                if t is None: return P(v.variant)
                return P(self.signed_discr(t, v.variant))
            if isinstance(v, Obj):
                r2 = self.natives.discr(self, v)
                if r2 is not None: return r2
            raise Unsupported(f"discriminant of {v!r}")
        if k == "agg":
            kind, tid, vi, ops = r[1], r[2], r[3], r[4]
            vs = [self.operand(st, f, o) for o in ops]
            if kind == "tuple": return Tup(*vs)
            if kind == "array":
                el = self.ty(tid)
                if el["k"] == "int" and el["bits"] == 8 and not el["signed"]: return mk([("el", P(x)) for x in vs])
                return Arr(vs)
            if kind == "adt":
                t = self.ty(tid)
                r2 = self.natives.const_adt(self, t, vi, vs)
                if r2 is not None: return r2
                return Adt(t["path"], vi, vs, tid)
            if kind == "closure":
                return Clo(self.ty(tid)["key"], vs, tid)
            raise Unsupported("aggregate " + kind)
        if k == "unsize":
            v = self.operand(st, f, r[1])
            return Obj("dyn", ref=v, vt=r[3]) if r[3] is not None else v
        if k == "cast":
            v = self.operand(st, f, r[2])
            t = self.ty(r[3])
            if "IntToInt" in r[1]:
                if isinstance(v, (bool,)): v = P(int(v))
                elif isinstance(v, N) and v.sort == "bool": v = P(node("b2i", v, sort="int"))
                if isinstance(v, Adt): v = self.rvalue_discr(v)
                return self.wrap(v, t)
            return v      # pointer casts, unsizing, reborrows
        if k == "setdiscr":
            raise Unsupported("set discriminant")
        raise Unsupported(f"rvalue {r[:2]}")

    def rvalue_discr(self, v):
        t = self.adts.get(v.path)
        return P(self.signed_discr(t, v.variant)) if t else P(v.variant)

    def signed_discr(self, t, i):
        """the dump gives discriminants without a sign; Ordering is the signed enum that the code meets"""
        d = int(t["variants"][i]["discr"])
        return d - 256 if t["path"] == "core::cmp::Ordering" and d > 127 else d

    def wrap(self, p, t):
        """p converted to integer type t"""
        if t.get("s") == "char": t = {"bits": 32, "signed": False}
        bits, signed = t["bits"], t["signed"]
        if p.const is not None:
            v = p.const % (1 << bits)
            if signed and v >= 1 << (bits - 1): v -= 1 << bits
            return P(v)
        lo, hi = self.bounds(p)
        tlo, thi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if lo is not None and hi is not None and lo >= tlo and hi <= thi: return p
        if signed: return P(node("wraps", p, bits, sort="int", signed=True))
        return mod(p, P(1 << bits))

    def bounds(self, p):
        """interval of p from the ranges of its atoms (None = unbounded)"""
        lo = hi = 0
        for m, c in p.t:
            mlo = mhi = 1
            for a, e in m:
                al, ah = self.atom_bounds(a)
                if al is None or al < 0: return None, None
                mlo, mhi = mlo * al**e, (None if ah is None or mhi is None else mhi * ah**e)
            if c >= 0:
                lo = None if lo is None else lo + c * mlo
                hi = None if hi is None or mhi is None else hi + c * mhi
            else:
                lo = None if lo is None or mhi is None else lo + c * mhi
                hi = None if hi is None else hi + c * mlo
        return lo, hi

    def atom_bounds(self, a):
        if a.meta.get("signed"): return None, None
        if a.op == "var" and "bits" in a.meta: return 0, (1 << a.meta["bits"]) - 1
        if a.op in ("byteat", "byteatb"): return 0, 255
        if a.op in ("leint", "beint"): return 0, (1 << a.args[-1]) - 1
        if a.op == "len" or a.meta.get("usize"): return 0, (1 << 48)
        if a.op == "mod" and a.args[1].const is not None: return 0, a.args[1].const - 1
        if a.op == "b2i": return 0, 1
        if a.meta.get("sc"): return 0, terms.L - 1
        if a.op == "bitop": return 0, (1 << a.args[-1]) - 1
        return 0, None

    def binop(self, st, f, op, a, b, dty, r):
        t = self.ty(dty) if dty is not None else None
        if isinstance(a, Adt) and not a.fields and a.path == "core::cmp::Ordering": a = P(a.variant - 1)
        if isinstance(b, Adt) and not b.fields and b.path == "core::cmp::Ordering": b = P(b.variant - 1)
        isb = lambda x: isinstance(x, bool) or isinstance(x, N) and x.sort == "bool"
        if isb(a) and isb(b):
            if op == "Eq": return biff(a, b)
            if op == "Ne": return bnot(biff(a, b))
            if op == "BitAnd": return band(a, b)
            if op == "BitOr": return bor(a, b)
            if op == "BitXor": return bnot(biff(a, b))
            raise Unsupported("boolean " + op)
        if not (isinstance(a, Poly) and isinstance(b, Poly)): raise Unsupported(f"{op} of {a!r}, {b!r}")
        if op == "Eq": return eqi(a, b)
        if op == "Ne": return bnot(eqi(a, b))
        if op == "Lt": return lt(a, b)
        if op == "Le": return le(a, b)
        if op == "Gt": return lt(b, a)
        if op == "Ge": return le(b, a)
        if op == "Cmp": raise Unsupported("three-way compare")
        if op.endswith("WithOverflow"):
            base = op[:3]
            it = self.ty(t["els"][0])
            v = a + b if base == "Add" else a - b if base == "Sub" else product(a, b)
            lo, hi = (-(1 << (it["bits"] - 1)), (1 << (it["bits"] - 1)) - 1) if it["signed"] else (0, (1 << it["bits"]) - 1)
            vlo, vhi = self.bounds(v)
            ok = True
            if not (vlo is not None and vlo >= lo): ok = band(ok, ge0(v - lo))
            if not (vhi is not None and vhi <= hi): ok = band(ok, ge0(P(hi) - v))
            # the wrapped value is only used after the overflow assertion; it equals v there
            return Tup(v, bnot(ok))
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            v = a + b if op[:3] == "Add" else a - b if op[:3] == "Sub" else product(a, b)
            return self.wrap(v, t)
        if op in ("Div", "Rem"):
            if a.const is not None and b.const: return P(a.const // b.const if op == "Div" else a.const % b.const)
            if t["signed"]: raise Unsupported("signed division")
            if op == "Rem": return mod(a, b)
            return P(node("div", a, b, sort="int"))
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            op = op.replace("Unchecked", "")
            if a.const is not None and b.const is not None:
                x, y = a.const, b.const
                v = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}.get(op)
                if v is None: v = x << (y % t["bits"]) if op == "Shl" else x >> (y % t["bits"])
                return self.wrap(P(v), t)
            if op == "Shr" and b.const is not None and not t["signed"]: return P(node("div", a, P(1 << b.const), sort="int"))
            if op == "Shl" and b.const is not None: return self.wrap(a * (1 << b.const), t)
            if op == "BitAnd" and b.const is not None and b.const & (b.const + 1) == 0: return mod(a, P(b.const + 1))
            if op == "BitAnd" and a.const is not None and a.const & (a.const + 1) == 0: return mod(b, P(a.const + 1))
            x, y = sorted((a, b), key=repr) if op in ("BitAnd", "BitOr", "BitXor") else (a, b)
            return P(node("bitop", op, x, y, t["bits"], sort="int"))
        raise Unsupported("binary " + op)

    # ------------------------------------------------------------- obligations
    def oblige(self, st, goal, label, at, kind):
        """goal must hold here; afterwards it is known"""
        if goal is True or (isinstance(goal, N) and goal in st.facts):
            key = (goal, (), label, at)
            if key not in self.seen_ob:
                self.seen_ob.add(key)
                self.obligations.append(Obligation(goal, tuple(c for _, c in st.path), label, at, kind, st.frames[-1].fn["path"] if st.frames else "?", bool(st.ghost.get("inj"))))
            return True
        pth = tuple(c for _, c in st.path)
        key = (goal, pth, label, at)
        if key not in self.seen_ob:
            self.seen_ob.add(key)
            self.obligations.append(Obligation(goal, pth, label, at, kind, st.frames[-1].fn["path"] if st.frames else "?", bool(st.ghost.get("inj"))))
        if goal is False: return False
        st.path.append(("oblig", goal))
        st.learn(goal)
        return True

    # ------------------------------------------------------------- driver loop
    def run(self, key=None, args=None, setup=None):
        key = key or self.d["root"]
        fn = self.fns[key]
        st = State()
        CTX.facts = st.facts
        if args is None:
            names = dict((l, n) for l, n in fn["names"])
            args = [self.symbolic(st, fn["locals"][i + 1], "in_" + names.get(i + 1, f"arg{i}")) for i in range(fn["argc"])]
        self.inputs = args
        fr = Frame(fn, key)
        for i, a in enumerate(args): fr.locals[i + 1] = st.alloc(a)
        ret = st.alloc(UNDEF)
        fr.dest = Ref(ret)
        st.frames.append(fr)
        self.used_fns[key] = fn
        self.retcell = ret
        self.explore(st)
        return self.paths

    def explore(self, st0):
        work = [st0]
        while work:
            st = work.pop()
            CTX.facts = st.facts
            try:
                out = self.step_until_fork(st)
            except Unsupported as e:
                fr = st.frames[-1] if st.frames else None
                at = fr.fn["blocks"][fr.bb]["at"] if fr and fr.bb is not None else "?"
                self.unsupported.append((str(e), fr.fn["path"] if fr else "?", at))
                continue
            work.extend(out)
            if len(self.paths) + len(work) > self.max_paths:
                self.unsupported.append(("path limit", "", ""))
                return

    def step_until_fork(self, st):
        while True:
            self.steps += 1
            if self.steps > self.max_steps: raise Unsupported("step limit")
            if not st.frames:
                self.paths.append((st, None))
                return []
            f = st.frames[-1]
            bb = f.fn["blocks"][f.bb]
            if f.si == 0:
                if getattr(self, "wprobe", None): self.wprobe(st, f)
                r = self.loop_check(st, f)
                if r == "cut": return []
            while f.si < len(bb["s"]):
                p, r = bb["s"][f.si]
                f.si += 1
                if r[0] == "setdiscr": raise Unsupported("set discriminant")
                dty = None
                if p is not None:
                    dty = p[1][-1][2] if p[1] and p[1][-1][0] == "field" else (f.fn["locals"][p[0]] if not p[1] else None)
                v = self.rvalue(st, f, r, dty)
                if p is not None: self.assign(st, f, p, v)
            out = self.terminator(st, f, bb)
            if out is not None: return out

    def assign(self, st, f, p, v):
        if not p[1]:
            st.heap[self.local_cell(st, f, p[0])] = v
            return
        base = self.local_cell(st, f, p[0])
        if st.heap[base] is UNDEF and p[1][0][0] in ("field", "downcast"):
            # field-wise initialisation of a tuple or struct local
            t = self.ty(f.fn["locals"][p[0]])
            if t["k"] == "tuple": st.heap[base] = Tup(*[UNDEF] * len(t["els"]))
            elif t["k"] == "adt" and t["adt"] == "struct": st.heap[base] = Adt(t["path"], 0, [UNDEF] * len(t["variants"][0]["fields"]))
            else: raise Unsupported("field-wise initialisation")
        self.store(st, self.place(st, f, p), v)

    def loop_check(self, st, f):
        """Loops: unrolled while every branch in them is decided; at the second arrival after an undecided
        branch the loop state is generalised (havoc), at the third the path is cut (it is covered by the
        generalised one)."""
        v = f.visits.get(f.bb)
        if v is None:
            f.visits[f.bb] = (st.nbranch, 0, None, 0)
            if f.bb in self.back_targets(f.fn):
                self.natives.wloops.summarise(self, st, f)
                f.visits[f.bb] = (st.nbranch, 0, self.progress(st, f), 0)
            return
        if v[0] == st.nbranch: return
        preds = self.back_targets(f.fn)
        if ("wloop", f.bb) in f.visits: raise Unsupported("loop run a symbolic number of times: " + f.visits[("wloop", f.bb)])
        if f.bb not in preds:
            f.visits[f.bb] = (st.nbranch,) + v[1:]
            return
        if v[1] == 0:
            m = self.progress(st, f)
            if m and m != v[2] and v[3] < 70:
                # a counter or an iterator with known bounds has moved on: the loop is unrolled
                f.visits[f.bb] = (st.nbranch, 0, m, v[3] + 1)
                return
            self.havoc(st, f, f.bb)
            f.visits[f.bb] = (st.nbranch, 1, None, 0)
            self.loops_cut[(f.fn["path"], bb_at(f.fn, f.bb))] = "invariant: any state of the loop-assigned locals and of the generator"
            return
        return "cut"

    def progress(self, st, f):
        """the known counters and iterator positions among the locals of f"""
        out = []
        def walk(v, d=0):
            if isinstance(v, Poly):
                if v.const is not None: out.append((l, v.const))
            elif isinstance(v, Obj) and v.kind == "iter":
                if v.pos.const is not None and v.end.const is not None: out.append((l, v.pos.const, v.end.const))
            elif isinstance(v, Adt) and d < 4:
                for x in v.fields: walk(x, d + 1)
        for l, c in f.locals.items(): walk(st.heap.get(c))
        return tuple(out)

    def back_targets(self, fn):
        if "_back" not in fn:
            succ = {}
            for i, b in enumerate(fn["blocks"]):
                if b is None: continue
                t = b["t"]
                succ[i] = {"goto": lambda: [t[1]], "switch": lambda: [x[1] for x in t[2]] + [t[3]], "drop": lambda: [t[2]],
                           "call": lambda: [t[4]] if t[4] is not None else [], "assert": lambda: [t[4]]}.get(t[0], lambda: [])()
            back, color, loops = set(), {}, {}
            stack = [(0, iter(succ.get(0, [])))]
            color[0] = 1
            while stack:
                n, it = stack[-1]
                for s in it:
                    if color.get(s) == 1: back.add(s)
                    elif s not in color:
                        color[s] = 1
                        stack.append((s, iter(succ.get(s, []))))
                        break
                else:
                    color[n] = 2
                    stack.pop()
            fn["_back"] = back
            fn["_succ"] = succ
        return fn["_back"]

    def loop_blocks(self, fn, head):
        succ = fn["_succ"]
        # blocks that can reach head and are reachable from head
        fwd, w = {head}, [head]
        while w:
            for s in succ.get(w.pop(), []):
                if s not in fwd: fwd.add(s); w.append(s)
        pred = {}
        for a, ss in succ.items():
            for s in ss: pred.setdefault(s, []).append(a)
        bwd, w = {head}, [head]
        while w:
            for s in pred.get(w.pop(), []):
                if s not in bwd: bwd.add(s); w.append(s)
        return fwd & bwd

    def arbitrary(self, v, tid):
        """an arbitrary value in place of v (undefined when its kind has no symbolic form)"""
        self.fresh = getattr(self, "fresh", 0) + 1
        name = f"havoc_{self.fresh}"
        if isinstance(v, Sc): return Sc(P(node("var", name, sort="int", sc=True)))
        if isinstance(v, Pt): return pt_atom(v.kind, node("var", name, sort=v.kind))
        t = self.ty(tid)
        if t["k"] == "bool" and v is not UNDEF: return node("var", name, sort="bool")
        if t["k"] == "int" and v is not UNDEF: return P(node("var", name, sort="int", bits=t["bits"], signed=t["signed"]))
        return UNDEF

    def havoc(self, st, f, head):
        blocks = self.loop_blocks(f.fn, head)
        assigned = set()
        for b in blocks:
            blk = f.fn["blocks"][b]
            for p, r in blk["s"]:
                if p is None: raise Unsupported("loop with raw memory")
                if any(e[0] == "deref" for e in p[1]): raise Unsupported("loop writes through a reference")
                assigned.add(p[0])
            if blk["t"][0] == "call":
                if any(e[0] == "deref" for e in blk["t"][3][1]): raise Unsupported("loop writes through a reference")
                assigned.add(blk["t"][3][0])
        # cells other than this frame's locals written since the loop head was first reached: only the
        # random generator is allowed (its state becomes arbitrary); everything else must be unchanged
        base = f.visits[("heap", head)] if ("heap", head) in f.visits else None
        snap = st.ghost.get(("loop", id(f.fn), head))
        for l in assigned:
            c = f.locals.get(l)
            if c is not None: st.heap[c] = self.arbitrary(st.heap[c], f.fn["locals"][l])
        for c, v in list(st.heap.items()):
            if isinstance(v, Obj) and v.kind == "rng": st.heap[c] = self.natives.rng_havoc(self, st, v)
        # digest states, buffers and other objects reachable only through references must not change in the
        # loop; the conservative test is that no statement of the loop takes a mutable borrow of anything but
        # locals assigned in the loop or the generator
        for b in blocks:
            for p, r in f.fn["blocks"][b]["s"]:
                if r[0] == "ref" and r[1]:
                    pl = r[2]
                    if pl[0] in assigned and not any(e[0] == "deref" for e in pl[1]): continue
                    tgt = self.load(st, self.place(st, f, pl))
                    if isinstance(tgt, Obj) and tgt.kind == "rng": continue
                    tgt = self.deref(st, tgt)
                    if isinstance(tgt, Obj) and tgt.kind == "rng": continue
                    raise Unsupported("loop with a symbolic bound mutates state")

    # ------------------------------------------------------------- terminators
    def goto(self, f, bb):
        f.bb, f.si = bb, 0

    def terminator(self, st, f, bb):
        t = bb["t"]
        k = t[0]
        if k == "goto":
            self.goto(f, t[1]); return
        if k == "drop":
            self.goto(f, t[2]); return
        if k == "return":
            return self.do_return(st, f)
        if k == "switch":
            v = self.operand(st, f, t[1])
            return self.switch(st, f, v, t)
        if k == "assert":
            c = self.operand(st, f, t[1])
            goal = c if t[2] else bnot(c)
            if not self.oblige(st, goal, "no panic: " + t[3], bb["at"], "safety"): return []
            self.goto(f, t[4]); return
        if k == "call":
            return self.call_term(st, f, t, bb)
        if k == "unreachable":
            self.oblige(st, False, "unreachable code is not reached", bb["at"], "safety")
            return []
        raise Unsupported("terminator " + k)

    def do_return(self, st, f):
        v = st.heap[self.local_cell(st, f, 0)]
        if v is UNDEF: v = UNIT
        st.frames.pop()
        if f.onret is not None:
            v = f.onret(self, st, v)
            if isinstance(v, CallInto): return self.deliver(st, v, f.dest, f.target, None, "", None)
        if f.dest is not None: self.store_result(st, f.dest, v)
        if st.frames and f.target is not None: self.goto(st.frames[-1], f.target)
        elif st.frames and f.target is None: raise Unsupported("return into a diverging call")

    def store_result(self, st, dest, v):
        self.store(st, dest, v)

    def branch(self, st, conds):
        """conds: [(cond, action(state))]; returns successor states"""
        if "ct" in st.ghost: self.natives.ctime.branching(self, st, [c for c, _ in conds])
        live = []
        for c, act in conds:
            if c is False: continue
            if isinstance(c, N) and bnot(c) in st.facts: continue
            live.append((c, act))
            if c is True or c in st.facts: live = [(c, act)]; break
        if len(live) == 1 and (live[0][0] is True or live[0][0] in st.facts):
            r = live[0][1](st)
            return r
        self.exhaustive(st, [c for c, _ in conds])
        out = []
        for c, act in live:
            s = st.copy()
            s.nbranch += 1
            if not s.assume(c): continue
            CTX.facts = s.facts
            r = act(s)
            if r is None: out.append(s)
            else: out.extend(r)
        CTX.facts = st.facts
        return out

    def exhaustive(self, st, conds):
        """the outcomes of a branch cover every case: by their form, or by a condition to be discharged"""
        cs = {c for c in conds if c is not False}
        if any(c is True or c in st.facts or bnot(c) in cs for c in cs): return
        if any(c is band(*[bnot(x) for x in conds if x is not c]) for c in conds): return
        if band(*[bnot(c) for c in conds]) is False: return
        if not cs: return               # a path ended by an obligation or a precondition that is plainly false
        used, CTX.used = CTX.used, set(st.facts)
        CTX.cert("cases", *[c for c in conds if c is not False])
        CTX.used = used

    def switch(self, st, f, v, t):
        outs = []
        if isinstance(v, bool): v_is_bool = True
        elif isinstance(v, N) and v.sort == "bool": v_is_bool = True
        else: v_is_bool = False
        neg = []
        def go(bb):
            def act(s): self.goto(s.frames[-1], bb)
            return act
        for val, bb in t[2]:
            val = int(val)
            if v_is_bool:
                c = (v if val else bnot(v))
            else:
                ty = self.ty(t[4])
                if ty["k"] == "int" and ty["signed"] and val >= 1 << (ty["bits"] - 1): val -= 1 << ty["bits"]
                c = (v.const - val) % (1 << ty["bits"]) == 0 if v.const is not None and ty["k"] == "int" else eqi(v, val)
            outs.append((c, go(bb)))
            neg.append(bnot(c))
        outs.append((band(*neg), go(t[3])))
        # unreachable otherwise blocks are dropped when the explicit cases are exhaustive for bool
        return self.branch(st, outs)

    # ------------------------------------------------------------- calls
    def call_term(self, st, f, t, bb):
        c, ops, dplace, target, dty = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(st, f, o) for o in ops]
        dest = self.place(st, f, dplace) if target is not None else None
        if target is not None and dplace[1] and st.heap[dest.cell] is UNDEF:
            self.assign(st, f, dplace, UNDEF) if False else None
        if "indirect" in c:
            fv = self.operand(st, f, c["indirect"])
            return self.call_value(st, fv, args, dest, target, dty, bb["at"])
        return self.call(st, c, args, dest, target, dty, bb["at"])

    def finish_call(self, st, v, dest, target):
        if dest is not None: self.store_result(st, dest, v)
        if target is not None: self.goto(st.frames[-1], target)

    def call_value(self, st, fv, args, dest, target, dty, at, then=None):
        fv0 = fv
        fv = self.deref(st, fv)
        if isinstance(fv, Fn):
            return self.call(st, fv.callee, args, dest, target, dty, at, then)
        if isinstance(fv, Clo):
            body = self.fns.get(fv.key)
            if body is None: raise Unsupported(f"closure body {fv.key}")
            envt = self.ty(body["locals"][1])
            env = fv
            if envt["k"] == "ref":
                env = fv0 if isinstance(fv0, Ref) else Ref(st.alloc(fv))
                while isinstance(env, Ref) and isinstance(self.load(st, env), Ref): env = self.load(st, env)
            return self.push(st, fv.key, [env] + list(args), dest, target, then)
        raise Unsupported(f"call of {fv!r}")

    def push(self, st, key, args, dest, target, then=None):
        fn = self.fns.get(key)
        if fn is None: raise Unsupported(f"no body for {key}")
        self.used_fns[key] = fn
        if len(st.frames) > 60: raise Unsupported("recursion depth")
        fr = Frame(fn, key)
        if fn.get("spread") is not None:
            pass
        for i, a in enumerate(args): fr.locals[i + 1] = st.alloc(a)
        fr.dest, fr.target, fr.onret = dest, target, then
        st.frames.append(fr)

    def call(self, st, c, args, dest, target, dty, at, then=None):
        if "ctor" in c:
            tid, vi = c["ctor"]
            t = self.ty(tid)
            v = self.natives.const_adt(self, t, vi, args)
            if v is None: v = Adt(t["path"], vi, args, tid)
            return self.deliver(st, v, dest, target, dty, at, then)
        ov = self.override(c)
        if ov is not None:
            self.used_contracts[ov[0]] = self.used_contracts.get(ov[0], 0) + 1
            return self.push(st, ov[1], args, dest, target, then)
        h, name = self.natives.find(self, c, args, st)
        if h is not None:
            self.used_natives[name] = self.used_natives.get(name, 0) + 1
            ctx = Call(self, st, c, args, dty, at, name)
            if "ct" in st.ghost: self.natives.ctime.library_call(self, st, name, args)
            try:
                v = h(ctx, *args)
            except Fork as fk:
                return self.do_fork(st, fk, dest, target, dty, at, then)
            if isinstance(v, CallBody): return self.push(st, v.key, args, dest, target, then)
            return self.deliver(st, v, dest, target, dty, at, then)
        k = c.get("key") or c.get("dkey")
        if k: return self.push(st, k, args, dest, target, then)
        raise Unsupported(f"call of {c.get('rpath', c['path'])} ({c['path']})")

    def do_fork(self, st, fk, dest, target, dty, at, then):
        def mkact(th):
            def act(s):
                try:
                    v = th(s) if callable(th) else th
                except Fork as fk2:
                    r = self.do_fork(s, fk2, dest, target, dty, at, then)
                    return r
                return self.deliver(s, v, dest, target, dty, at, then)
            return act
        return self.branch(st, [(c, mkact(th)) for c, th in fk.outcomes])

    def deliver(self, st, v, dest, target, dty, at, then):
        if isinstance(v, Panic):
            self.oblige(st, False, "no panic: " + v.msg, at, "safety")
            return []
        if isinstance(v, CallAgain): return self.call(st, v.c, v.args, dest, target, dty, at, then)
        if isinstance(v, CallInto):
            inner = v.then
            def both(ex, s, r):
                if inner: r = inner(ex, s, r)
                if isinstance(r, CallInto): return CallInto(r.fnval, r.args, seq2(r.then, then))
                if then: r = then(ex, s, r)
                return r
            return self.call_value(st, v.fnval, v.args, dest, target, None, at, both if (inner or then) else None)
        if then: return self.deliver(st, then(self, st, v), dest, target, dty, at, None)
        self.finish_call(st, v, dest, target)
        return None

    def override(self, c):
        p = c.get("rpath") or c["path"]
        return self.overrides.get(p)


def bb_at(fn, i): return fn["blocks"][i]["at"]


class Call:
    """what a native sees of its call site"""
    def __init__(self, ex, st, callee, args, dty, at, name):
        self.ex, self.st, self.callee, self.args, self.dty, self.at, self.name = ex, st, callee, args, dty, at, name
    def d(self, v): return self.ex.deref(self.st, v)
    def load(self, r): return self.ex.load(self.st, r)
    def store(self, r, v): self.ex.store(self.st, r, v)
    def ref(self, v): return Ref(self.st.alloc(v))
    def oblige(self, goal, label): 
        if not self.ex.oblige(self.st, goal, label, self.at, "safety"): raise Fork([])
    def argty(self, i):
        a = self.callee["args"][i]
        return self.ex.ty(a) if isinstance(a, int) else a
    @property
    def rty(self): return self.ex.ty(self.dty)
