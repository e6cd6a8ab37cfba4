"""Terms of the verification-condition generator.

Every value the executor computes is kept in a canonical form.  Each non-trivial rewrite that produced a
canonical form is logged as a certificate (raw expression, canonical expression) and re-proved by Verus
(see emit.py), so the rewriting below is not part of the trusted base.
"""
import itertools

_seq = itertools.count()
_tab = {}


class N:
    """Hash-consed node; sort is 'int', 'bool', 'bytes', 'R' (ristretto), 'E' (edwards) or an opaque name."""
    __slots__ = ("op", "args", "sort", "id", "meta")

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.args))})" if self.args else self.op

    def __lt__(self, o):
        return self.id < o.id


def node(op, *args, sort, **meta):
    k = (op, args, sort)
    n = _tab.get(k)
    if n is None:
        n = N()
        n.op, n.args, n.sort, n.id, n.meta = op, args, sort, next(_seq), meta
        _tab[k] = n
    return n


class Poly:
    """Integer polynomial over int-sorted nodes: {monomial: coefficient}; monomial = ((atom, exp), ...)."""
    __slots__ = ("t", "h")

    def __init__(self, d):
        self.t = tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda x: tuple((a.id, e) for a, e in x[0])))
        self.h = hash(self.t)

    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __repr__(self): return " + ".join(f"{c}*{'*'.join(repr(a) + ('^%d' % e if e > 1 else '') for a, e in m)}" if m else str(c) for m, c in self.t) or "0"
    def __bool__(self): raise TypeError("Poly used as a truth value")

    @property
    def const(self):
        if not self.t: return 0
        if len(self.t) == 1 and self.t[0][0] == (): return self.t[0][1]
        return None

    @property
    def atom(self):
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1 and self.t[0][0][0][1] == 1:
            return self.t[0][0][0][0]
        return None

    def atoms(self):
        s = {}
        for m, _ in self.t:
            for a, _e in m: s[a] = 1
        return list(s)

    def __add__(self, o):
        o = P(o)
        d = dict(self.t)
        for m, c in o.t: d[m] = d.get(m, 0) + c
        return Poly(d)
    __radd__ = __add__

    def __neg__(self): return Poly({m: -c for m, c in self.t})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self

    def __mul__(self, o):
        o = P(o)
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = mono_mul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return Poly(d)
    __rmul__ = __mul__


def mono_mul(a, b):
    d = {}
    for x, e in a + b: d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda t: t[0].id))


def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): raise TypeError
    if isinstance(x, int): return Poly({(): x})
    if isinstance(x, N):
        assert x.sort == "int", x
        return Poly({((x, 1),): 1})
    raise TypeError(f"not an integer: {x!r}")


# ------------------------------------------------------------------ booleans
class Ctx:
    """Rewriting context: facts known on the current path, log of certificates."""
    def __init__(self):
        self.facts = set()
        self.certs = {}
        self.used = set()       # facts consulted since the last begin()

    def cert(self, kind, *data):
        k = (kind,) + data + (frozenset(self.used),)
        if k not in self.certs: self.certs[k] = len(self.certs)


CTX = Ctx()


def begin():
    CTX.used = set()


def certify(kind, *data):
    CTX.cert(kind, *data)


def bnot(b):
    if isinstance(b, bool): return not b
    if b.op == "not": return b.args[0]
    return node("not", b, sort="bool")


def band(*bs):
    out = []
    for b in bs:
        if b is True: continue
        if b is False: return False
        if isinstance(b, N) and b.op == "and":
            out.extend(b.args)
        else:
            out.append(b)
    out = list(dict.fromkeys(out))
    if not out: return True
    if len(out) == 1: return out[0]
    return node("and", *out, sort="bool")


def bor(*bs):
    return bnot(band(*[bnot(b) for b in bs]))


def biff(a, b):
    if isinstance(a, bool): return b if a else bnot(b)
    if isinstance(b, bool): return a if b else bnot(a)
    if a is b: return True
    if a is bnot(b): return False
    return node("iff", a, b, sort="bool")


def nonneg(a):
    return not a.meta.get("signed")


def ge0(p):
    """p >= 0"""
    p = P(p)
    if p.const is not None: return p.const >= 0
    if all(nonneg(a) for a in p.atoms()):
        if all(c >= 0 for _, c in p.t): return True
        if all(c <= 0 for _, c in p.t) and dict(p.t).get((), 0) < 0: return False
    # divide by the gcd of the non-constant coefficients (integers: floor the constant)
    from math import gcd
    g = 0
    for m, c in p.t:
        if m: g = gcd(g, abs(c))
    if g > 1:
        p = Poly({m: (c // g) for m, c in p.t})
    a = p.atom
    neg = ge_node(-p - 1)
    return bnot(neg) if neg.id < node("ge0", p, sort="bool").id else node("ge0", p, sort="bool")


def ge_node(p):
    return node("ge0", p, sort="bool")


def le(a, b): return ge0(P(b) - P(a))
def lt(a, b): return ge0(P(b) - P(a) - 1)


def eqi(a, b):
    a, b = P(a), P(b)
    if a == b: return True
    d = a - b
    if d.const is not None: return False
    if all(nonneg(x) for x in d.atoms()):
        k = dict(d.t).get((), 0)
        if k > 0 and all(c >= 0 for _, c in d.t): return False
        if k < 0 and all(c <= 0 for _, c in d.t): return False
    lead = d.t[-1][1]
    if lead < 0: d = -d
    # print-friendly sides
    pos = Poly({m: c for m, c in d.t if c > 0})
    neg = Poly({m: -c for m, c in d.t if c < 0})
    return node("eqi", pos, neg, sort="bool")


# ------------------------------------------------------------------ byte strings
class Bytes:
    """Concatenation of segments: ('lit', bytes) ('el', Poly) ('fill', Poly v, Poly n) ('sub', atom, lo, hi)."""
    __slots__ = ("segs", "h")

    def __init__(self, segs):
        self.segs = tuple(segs)
        self.h = hash(self.segs)

    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Bytes) and self.segs == o.segs
    def __repr__(self): return "<" + " ++ ".join(seg_repr(s) for s in self.segs) + ">"

    @property
    def length(self):
        r = P(0)
        for s in self.segs: r = r + seg_len(s)
        return r

    @property
    def lit(self):
        if not self.segs: return b""
        if len(self.segs) == 1 and self.segs[0][0] == "lit": return self.segs[0][1]
        return None

    @property
    def whole(self):
        """the atom, if this is exactly one whole atom"""
        if len(self.segs) == 1 and self.segs[0][0] == "sub":
            _, a, lo, hi = self.segs[0]
            if lo.const == 0 and hi == atom_len(a): return a
        return None


def seg_repr(s):
    if s[0] == "lit": return s[1].hex() if len(s[1]) <= 16 else s[1][:16].hex() + "..(%d)" % len(s[1])
    if s[0] == "sub":
        if s[2].const == 0 and s[3] == atom_len(s[1]): return repr(s[1])
        return f"{s[1]!r}[{s[2]!r}..{s[3]!r}]"
    return repr(s)


def atom_len(a):
    l = a.meta.get("len")
    return l if l is not None else P(node("len", a, sort="int"))


def seg_len(s):
    if s[0] == "lit": return P(len(s[1]))
    if s[0] == "el": return P(1)
    if s[0] == "fill": return s[2]
    return s[3] - s[2]


def mk(segs):
    out = []
    for s in segs:
        l = seg_len(s)
        if l.const == 0: continue
        if s[0] == "el" and s[1].const is not None:
            s = ("lit", bytes([s[1].const & 255]))
        if s[0] == "el":
            a = s[1].atom
            if a is not None and a.op == "byteat":
                s = ("sub", a.args[0], a.args[1], a.args[1] + 1)
        if s[0] == "fill" and s[1].const is not None and s[2].const is not None and s[2].const <= 65536:
            s = ("lit", bytes([s[1].const]) * s[2].const)
        if out:
            p = out[-1]
            if p[0] == "lit" and s[0] == "lit":
                out[-1] = ("lit", p[1] + s[1]); continue
            if p[0] == "sub" and s[0] == "sub" and p[1] is s[1] and p[3] == s[2]:
                out[-1] = ("sub", p[1], p[2], s[3]); continue
            if p[0] == "fill" and s[0] == "fill" and p[1] == s[1]:
                out[-1] = ("fill", p[1], p[2] + s[2]); continue
        out.append(s)
    return Bytes(out)


def blit(b): return mk([("lit", bytes(b))])
def batom(a): return mk([("sub", a, P(0), atom_len(a))])
def bfill(v, n): return mk([("fill", P(v), P(n))])


def cat(*bs):
    segs = []
    for b in bs: segs.extend(b.segs)
    return mk(segs)


def same(p, q):
    """p = q, syntactically or by the facts on this path"""
    if p == q: return True
    d = p - q
    if d.const is not None: return False
    return entails_ge0(d) and entails_ge0(-d)


def red(p):
    """p with the atoms this path fixes to a constant replaced"""
    p = P(p)
    if p.const is not None: return p
    for a in p.atoms():
        c, f = fixed(a)
        if f is not None:
            CTX.used.add(f)
            p = subst_atom(p, a, P(c))
    return p


def fixed(a):
    key = (CTX.facts, len(CTX.facts))
    c = getattr(CTX, "_fx", None)
    if c is None or c[0][0] is not key[0] or c[0][1] != key[1]:
        d = {}
        for f in CTX.facts:
            if f.op == "eqi":
                x, y = f.args
                if x.const is not None: x, y = y, x
                if x.atom is not None and y.const is not None: d[x.atom] = (y.const, f)
        CTX._fx = (key, d)
    return CTX._fx[1].get(a, (None, None))


def split_at(b, k):
    """Split b at offset k (Poly) if a segment boundary or a cut inside a segment is syntactically known."""
    k = red(k)
    pos = P(0)
    if k == pos: return Bytes(()), b
    for i, s in enumerate(b.segs):
        l = red(seg_len(s))
        nxt = pos + l
        if same(nxt, k): return mk(b.segs[:i + 1]), mk(b.segs[i + 1:])
        # inside this segment?
        off = k - pos
        inside = is_true(ge0(off)) and (is_true(ge0(l - off)) or i == len(b.segs) - 1)
        if inside:
            if s[0] == "lit":
                c = off.const
                if c is None: return None
                return mk(b.segs[:i] + (("lit", s[1][:c]),)), mk((("lit", s[1][c:]),) + b.segs[i + 1:])
            if s[0] == "sub":
                return mk(b.segs[:i] + (("sub", s[1], s[2], s[2] + off),)), mk((("sub", s[1], s[2] + off, s[3]),) + b.segs[i + 1:])
            if s[0] == "fill":
                return mk(b.segs[:i] + (("fill", s[1], off),)), mk((("fill", s[1], l - off),) + b.segs[i + 1:])
        pos = nxt
    return None


def sub(b, lo, hi):
    """b[lo..hi]; the caller has already made 0 <= lo <= hi <= len an obligation."""
    lo, hi = P(lo), P(hi)
    if lo.const == 0 and hi == b.length: return b
    if lo == hi: return Bytes(())
    begin()
    lo0, hi0 = lo, hi
    lo, hi = red(lo), red(hi)
    s = split_at(b, hi)
    if s is not None:
        s2 = split_at(s[0], lo)
        if s2 is not None:
            certify("sub", b, lo0, hi0, s2[1])
            return s2[1]
    a = node("subraw", b, lo, hi, sort="bytes", len=hi - lo)
    return batom(a)


def update(b, lo, hi, new):
    """b with b[lo..hi] replaced by new (same length, an obligation of the caller)."""
    lo, hi = P(lo), P(hi)
    if lo.const == 0 and hi == b.length: return new
    begin()
    lo, hi = red(lo), red(hi)
    if lo.const == 0 and same(hi, red(b.length)):
        certify("update", b, lo, hi, new, new)
        return new
    s = split_at(b, hi)
    if s is not None:
        s2 = split_at(s[0], lo)
        if s2 is not None:
            r = cat(s2[0], new, s[1])
            certify("update", b, lo, hi, new, r)
            return r
    return batom(node("updraw", b, lo, hi, new, sort="bytes", len=b.length))


def index(b, i):
    """byte of b at i, an int"""
    i = red(i)
    pos = P(0)
    for s in b.segs:
        l = red(seg_len(s))
        off = i - pos
        if is_true(ge0(off)) and is_true(ge0(l - off - 1)) or off.const == 0 and s[0] == "el":
            if s[0] == "lit" and off.const is not None: return P(s[1][off.const])
            if s[0] == "el": return s[1]
            if s[0] == "fill": return s[1]
            if s[0] == "sub": return P(node("byteat", s[1], s[2] + off, sort="int"))
        pos = pos + l
    w = b.whole
    if w is not None: return P(node("byteat", w, i, sort="int"))
    return P(node("byteatb", b, i, sort="int"))


def eqb(a, b):
    if a == b: return True
    la, lb = a.lit, b.lit
    if la is not None and lb is not None: return False
    if a.length.const is not None and b.length.const is not None and a.length != b.length: return False
    if eqi(a.length, b.length) is False: return False
    for x, l in ((a, lb), (b, la)):
        w = x.whole
        if l is not None and w is not None and w.op == "enc" and isinstance(w.args[0], Pt) and l == ID_ENC[w.args[0].kind]:
            return pt_eq(w.args[0], pt_id(w.args[0].kind))
        if l is not None and w is not None and w.op == "i2osp" and 0 < len(l) <= 8 and (l[0] or len(l) == 1):
            # the shortest encoding of a number is the one of a constant
            used, CTX.used = CTX.used, set()
            certify("minbe", a if x is a else b, Bytes((("lit", l),)), w.args[0])
            CTX.used = used
            return eqi(w.args[0], int.from_bytes(l, "big"))
    x, y = sorted((a, b), key=repr)
    return node("eqb", x, y, sort="bool")


# encodings of the neutral elements (ristretto255 and edwards25519)
ID_ENC = {"R": bytes(32), "E": b"\x01" + bytes(31)}


# ------------------------------------------------------------------ naturals: big-endian bytes, mod, powers
def os2ip(b):
    segs = list(b.segs)
    orig = b
    while segs:
        s = segs[0]
        if s[0] == "lit":
            t = s[1].lstrip(b"\0")
            if t == s[1]: break
            segs[0:1] = [("lit", t)] if t else []
        elif s[0] == "fill" and s[1].const == 0:
            segs.pop(0)
        else:
            break
    b = Bytes(segs)
    if b.lit is not None: return P(int.from_bytes(b.lit, "big"))
    if b != orig: certify("os2ip_strip", orig, b)
    w = b.whole
    if w is not None and w.op == "i2osp":
        return w.args[0]
    return P(node("os2ip", b, sort="int"))


def i2osp(p):
    p = P(p)
    if p.const is not None:
        n = p.const
        return blit(n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big"))
    return batom(node("i2osp", p, sort="bytes"))


def subst_atom(p, a, q):
    """replace atom a by polynomial q in p"""
    r = P(0)
    for m, c in p.t:
        t = P(c)
        for x, e in m:
            f = q if x is a else P(x)
            for _ in range(e): t = t * f
        r = r + t
    return r


def strip(p, n):
    """a canonical polynomial congruent to p modulo n"""
    p, n = P(p), P(n)
    orig = p
    changed = True
    while changed:
        changed = False
        for a in p.atoms():
            if a.op == "mod" and a.args[1] == n:
                p = subst_atom(p, a, a.args[0]); changed = True
                break
    na = n.atom
    d = {}
    for m, c in p.t:
        if na is not None and any(x is na for x, _ in m): continue
        if n.const is not None: c %= n.const
        # merge powers of the same base
        pw, rest = {}, []
        for x, e in m:
            if x.op == "powmod" and x.args[2] == n:
                pw[x.args[0]] = pw.get(x.args[0], P(0)) + x.args[1] * e
            else:
                rest.append((x, e))
        mm = tuple(rest)
        for b, e in pw.items():
            mm = mono_mul(mm, ((node("powmod", b, e, n, sort="int"), 1),))
        d[mm] = d.get(mm, 0) + c
    r = Poly(d)
    if r != orig: certify("strip", orig, r, n)
    return r


def mod(p, n):
    p, n = P(p), P(n)
    if n.const is not None and p.const is not None and n.const > 0: return P(p.const % n.const)
    q = strip(p, n)
    if q.const == 0: return P(0)
    a = q.atom
    if a is not None and a.op == "powmod" and a.args[2] == n: return q
    return P(node("mod", q, n, sort="int"))


def quotient(p, n):
    p, n = P(p), P(n)
    if p.const is not None and n.const: return P(p.const // n.const)
    return P(node("div", p, n, sort="int"))


def product(a, b):
    """a * b, where (x / n) * n is x - x mod n"""
    a, b = P(a), P(b)
    for x, y in ((a, b), (b, a)):
        for d in x.atoms():
            if d.op == "div" and d.args[1] == y and y.const != 0:
                q, r = {}, {}
                for m, c in x.t:
                    if any(z is d for z, _ in m): q[tuple((z, e - (z is d)) for z, e in m if e - (z is d))] = c
                    else: r[m] = c
                used, CTX.used = CTX.used, set()
                certify("divmul", d.args[0], y)
                CTX.used = used
                return product(Poly(q), d.args[0] - mod(d.args[0], y)) + product(Poly(r), y)
    return a * b


def powmod(b, e, n):
    b, e, n = P(b), P(e), P(n)
    if b.const is not None and e.const is not None and n.const is not None and n.const > 0: return P(pow(b.const, e.const, n.const))
    b0 = strip(b, n)
    if len(b0.t) == 1 and b0.t[0][1] == 1 and b0.t[0][0]:
        m = b0.t[0][0]
        r = P(1)
        for x, k in m:
            if x.op == "powmod" and x.args[2] == n:
                r = r * P(node("powmod", x.args[0], x.args[1] * e * k, n, sort="int"))
            else:
                r = r * P(node("powmod", P(x), e * k, n, sort="int"))
        res = mod(r, n)
        if res != P(node("powmod", b, e, n, sort="int")): certify("powmod", b, e, n, res)
        return res
    res = P(node("powmod", b0, e, n, sort="int"))
    if b0 != b: certify("powmod", b, e, n, res)
    return res


# ------------------------------------------------------------------ scalars (integers mod the group order) and points
L = 2**252 + 27742317777372353535851937790883648493


class Sc:
    """A dalek Scalar: the residue modulo the group order of an integer polynomial over scalar atoms."""
    __slots__ = ("p",)
    def __init__(self, p): self.p = P(p)
    def __eq__(self, o): return isinstance(o, Sc) and self.p == o.p
    def __hash__(self): return hash(("Sc", self.p))
    def __repr__(self): return f"Sc[{self.p!r}]"


def sc_val(s):
    """the canonical representative of the scalar, as an integer in [0, L)"""
    p = s.p
    if p.const is not None: return P(p.const % L)
    a = p.atom
    if a is not None and a.meta.get("sc"): return p
    return P(node("modL", p, sort="int", sc=True))


def sc_from_int(p):
    """scalar congruent to the integer p: strip modL atoms"""
    return Sc(p)


def sc_inv(s):
    """multiplicative inverse; dalek's invert() maps 0 to 0"""
    p = s.p
    if p.const is not None: return Sc(P(pow(p.const % L, L - 2, L)))
    # inverse distributes over monomials
    if len(p.t) == 1 and p.t[0][1] == 1:
        r = P(1)
        for x, e in p.t[0][0]:
            y = x.args[0].atom if x.op == "scinv" and x.args[0].atom is not None else None
            f = P(y) if y is not None else P(node("scinv", P(x), sort="int", sc=True))
            for _ in range(e): r = r * f
        if r.atom is None: begin(); certify("scinv", p, r)
        return Sc(r)
    return Sc(P(node("scinv", p, sort="int", sc=True)))


def sc_cancel(p):
    """x * inv(x) -> 1 for every atom x known to be non-zero on this path"""
    d = {}
    ch = False
    begin()
    for m, c in p.t:
        md = dict(m)
        for x in list(md):
            if x.op == "scinv" and x in md:
                y = x.args[0].atom
                if y is not None and y in md and is_false(sc_eq(Sc(P(y)), Sc(P(0)))):
                    k = min(md[x], md[y])
                    md[x] -= k; md[y] -= k
                    for z in (x, y):
                        if md[z] == 0: del md[z]
                    ch = True
        mm = tuple(sorted(md.items(), key=lambda t: t[0].id))
        d[mm] = d.get(mm, 0) + c
    r = Poly(d) if ch else p
    if ch: certify("sccancel", p, r)
    return r


def lin_facts():
    """polynomials known to be >= 0 on this path, each with the fact that says so"""
    key = (CTX.facts, len(CTX.facts))
    c = getattr(CTX, "_lf", None)
    if c is not None and c[0][0] is key[0] and c[0][1] == key[1]: return c[1]
    out = []
    for f in CTX.facts:
        if f.op == "ge0": out.append((f.args[0], f))
        elif f.op == "eqi":
            out.append((f.args[0] - f.args[1], f)); out.append((f.args[1] - f.args[0], f))
        elif f.op == "not":
            g = f.args[0]
            if g.op == "ge0": out.append((-g.args[0] - 1, f))
            elif g.op == "eqi" and g.args[1].const == 0 and all(nonneg(x) for x in g.args[0].atoms()) and all(c >= 0 for _, c in g.args[0].t):
                out.append((g.args[0] - 1, f))
    CTX._lf = (key, out)
    return out


def trivially_ge0(p):
    return all(c >= 0 and all(nonneg(a) for a, _ in m) for m, c in p.t)


def entails_ge0(p):
    if trivially_ge0(p): return True
    lf = lin_facts()
    for q, f in lf:
        if trivially_ge0(p - q):
            CTX.used.add(f)
            return True
    if len(lf) <= 60:
        for i, (q, f) in enumerate(lf):
            r = p - q
            for q2, f2 in lf[i:]:
                if trivially_ge0(r - q2):
                    CTX.used |= {f, f2}
                    return True
    return False


def is_true(b):
    if b is True: return True
    if not isinstance(b, N): return False
    if b in CTX.facts:
        CTX.used.add(b)
        return True
    if b.op == "ge0": return entails_ge0(b.args[0])
    if b.op == "not" and b.args[0].op == "ge0": return entails_ge0(-b.args[0].args[0] - 1)
    return False


def is_false(b):
    return b is False or (isinstance(b, N) and is_true(bnot(b)))


def sc_mul(a, b):
    r = Sc(sc_cancel(a.p * b.p))
    return r


def sc_eq(a, b):
    if a.p == b.p: return True
    va, vb = sc_val(a), sc_val(b)
    return eqi(va, vb)


class Pt:
    """Group element: integer combination of point atoms. kind 'R' or 'E'."""
    __slots__ = ("kind", "t", "h")
    def __init__(self, kind, d):
        self.kind = kind
        self.t = tuple(sorted(((a, p) for a, p in d.items() if p.const != 0), key=lambda x: x[0].id))
        self.h = hash((kind, self.t))
    def __eq__(self, o): return isinstance(o, Pt) and self.kind == o.kind and self.t == o.t
    def __hash__(self): return self.h
    def __repr__(self): return f"Pt{self.kind}[" + " + ".join(f"({p!r})*{a!r}" for a, p in self.t) + "]"
    @property
    def atom(self):
        if len(self.t) == 1 and self.t[0][1].const == 1: return self.t[0][0]
        return None


def pt_atom(kind, a): return Pt(kind, {a: P(1)})
def pt_id(kind): return Pt(kind, {})


def pt_add(a, b):
    assert a.kind == b.kind
    d = dict(a.t)
    for x, p in b.t: d[x] = d.get(x, P(0)) + p
    r = Pt(a.kind, d)
    begin()
    certify("ptadd", a, b, r)
    return r


def torsion_free(kind, a):
    return kind == "R" or a.meta.get("tf", False)


def pt_mul(s, q):
    """scalar multiplication: the integer in [0,L) representing s, times q.  On torsion-free atoms the
    representative is irrelevant (L*q = 0)."""
    d, used = {}, set()
    for x, p in q.t:
        if torsion_free(q.kind, x):
            c = sc_cancel(p * s.p)
            used |= CTX.used
        else:
            c = p * sc_val(s)
        d[x] = c
    r = Pt(q.kind, d)
    CTX.used = used
    certify("ptmul", s, q, r)
    return r


def pt_neg(q):
    return Pt(q.kind, {x: -p for x, p in q.t})


def pt_eq(a, b):
    if a == b: return True
    if not b.t or not a.t:
        x = a if a.t else b
        if len(x.t) == 1 and torsion_free(x.kind, x.t[0][0]):
            # prime order: c * A is the identity iff c = 0 mod L or A is; known non-zero factors of c drop out
            at, p = x.t[0]
            begin()
            if len(p.t) == 1:
                m, c = p.t[0]
                if c % L != 0:
                    mm = tuple((y, e) for y, e in m if not is_false(sc_eq(Sc(P(y)), Sc(P(0)))))
                    q = Poly({mm: 1})
                    if at.op in ("G", "B"):
                        r = sc_eq(Sc(q), Sc(P(0)))
                        certify("ptid0", x, q)
                        return r
                    if q != p:
                        y = Pt(x.kind, {at: q})
                        r = node("ptid", y, sort="bool")
                        certify("ptid", x, y)
                        return r
            elif is_false(sc_eq(Sc(p), Sc(P(0)))):
                y = Pt(x.kind, {at: P(1)})
                r = node("ptid", y, sort="bool")
                certify("ptid", x, y)
                return r
        return node("ptid", x, sort="bool")
    x, y = sorted((a, b), key=repr)
    return node("pteq", x, y, sort="bool")
