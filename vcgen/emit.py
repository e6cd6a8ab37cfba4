"""Verification conditions as Verus proof functions.

Every open obligation (one per contract clause or safety check and path) and every rewrite the executor
made becomes one proof function over arbitrary values of the program's inputs; Verus is run with
--no-cheating.  What is assumed about dependencies appears as instance hypotheses inside the functions (the
outer `if`), never as an axiom."""
import re
from terms import *
import terms

L = terms.L


def big(c):
    if abs(c) < 1 << 100: return str(c) if c >= 0 else f"({c})"
    s, c0 = "", abs(c)
    hi, lo = c0 >> 100, c0 & ((1 << 100) - 1)
    r = f"({big(hi)} * 0x10000000000000000000000000int + {lo})"
    return r if c >= 0 else f"(-{r})"


def san(s): return re.sub(r"\W+", "_", s)


SORT = {"int": "int", "bool": "bool", "bytes": "B", "R": "int", "E": "int", "Obj": "int"}


class Fn:
    """one proof function under construction"""
    def __init__(self, inj=False):
        self.inj = inj
        self.fsig = {}
        self.cuts = {}       # slices of inputs the proof talks about
        self.cutall = False
        self.params = {}
        self.lets = []
        self.memo = {}
        self.hyp = []        # (text, kind)
        self.lemmas = []
        self.hypseen = set()
        self.hexmaps = []

    def fresh(self, expr):
        n = f"t{len(self.lets)}"
        self.lets.append((n, expr))
        return n

    def use(self, name, args, ret):
        """an arbitrary function: a parameter of the proof function"""
        sig = (tuple(args), ret)
        if self.fsig.setdefault(name, sig) != sig:
            name = f"{name}_{len(args)}{san(''.join(args))}"
            self.fsig[name] = sig
        self.params[name] = f"spec_fn({', '.join(args)}) -> {ret}" if args else ret
        return name

    def app(self, name, txt): return f"{name}({', '.join(txt)})" if txt else name

    def assume(self, text, kind):
        if text in self.hypseen: return
        self.hypseen.add(text)
        self.hyp.append((text, kind))

    def lemma(self, text):
        if text not in self.hypseen:
            self.hypseen.add(text)
            self.lemmas.append(text)

    # -------------------------------------------------- values
    def poly(self, p):
        p = P(p)
        if p.const is not None: return big(p.const)
        out = []
        for m, c in p.t:
            fs = []
            for a, e in m: fs += [self.node(a)] * e
            if c != 1 or not fs: fs.insert(0, big(c))
            out.append(" * ".join(fs))
        return "(" + " + ".join(out) + ")" if len(out) > 1 or "*" in out[0] else out[0]

    def pt(self, q):
        """discrete logarithm of the point"""
        M = self.modulus(q.kind)
        if not q.t: return "0"
        if q.atom is not None: return self.node(q.atom)
        k = ("pt", q)
        if k not in self.memo:
            S = P(0)
            for a, p in q.t:
                n = self.node(a)
                S = S + p * (int(n) if n.isdigit() else node("txt", n, sort="int", signed=True))
            self.memo[k] = self.fresh(f"({self.poly(S)}) % {M}")
        return self.memo[k]

    def modulus(self, kind): return "Lq()" if kind == "R" else "(8 * Lq())"

    def seg(self, s):
        if s[0] == "lit":
            b = s[1]
            if len(b) > 12 and len(set(b)) == 1: return f"fillb({b[0]}, {len(b)})"
            return "seq![" + ", ".join(f"{x}u8" for x in b) + "]"
        if s[0] == "el": return f"seq![{self.poly(s[1])} as u8]"
        if s[0] == "fill": return f"fillb({self.poly(s[1])}, {self.poly(s[2])})"
        _, a, lo, hi = s
        n = self.node(a)
        if lo.const == 0 and hi == atom_len(a): return n
        if a.op == "var" or self.cutall: self.cuts.setdefault(n, {})[(self.poly(lo), self.poly(hi))] = 1
        return f"{n}.subrange({self.poly(lo)}, {self.poly(hi)})"

    def bytes(self, b):
        if not b.segs: return "Seq::<u8>::empty()"
        if len(b.segs) == 1 and b.segs[0][0] != "el": 
            r = self.seg(b.segs[0])
            if re.fullmatch(r"\w+", r): return r
        k = ("b", b)
        if k not in self.memo:
            self.memo[k] = self.fresh(" + ".join(self.segs(b.segs)))
        return self.memo[k]

    def segs(self, ss):
        """segments as text; a run of single bytes in descending order is a reversed slice"""
        i, out = 0, []
        while i < len(ss):
            s = ss[i]
            j = i
            if s[0] == "sub" and s[3] - s[2] == P(1):
                while j + 1 < len(ss) and ss[j + 1][0] == "sub" and ss[j + 1][1] is s[1] and ss[j + 1][3] == ss[j][2] and ss[j + 1][3] - ss[j + 1][2] == P(1): j += 1
            if j > i + 1:
                out.append(f"{self.node(s[1])}.subrange({self.poly(ss[j][2])}, {self.poly(s[3])}).reverse()")
                i = j + 1
            else:
                out.append(self.seg(s)); i += 1
        return out

    def arg(self, x):
        """(text, sort) of an argument of an uninterpreted function; None if it is part of the name"""
        if isinstance(x, Poly): return self.poly(x), "int"
        if isinstance(x, Bytes): return self.bytes(x), "B"
        if isinstance(x, Pt): return self.pt(x), "int"
        if isinstance(x, N): return self.node(x), SORT.get(x.sort, "int")
        return None

    def node(self, n):
        k = n
        if k in self.memo: return self.memo[k]
        op, a = n.op, n.args
        if n.sort == "bool":
            r = self.fresh(self.prop(n))
            self.memo[k] = r
            return r
        if op == "txt":
            self.memo[k] = "(" + a[0] + ")"
            return self.memo[k]
        if op == "var":
            r = san(a[0]) if a else san(n.op)
            r = "v_" + san(str(a[0]))
            self.params[r] = SORT.get(n.sort, "int")
        elif op == "G": r = "1"
        elif op == "B": r = "8"
        elif op == "len": r = self.fresh(f"{self.node(a[0])}.len() as int")
        elif op == "mod":
            x, m = self.poly(a[0]), self.poly(a[1])
            r = self.fresh(f"{x} % {m}")
            self.lemma(f"lemma_mod_range({x}, {m});")
        elif op == "modL":
            x = self.poly(a[0])
            r = self.fresh(f"{x} % Lq()")
            self.lemma(f"lemma_mod_range({x}, Lq());")
        elif op == "div": r = self.fresh(f"{self.poly(a[0])} / {self.poly(a[1])}")
        elif op == "powmod":
            b, e, m = map(self.poly, a)
            r = self.fresh(f"pow({b}, ({e}) as nat) % {m}")
            self.lemma(f"lemma_mod_range(pow({b}, ({e}) as nat), {m});")
        elif op == "os2ip":
            b = self.bytes(a[0])
            r = self.fresh(f"os2ip({b})")
            self.lemma(f"lemma_os2ip_nonneg({b});")
        elif op == "i2osp":
            p = self.poly(a[0])
            r = self.fresh(f"i2osp({p})")
            self.lemma(f"if {p} >= 0 {{ lemma_i2osp({p}); }}")
        elif op == "bits":
            p = self.poly(a[0])
            r = self.fresh(f"bits({p})")
            self.lemma(f"if {p} >= 0 {{ lemma_bits({p}); }}")
        elif op == "byteat":
            r = self.fresh(f"{self.node(a[0])}[{self.poly(a[1])}] as int")
        elif op == "byteatb":
            r = self.fresh(f"{self.bytes(a[0])}[{self.poly(a[1])}] as int")
        elif op == "subraw":
            r = self.fresh(f"{self.bytes(a[0])}.subrange({self.poly(a[1])}, {self.poly(a[2])})")
        elif op == "updraw":
            b = self.bytes(a[0])
            r = self.fresh(f"{b}.subrange(0, {self.poly(a[1])}) + {self.bytes(a[3])} + {b}.subrange({self.poly(a[2])}, {b}.len() as int)")
        elif op == "rev": r = self.fresh(f"{self.bytes(a[0])}.reverse()")
        elif op == "hexmap":
            x = self.bytes(a[0])
            r = self.fresh(f"hexmap({x})")
            self.lemma(f"lemma_hexmap_len({x});")
            for y in self.hexmaps: self.lemma(f"lemma_hexmap_inj({y}, {x});")
            self.hexmaps.append(x)
        elif op == "b2i": r = self.fresh(f"b2i({self.prop(a[0])})")
        else:
            txt, sorts, name = [], [], "u_" + san(op)
            for x in a:
                t = self.arg(x)
                if t is None: name += "_" + san(str(x))
                else: txt.append(t[0]); sorts.append(t[1])
            name = self.use(name, sorts, SORT.get(n.sort, "int"))
            r = self.fresh(self.app(name, txt))
            self.semantics(n, r, txt, name)
        self.memo[k] = r
        self.typing(n, r)
        return r

    def semantics(self, n, r, txt, name):
        """assumed facts about a dependency's function at this point"""
        if n.op == "scinv":
            self.assume(f"({txt[0]} % Lq() != 0 ==> ({txt[0]} * {r}) % Lq() == 1)", "Scalar::invert returns the inverse of a non-zero scalar")
        if n.op == "hash" and self.inj:
            d = self.use("un_" + name, ["B"], "B")
            self.assume(f"{d}({r}) == {txt[0]}", "no hash collisions (asked for by the contract)")
        if n.op == "enc":
            d = self.use("un_" + name, ["B"], "int")
            self.assume(f"{d}({r}) == {txt[0]}", "point encodings determine the point")
        if n.op == "scbytes":
            d = self.use("un_" + name, ["B"], "int")
            self.assume(f"{d}({r}) == {txt[0]}", "scalar encodings determine the scalar")
        if n.op == "b64":
            d = self.use("un_" + name, ["B"], "B")
            self.assume(f"{d}({r}) == {txt[0]}", "base64 encodings determine the bytes")
        if n.op == "flatmap" and n.meta.get("inj"):
            d = self.use("un_" + name, ["B"], "B")
            self.assume(f"{d}({r}) == {txt[0]}", "equal-length codes of single bytes, all different, can be decoded (checked on the 256 codes)")
        if n.op == "pw_outlen":
            self.assume(f"10 <= {r} && {r} <= 64", "password-hash outputs have 10 to 64 bytes (type invariant of password_hash::Output)")

    def typing(self, n, r):
        s = n.sort
        if s == "int":
            if n.op in ("mod", "modL", "powmod", "os2ip", "b2i", "byteat", "byteatb"): return
            if n.op == "len":
                self.assume(f"{r} < 0x1000000000000", "byte strings are shorter than 2^48 bytes")
                return
            if n.meta.get("sc"): self.assume(f"0 <= {r} && {r} < Lq()", "scalars are canonical")
            elif n.meta.get("signed"):
                w = n.meta.get("bits", 128)
                self.assume(f"-{big(1 << (w - 1))} <= {r} && {r} < {big(1 << (w - 1))}", "type ranges")
            else:
                self.assume(f"0 <= {r}", "type ranges")
                if "bits" in n.meta: self.assume(f"{r} < {big(1 << n.meta['bits'])}", "type ranges")
                if n.meta.get("usize"): self.assume(f"{r} < 0x1000000000000", "byte strings are shorter than 2^48 bytes")
        elif s == "bytes":
            l = n.meta.get("len")
            if n.op in ("subraw", "updraw", "rev"): return
            if l is not None: self.assume(f"{r}.len() == {self.poly(l)}", "fixed output and array lengths")
            elif n.op != "i2osp": self.assume(f"{r}.len() < 0x1000000000000", "byte strings are shorter than 2^48 bytes")
        elif s == "R":
            if r != "1": self.assume(f"0 <= {r} && {r} < Lq()", "Ristretto: a cyclic group of order L, elements named by discrete logarithm")
        elif s == "E":
            if r != "8":
                self.assume(f"0 <= {r} && {r} < 8 * Lq()", "edwards25519: a cyclic group of order 8L, elements named by discrete logarithm")
                if n.meta.get("tf"): self.assume(f"{r} % 8 == 0", "M, N, S and the base point have prime order (checked by the runner)")

    # -------------------------------------------------- propositions
    def prop(self, b, goal=False):
        if b is True: return "true"
        if b is False: return "false"
        op, a = b.op, b.args
        if op == "not": return f"!({self.prop(a[0])})"
        if op == "and": return "(" + " && ".join(f"({self.prop(x, goal)})" for x in a) + ")"
        if op == "iff": return f"(({self.bprop(a[0])}) == ({self.bprop(a[1])}))"
        if op == "ge0": return f"{self.poly(a[0])} >= 0"
        if op == "eqi": return f"{self.poly(a[0])} == {self.poly(a[1])}"
        if op == "eqb":
            e = "=~=" if goal else "=="
            return f"{self.bytes(a[0])} {e} {self.bytes(a[1])}"
        if op == "eqo": return f"{self.node(a[0])} == {self.node(a[1])}"
        if op == "ptid": return f"{self.pt(a[0])} == 0"
        if op == "pteq": return f"{self.pt(a[0])} == {self.pt(a[1])}"
        if op == "lexlt":
            x, y = self.bytes(a[0]), self.bytes(a[1])
            self.lemma(f"lemma_lexlt({x}, {y});")
            return f"lexlt({x}, {y})"
        if op == "var":
            r = "v_" + san(str(a[0]))
            self.params[r] = "bool"
            return r
        txt, sorts, name = [], [], "p_" + san(op)
        for x in a:
            t = self.arg(x)
            if t is None: name += "_" + san(str(x))
            else: txt.append(t[0]); sorts.append(t[1])
        name = self.use(name, sorts, "bool")
        return self.app(name, txt)

    def bprop(self, b): return self.prop(b)

    # -------------------------------------------------- output
    def text(self, name, path, body):
        """body: list of proof lines checked under the hypotheses and the path"""
        o = [f"proof fn {name}({', '.join(f'{n}: {t}' for n, t in self.params.items())})", "{"]
        for n, e in self.lets: o.append(f"    let {n} = {e};")
        for l in self.lemmas: o.append("    " + l)
        o.append("    if " + " && ".join(f"({h})" for h, _ in self.hyp or [("true", "")]))
        o.append("    {")
        o.append("    if " + " && ".join(f"({p})" for p in path or ["true"]))
        o.append("    {")
        o += ["        " + l for l in body]
        o += ["    }", "    }", "}"]
        return "\n".join(o) + "\n"


def conj(b):
    if isinstance(b, N) and b.op == "and":
        for x in b.args: yield from conj(x)
    else: yield b


def hints(fn, path, goal):
    """extensionality and cut hints for the byte-string equalities on the path"""
    out = []
    work, seen = [], set()
    CTX.facts = {x for c in path for x in conj(c) if isinstance(x, N)}
    for c in path:
        for x in conj(c):
            if isinstance(x, N) and x.op == "eqb": work.append((x.args[0], x.args[1]))
    while work:
        x, y = work.pop()
        if x == y or (x, y) in seen: continue
        seen.add((x, y))
        wx, wy = x.whole, y.whole
        if wx is not None and wy is not None:
            if wx.op == wy.op == "hash" and wx.args[0] == wy.args[0] and fn.inj: work.append((wx.args[1], wy.args[1]))
            if wx.op == wy.op == "i2osp": pass
            continue
        cut = first_cut(x, y) or last_cut(x, y)
        if cut is None: continue
        (x1, x2), (y1, y2) = cut
        X, X1, X2, Y, Y1, Y2 = map(fn.bytes, (x, x1, x2, y, y1, y2))
        out.append(f"assert({X} =~= {X1} + {X2}); assert({Y} =~= {Y1} + {Y2});")
        out.append(f"lemma_split({X}, {X1}, {X2}, {Y}, {Y1}, {Y2});")
        work += [(x1, y1), (x2, y2)]
    return out


def congruence(fn, x, y):
    """extensionality prompts for the arguments of equal function symbols"""
    wx, wy = x.whole, y.whole
    out = []
    if wx is not None and wy is not None and wx.op == wy.op and len(wx.args) == len(wy.args):
        for a, b in zip(wx.args, wy.args):
            if isinstance(a, Bytes) and isinstance(b, Bytes) and a != b:
                out += congruence(fn, a, b)
                out.append(f"if {fn.bytes(a)} =~= {fn.bytes(b)} {{ }}")
    return out


def first_cut(x, y):
    def cuts(b):
        pos, out = P(0), {}
        for i, s in enumerate(b.segs):
            pos = red(pos + seg_len(s))
            out.setdefault(pos, i + 1)
            if s[0] == "lit":
                base = pos - len(s[1])
                for j in range(1, len(s[1])): out.setdefault(base + j, (i, j))
        return out
    def at(b, c):
        if isinstance(c, int): return mk(b.segs[:c]), mk(b.segs[c:])
        i, j = c
        s = b.segs[i]
        return mk(b.segs[:i] + (("lit", s[1][:j]),)), mk((("lit", s[1][j:]),) + b.segs[i + 1:])
    cx, cy = cuts(x), cuts(y)
    for k in cx:
        if k in cy and k != red(x.length) and k.const != 0:
            return at(x, cx[k]), at(y, cy[k])
    return None


def last_cut(x, y):
    """a common end"""
    if len(x.segs) < 1 or len(y.segs) < 1: return None
    a, b = x.segs[-1], y.segs[-1]
    if a == b: cut = (1, 1, None)
    elif a[0] == b[0] == "lit":
        k = 0
        while k < min(len(a[1]), len(b[1])) and a[1][-1 - k] == b[1][-1 - k]: k += 1
        if k == 0: return None
        cut = (1, 1, k)
    else: return None
    def at(v, s):
        if cut[2] is None or cut[2] == seg_len(s).const: return mk(v.segs[:-1]), mk(v.segs[-1:])
        return mk(v.segs[:-1] + (("lit", s[1][:-cut[2]]),)), mk((("lit", s[1][-cut[2]:]),))
    x2, y2 = at(x, a), at(y, b)
    if not x2[0].segs and not y2[0].segs: return None
    return x2, y2


class Moved:
    """an obligation whose goal `not e` became the hypothesis e and the goal false"""
    def __init__(self, ob):
        self.path, self.goal, self.inj = ob.path + (ob.goal.args[0],), False, ob.inj


def obligation(name, ob):
    """proof function of an open obligation"""
    if isinstance(ob.goal, N) and ob.goal.op == "not" and ob.goal.args[0].op == "eqb": ob = Moved(ob)
    f = Fn(ob.inj)
    path = [f.prop(c) for c in ob.path]
    h = hints(f, ob.path, ob.goal)
    g = f.prop(ob.goal, True)
    body = list(h)
    if any(isinstance(x, N) and (x.op == "eqb" or x.op == "not" and x.args[0].op == "eqb") for c in ob.path + (ob.goal,) for x in conj(c)):
        for n, cs in f.cuts.items():
            for lo, hi in cs:
                body.append(f"if 0 <= {lo} && {lo} <= {hi} && {hi} <= {n}.len() {{ assert({n} =~= {n}.subrange(0, {lo}) + {n}.subrange({lo}, {hi}) + {n}.subrange({hi}, {n}.len() as int)); }}")
                body.append(f"if {lo} == 1 && {n}.len() >= 1 {{ assert({n}.subrange(0, {lo}) =~= seq![{n}[0]]); }}")
    for c in ob.path:
        for x in conj(c):
            if isinstance(x, N) and x.op == "not" and x.args[0].op == "eqb":
                X, Y = map(f.bytes, x.args[0].args)
                if ob.goal is False: body.append(f"if {X} =~= {Y} {{ assert({X} == {Y}); }}")
    for x in conj(ob.goal):
        if isinstance(x, N) and x.op == "eqb": body += congruence(f, *x.args)
    body.append(f"assert({g});")
    return f, f.text(name, path, body)


# rewrites of modular arithmetic: where the certificate is not accepted, the rewrite counts as trusted
SOFT = ("strip", "powmod", "sccancel", "ptadd", "ptmul", "ptid", "ptid0", "cases", "minbe")


def cert(name, key):
    """proof function of a rewrite the executor made; None if this kind is only trusted"""
    kind, used = key[0], sorted(key[-1])
    d = key[1:-1]
    f = Fn()
    path = [f.prop(c) for c in used]
    if kind in ("sub", "update"):
        b, lo, hi = d[:3]
        # the segments of every term are well formed (fill counts and slice bounds make sense): assumed of the
        # terms a rewrite starts from, proved of the term it ends in
        path += wellformed(f, b)
        B_, lo_, hi_ = f.bytes(b), f.poly(lo), f.poly(hi)
        path.append(f"0 <= {lo_} && {lo_} <= {hi_} && {hi_} <= {B_}.len()")
        if kind == "sub":
            return f, f.text(name, path, [f"assert({B_}.subrange({lo_}, {hi_}) =~= {f.bytes(d[3])});"] + [f"assert({w});" for w in wellformed(f, d[3])])
        nw = f.bytes(d[3])
        path += [f"{nw}.len() == {hi_} - {lo_}"] + wellformed(f, d[3])
        return f, f.text(name, path, [f"assert({B_}.subrange(0, {lo_}) + {nw} + {B_}.subrange({hi_}, {B_}.len() as int) =~= {f.bytes(d[4])});"] + [f"assert({w});" for w in wellformed(f, d[4])])
    if kind == "os2ip_strip":
        o, b = d
        k = o.length - b.length
        z = zero_prefix(o, b)
        Z, O, Bb = f.bytes(z), f.bytes(o), f.bytes(b)
        return f, f.text(name, path, [f"lemma_os2ip_zero_prefix({Z}, {Bb});", f"assert({Z} + {Bb} =~= {O});", f"assert(os2ip({O}) == os2ip({Bb}));"])
    if kind == "rev":
        b, r = d
        path += wellformed(f, b)
        return f, f.text(name, path, [f"assert({f.bytes(b)}.reverse() =~= {f.bytes(r)});"])
    if kind == "minbe":
        b, l, p = d
        k, B_, L_, p_ = int.from_bytes(l.lit, "big"), f.bytes(b), f.bytes(l), f.poly(p)
        body = [f"lemma_i2osp({p_});", f"reveal_with_fuel(os2ip, {len(l.lit) + 1});", f"reveal_with_fuel(i2osp, {len(l.lit) + 1});",
                f"if {B_} == {L_} {{ assert({p_} == {k}); }}", f"if {p_} == {k} {{ assert({B_} =~= {L_}); }}", f"assert(({B_} == {L_}) <==> ({p_} == {k}));"]
        return f, f.text(name, path + [f"{p_} >= 0"], body)
    if kind == "cases":
        return f, f.text(name, path, ["assert(" + " || ".join(f"({f.prop(c, True)})" for c in d) + ");"])
    if kind in SOFT:
        import cong
        try: pre, body = getattr(cong, kind + "_cert")(f, *d)
        except cong.No: return None
        return f, f.text(name, path + pre, body)
    if kind == "divmul":
        x, n = map(f.poly, d)
        return f, f.text(name, path, [f"if {n} != 0 {{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod({x}, {n}); assert(({x} / {n}) * {n} == {x} - {x} % {n}) by (nonlinear_arith) requires {x} == {n} * ({x} / {n}) + ({x} % {n}); }}"])
    if kind == "fold":
        g = d[0]
        return f, f.text(name, path, [f"assert({f.prop(g, True)});"])
    return None


def wellformed(f, b):
    out = []
    for s in b.segs:
        if s[0] == "fill" and s[2].const is None: out.append(f"{f.poly(s[2])} >= 0")
        if s[0] == "sub" and not (s[2].const == 0 and s[3] == atom_len(s[1])) and (s[2].const is None or s[3].const is None or atom_len(s[1]).const is None):
            out.append(f"0 <= {f.poly(s[2])} && {f.poly(s[2])} <= {f.poly(s[3])} && {f.poly(s[3])} <= {f.node(s[1])}.len()")
    return out


def zero_prefix(o, b):
    nb = len(b.segs)
    segs = list(o.segs)
    if nb and segs and segs[-nb:] == list(b.segs): return mk(segs[:len(segs) - nb])
    # a literal was shortened
    pre = segs[:len(segs) - nb]
    cut = segs[len(segs) - nb]
    return mk(pre + [("lit", cut[1][:len(cut[1]) - len(b.segs[0][1])])])
