"""Certificates for the rewrites of modular arithmetic: congruences with explicit witnesses.

Every rule says that two expressions are congruent modulo n.  The certificate expands every residue x mod n
in them to x - n*q (q = x div n), merges powers of the same base, and divides the difference of the two
expressions by n.  What Verus checks is the expansion of each residue (fundamental property of division), the
laws of powers used (vstd's lemmas), and the resulting polynomial identity, from which the congruence follows."""
import re
from terms import *
import terms


class No(Exception):
    """this instance is out of reach of the method (it stays a trusted rewrite)"""


def txt(s): return node("txt", s, sort="int", signed=True)


LQ = txt("Lq()")


class Cong:
    def __init__(self, f, n):
        """n: the modulus, as a polynomial"""
        self.f, self.n, self.N = f, P(n), f.poly(n)
        self.lines, self.pre, self.eqs, self.done, self.pows, self.isL, self.defn, self.order, self.merged, self.slack = [], [f"{self.N} > 0"], [], {}, {}, False, {}, [], 0, []
        self.invs, self.tf = {}, {}

    def need(self, e):
        """a hypothesis: exponents of natural numbers are natural"""
        t = f"{self.f.poly(e)} >= 0"
        if P(e).const is None and t not in self.pre: self.pre.append(t)

    def let(self, text):
        """a name for a text (the identities below are about names only)"""
        if re.fullmatch(r"[()\d-]+", text): text = f"({text}) as int"
        k = ("txt", text)
        if k not in self.f.memo: self.f.memo[k] = self.f.fresh(text)
        return txt(self.f.memo[k])

    def name(self, p):
        """a name for the value of a polynomial, related to it in the final identity"""
        p = P(p)
        if p.atom is not None and p.atom.op in ("txt", "var"): return p.atom
        x = self.let(self.f.poly(p))
        self.defined(x, "poly", p)
        return x

    def defined(self, x, kind, d):
        if x not in self.defn:
            self.defn[x] = (kind, d)
            self.order.append(x)

    def pw(self, b, e):
        """pow(b, e) as an atom"""
        if P(e).const is not None and P(e).const < 0: raise No
        self.need(e)
        a = self.let(f"pow({self.f.poly(b)}, ({self.f.poly(e)}) as nat)")
        self.pows[a] = (P(b), P(e))
        return a

    def divided(self, x, n=None):
        """the quotient q of the named value x by n: x == n * q + x % n"""
        X, N = self.f.node(x), self.f.poly(self.n if n is None else n)
        q = self.let(f"{X} / {N}")
        self.lines.append(f"lemma_fundamental_div_mod({X}, {N});")
        return q

    def expand(self, p):
        """replace the residues modulo n in p"""
        p = P(p)
        for a in p.atoms():
            if a.op in ("mod", "powmod") and a.args[-1] == self.n or a.op == "modL" and self.isL:
                p = subst_atom(p, a, self.residue(a))
        return p

    def residue(self, a):
        if a in self.done: return self.done[a]
        n = P(LQ) if a.op == "modL" else self.n
        inner = P(self.pw(a.args[0], a.args[1])) if a.op == "powmod" else P(a.args[0])
        self.done[a] = None
        ei = self.expand(inner)
        X = self.name(inner)
        q = self.divided(X, n)
        self.lines.append(f"assert({self.f.node(a)} == {self.f.node(X)} % {self.f.poly(n)});")
        self.defined(a, "residue", (X, q, n))
        r = ei - n * P(q)
        self.done[a] = r
        return r

    def merge(self, d):
        """pow(b, x) * pow(b, y) = pow(b, x + y)"""
        pows = self.pows
        for _ in range(40):
            hit = None
            for m, c in d.t:
                ps = [(x, e) for x, e in m if x in pows]
                for i, (x, e) in enumerate(ps):
                    if e >= 2: hit = (m, c, x, x)
                    for y, _ in ps[i + 1:]:
                        if pows[y][0] == pows[x][0]: hit = (m, c, x, y)
                    if hit: break
                if hit: break
            if hit is None: return d
            m, c, x, y = hit
            b, ex, ey = pows[x][0], pows[x][1], pows[y][1]
            z = self.pw(b, ex + ey)
            B_ = self.f.poly(b)
            self.lines.append(f"lemma_pow_adds({B_}, ({self.f.poly(ex)}) as nat, ({self.f.poly(ey)}) as nat);")
            self.lines.append(f"assert(({self.f.poly(ex)}) as nat + ({self.f.poly(ey)}) as nat == ({self.f.poly(ex + ey)}) as nat);")
            if z not in self.defn:
                self.defn[z] = ("poly", P(x) * P(y))
                self.order.insert(self.merged, z)      # before whatever is said about z
                self.merged += 1
            md = dict(m)
            md[x] -= 1; md[y] -= 1
            mm = mono_mul(tuple((v, e) for v, e in md.items() if e), ((z, 1),))
            dd = dict(d.t)
            del dd[m]
            dd[mm] = dd.get(mm, 0) + c
            d = Poly(dd)
        raise No

    def inverse(self, i):
        """i = inv(y), y not 0 mod L: (k, rho) with rho == y * i - 1 - L * k == 0"""
        if i in self.invs: return self.invs[i]
        f, y = self.f, i.args[0]
        I, Y = f.node(i), f.poly(y)
        z = self.let(f"{Y} * {I}")
        k = self.let(f"{f.node(z)} / Lq()")
        self.lines += [f"lemma_fundamental_div_mod({f.node(z)}, Lq());",
                       f"if 0 <= {Y} && {Y} < Lq() {{ lemma_small_mod({Y} as nat, Lq() as nat); }}",
                       f"assert({f.node(z)} % Lq() == 1);"]
        rho = self.let(f"{f.node(z)} - 1 - Lq() * {f.node(k)}")
        self.lines.append(f"assert({f.node(rho)} == 0);")
        if y.atom is not None:
            self.lines.append(f"assert({Y} * {I} == {f.poly(y * P(i))}) by (nonlinear_arith);")
            self.defined(rho, "poly", y * P(i) - 1 - P(LQ) * P(k))
        else:
            self.defined(rho, "product", (y, i, k, z))
        self.invs[i] = (k, rho)
        return k, rho

    def cancel(self, d):
        """inv(y) * y = 1 + L * k"""
        for _ in range(40):
            hit = None
            for m, c in d.t:
                md = dict(m)
                for i in md:
                    if i.op == "scinv" and i.args[0].atom in md: hit = (m, c, i, i.args[0].atom)
            if hit is None: return d
            m, c, i, y = hit
            k, rho = self.inverse(i)
            md = dict(m)
            md[i] -= 1; md[y] -= 1
            C = Poly({tuple((x, e) for x, e in md.items() if e): c})
            self.slack.append((C, rho))
            d = d - C * (P(i) * P(y) - 1 - P(LQ) * P(k))
        raise No

    def point(self, q):
        """discrete logarithm of a point: its value, expanded"""
        f = self.f
        def at(x):
            n = f.node(x)
            if n.isdigit(): return P(int(n))
            a = txt(n)
            if q.kind == "E" and x.meta.get("tf") and a not in self.defn:
                y = self.let(f"{n} / 8")
                self.lines.append(f"lemma_fundamental_div_mod({n}, 8);")
                self.defined(a, "poly", 8 * P(y))
                self.tf[a] = 8 * P(y)
            return P(a)
        if not q.t: return P(0), P(0)
        if q.atom is not None:
            v = at(q.atom)
            return v, self.subst(v)
        S = P(0)
        for x, p in q.t: S = S + p * at(x)
        name = txt(f.pt(q))
        X = self.let(f.poly(S))
        eS = self.subst(S)
        self.defined(X, "poly", S)
        k = self.divided(X)
        self.lines.append(f"assert({f.node(name)} == {f.node(X)} % {self.N});")
        self.defined(name, "residue", (X, k, self.n))
        return P(name), eS - self.n * P(k)

    def subst(self, p):
        p = self.expand(p)
        for a, v in self.tf.items(): p = subst_atom(p, a, v)
        return p

    def finish(self, lhs, elhs, rhs, erhs):
        d = self.cancel(elhs - erhs)
        return self.identity(lhs, self.divide(d), rhs)

    def divide(self, d):
        """d / n"""
        n = self.n
        if n.const is not None:
            if any(c % n.const for _, c in d.t): raise No
            return Poly({m: c // n.const for m, c in d.t})
        if len(n.t) != 1: raise No
        nm, nc = n.t[0]
        out = {}
        for m, c in d.t:
            md = dict(m)
            for x, e in nm:
                if md.get(x, 0) < e: raise No
                md[x] -= e
            if c % nc: raise No
            out[tuple((x, md[x]) for x, _ in m if md[x])] = c // nc
        return Poly(out)

    def identity(self, lhs, w, rhs):
        """lines proving lhs == n * w + rhs (polynomials) and lhs % n == rhs % n"""
        A, R, W = self.f.poly(lhs), self.f.poly(rhs), self.f.node(self.let(self.f.poly(w)))
        i = Ident(self.f, self)
        for x in self.order: i.define(x)
        l, r, ww = i.value(lhs), i.value(rhs), i.value(w)
        nw = i.times(self.n, ww)
        sl, extra = [], P(0)
        for C, rho in self.slack:
            cv = i.value(C)
            e = i.times(cv, i.defs[rho])
            C_, X = self.f.poly(C), self.f.node(rho)
            i.say(f"assert(({C_}) * {X} == 0) by (nonlinear_arith) requires {X} == 0;")
            i.say(f"assert(({C_}) * {X} == {i.t(e)});")
            extra = extra + e
        if nw + r + extra != l: raise No
        return self.lines + i.out + [
            f"assert({W} == {i.t(ww)});",
            f"assert({self.N} * {W} == {i.t(nw)});",
            f"assert({A} == {self.N} * {W} + {R});",
            f"lemma_mod_multiples_vanish({W}, {R}, {self.N});",
            f"assert((({A}) as int) % {self.N} == (({R}) as int) % {self.N});"]

    def congruent(self, p, r):
        """lines proving p % n == r % n; p, r polynomials, maybe over other residues"""
        d = self.cancel(self.merge(self.expand(p) - self.expand(r)))
        return self.identity(P(p), self.divide(d), P(r))


class Ident:
    """polynomial identities by distribution, one product of two monomials at a time.  Sums are compared by linear
    arithmetic over products that are written in one fixed way (t)."""
    def __init__(self, f, cong):
        self.f, self.c, self.out, self.defs, self.seen = f, cong, [], {}, set()

    def mono(self, m):
        fs = [self.f.node(a) for a, e in m for _ in range(e)]
        r = fs[-1]
        for x in reversed(fs[:-1]): r = f"{x} * ({r})" if "*" in r else f"{x} * {r}"
        return r

    def term(self, m, c):
        from emit import big
        if not m: return big(c)
        if c == 1: return self.mono(m)
        return f"{big(c)} * ({self.mono(m)})"

    def t(self, p):
        p = P(p)
        if not p.t: return "0"
        return "(" + " + ".join(self.term(m, c) for m, c in p.t) + ")"

    def say(self, line):
        if line not in self.seen:
            self.seen.add(line)
            self.out.append(line)

    def same_text(self, p):
        """f.poly(p) == t(p)"""
        for m, c in P(p).t:
            k = sum(e for _, e in m)
            if k >= 2 and (c != 1 or k > 2):
                self.say(f"assert({self.f.poly(Poly({m: c}))} == {self.term(m, c)}) by (nonlinear_arith);")
        if p.const is None: self.say(f"assert({self.f.poly(p)} == {self.t(p)});")

    def times(self, p, q):
        """t(p) * t(q) == t(p * q), by distribution"""
        p, q = P(p), P(q)
        r = p * q
        if p.const == 1 or q.const == 1 or not p.t or not q.t: return r
        if len(p.t) > 1:
            a, b = Poly(dict(p.t[:-1])), Poly(dict(p.t[-1:]))
            self.times(a, q); self.times(b, q)
            self.say(f"lemma_dist_left({self.t(a)}, {self.t(b)}, {self.t(q)});")
            self.say(f"assert({self.t(p)} == {self.t(a)} + {self.t(b)});")
        elif len(q.t) > 1:
            a, b = Poly(dict(q.t[:-1])), Poly(dict(q.t[-1:]))
            self.times(p, a); self.times(p, b)
            self.say(f"lemma_dist_right({self.t(p)}, {self.t(a)}, {self.t(b)});")
            self.say(f"assert({self.t(q)} == {self.t(a)} + {self.t(b)});")
        else:
            self.say(f"assert({self.t(p)} * {self.t(q)} == {self.t(r)}) by (nonlinear_arith);")
            return r
        self.say(f"assert({self.t(p)} * {self.t(q)} == {self.t(r)});")
        return r

    def define(self, x):
        """the value of a defined name over the free names"""
        kind, d = self.c.defn[x]
        if kind == "poly":
            v = self.value(d)
        elif kind == "residue":         # X == n * q + x
            X, q, n = d
            vx, vq = self.value(P(X)), self.value(P(q))
            nq = self.times(n, vq)
            v = vx - nq
        elif kind == "dividend":        # x == n * q + a
            q, a = d
            va, vq = self.value(P(a)), self.value(P(q))
            v = self.times(self.c.n, vq) + va
        elif kind == "product":         # y * i - 1 - L * k, y a sum
            y, i, k, z = d
            vy, vi, vk = self.value(y), self.value(P(i)), self.value(P(k))
            yi, lk = self.times(vy, vi), self.times(P(LQ), vk)
            v = yi - 1 - lk
        self.defs[x] = v
        self.say(f"assert({self.f.node(x)} == {self.t(v)});")

    def value(self, p):
        """f.poly(p) == t(v): p with the defined names replaced"""
        p = P(p)
        if not any(a in self.defs for a in p.atoms()):
            self.same_text(p)
            return p
        self.same_text(p)
        tot = P(0)
        for m, c in p.t:
            fs = [a for a, e in m for _ in range(e)]
            if not fs:
                tot = tot + c
                continue
            cur = self.defs.get(fs[-1], P(fs[-1]))
            txt_ = self.f.node(fs[-1])
            for x in reversed(fs[:-1]):
                vx = self.defs.get(x, P(x))
                nxt = self.times(vx, cur)
                txt_ = f"{self.f.node(x)} * ({txt_})" if "*" in txt_ else f"{self.f.node(x)} * {txt_}"
                self.say(f"assert({txt_} == {self.t(nxt)});")
                cur = nxt
            tot = tot + cur * c
        self.say(f"assert({self.t(p)} == {self.t(tot)});")
        return tot


def strip_cert(f, p, r, n):
    c = Cong(f, n)
    return c.pre, c.congruent(p, r)


def powmod_cert(f, b, e, n, res):
    """pow(b, e) % n == res"""
    c = Cong(f, n)
    N = c.N
    b, e = P(b), P(e)
    b0 = strip(b, n)
    lhs = c.pw(b, e)
    out = []
    B_, E_ = f.poly(b), f"(({f.poly(e)}) as nat)"
    if b0 != b:
        s = Cong(f, n)
        out += s.congruent(b, b0)
        c.pre += [x for x in s.pre if x not in c.pre]
        B0 = f.poly(b0)
        out += [f"lemma_pow_mod_noop({B_}, {E_}, {N});", f"lemma_pow_mod_noop({B0}, {E_}, {N});"]
    whole = P(c.pw(b0, e))
    if len(b0.t) == 1 and b0.t[0][1] == 1 and b0.t[0][0]:
        fs = [x for x, k in b0.t[0][0] for _ in range(k)]
        acc, prods = P(fs[0]), []
        for x in fs[1:]:
            nx = acc * P(x)
            A_, X_ = f.poly(acc), f.node(x)
            out.append(f"lemma_pow_distributes({A_}, {X_}, {E_});")
            # the order of the factors in the texts may differ
            out.append(f"assert({A_} * {X_} == {f.poly(nx)}) by (nonlinear_arith);")
            prods.append((c.pw(nx, e), P(c.pw(acc, e)) * P(c.pw(P(x), e))))
            acc = nx
        # pow(x, e) of a residue x = pow(b1, e1) % n is congruent to pow(b1, e1 * e)
        prod = P(1)
        for x in fs:
            px = c.pw(P(x), e)
            if x.op == "powmod" and x.args[2] == n:
                b1, e1 = x.args[0], x.args[1]
                c.need(e1)
                y = c.pw(b1, e1 * e)
                inner, e1n = f"pow({f.poly(b1)}, ({f.poly(e1)}) as nat)", f"(({f.poly(e1)}) as nat)"
                X, Y = f.node(px), f.node(y)
                res_x = c.let(f"{X} % {N}")
                kx, ky = c.divided(px), c.divided(y)
                c.defined(res_x, "residue", (y, ky, c.n))
                c.defined(px, "dividend", (kx, res_x))
                c.lines = [f"lemma_pow_mod_noop({inner}, {E_}, {N});",
                           f"lemma_pow_multiplies({f.poly(b1)}, {e1n}, {E_});",
                           f"assert({e1n} * {E_} == ({f.poly(e1 * e)}) as nat) by (nonlinear_arith) requires {f.poly(e1)} >= 0, {f.poly(e)} >= 0;",
                           f"assert({X} % {N} == {Y} % {N});"] + c.lines
                prod = prod * (P(y) + P(n) * (P(kx) - P(ky)))
            else:
                prod = prod * P(px)
        for x, d in prods: c.defined(x, "poly", d)
        w = c.divide(c.merge(prod - c.expand(res)))
        out += c.identity(whole, w, res)
    else:
        out += c.congruent(whole, res)
    out.append(f"assert({f.poly(P(lhs))} % {N} == ({f.poly(res)}) % {N});")
    return c.pre, out


def scalar(c, s):
    """value of a scalar, expanded"""
    c.isL = True
    v = sc_val(s)
    return v, c.subst(v)


def pmod(kind): return P(LQ) if kind == "R" else 8 * P(LQ)


def sccancel_cert(f, p, r):
    c = Cong(f, P(LQ))
    c.isL = True
    return [], c.finish(p, c.expand(p), r, c.expand(r))


def ptadd_cert(f, a, b, r):
    c = Cong(f, pmod(a.kind)); c.isL = True
    (A, eA), (B, eB), (R, eR) = c.point(a), c.point(b), c.point(r)
    return [], c.finish(A + B, eA + eB, R, eR)


def ptmul_cert(f, s, q, r):
    c = Cong(f, pmod(q.kind)); c.isL = True
    (Q, eQ), (R, eR) = c.point(q), c.point(r)
    v, ev = scalar(c, s)
    return [], c.finish(v * Q, ev * eQ, R, eR)


def zero_iff(c, f, x, y):
    """lines proving pt(x) == 0 <==> pt(y) == 0, where x = p * A, y = q * A and p = u * q with u invertible"""
    (at, p), (_, q) = x.t[0], y.t[0]
    N = c.N
    drop, iu = P(1), P(1)
    if len(p.t) == 1:
        m, co = p.t[0]
        if co not in (1, -1): raise No
        mq = dict(q.t[0][0])
        drop, iu = P(co), P(co)
        for z, e in m:
            for _ in range(e - mq.get(z, 0)):
                drop, iu = drop * P(z), iu * P(node("scinv", P(z), sort="int", sc=True))
        c1, c2 = c, Cong(f, c.n)
        c2.isL = True
    else:
        raise No
    (A, eA), (B, eB) = c1.point(x), c1.point(y)
    fw = c1.finish(iu * A, c1.expand(iu) * eA, B, eB)
    (A, eA), (B, eB) = c2.point(x), c2.point(y)
    bw = c2.finish(drop * B, c2.expand(drop) * eB, A, eA)
    a, b = f.pt(x), f.pt(y)
    IU, DR = f.poly(iu * A), f.poly(drop * B)
    return [f"if {a} == 0 {{"] + fw + [f"assert({IU} == 0) by (nonlinear_arith) requires {a} == 0;", f"lemma_small_mod(0, ({N}) as nat); lemma_small_mod({b} as nat, ({N}) as nat);", f"assert({b} == 0); }}",
            f"if {b} == 0 {{"] + bw + [f"assert({DR} == 0) by (nonlinear_arith) requires {b} == 0;", f"lemma_small_mod(0, ({N}) as nat); lemma_small_mod({a} as nat, ({N}) as nat);", f"assert({a} == 0); }}"]


def ptid_cert(f, x, y):
    c = Cong(f, pmod(x.kind)); c.isL = True
    out = zero_iff(c, f, x, y)
    return [], out + [f"assert({f.pt(x)} == 0 <==> {f.pt(y)} == 0);"]


def ptid0_cert(f, x, q):
    """c * q * (base point) is the identity iff the scalar q is zero"""
    at = x.t[0][0]
    y = Pt(x.kind, {at: q})
    c = Cong(f, pmod(x.kind)); c.isL = True
    out = zero_iff(c, f, x, y) if x != y else []
    c = Cong(f, pmod(x.kind)); c.isL = True
    B, eB = c.point(y)
    v, ev = scalar(c, Sc(q))
    g = int(f.node(at))
    out += c.finish(g * v, g * ev, B, eB)
    V, b = f.poly(v), f.pt(y)
    out += [f"lemma_small_mod(({f.poly(g * v)}) as nat, ({c.N}) as nat); lemma_small_mod(({b}) as nat, ({c.N}) as nat);"]
    return [], out + [f"assert({f.pt(x)} == 0 <==> {V} == 0);"]
