"""Assumed contracts of core::fmt.  A formatter is the text written so far plus the options it was made with;
writing to it never fails.  What `{:#?}` does to the lines of a field is an uninterpreted function of the field's text."""
from natives import *

OKU = Ok(UNIT)
SIGN_PLUS, ALT, ZERO, LHEX, UHEX, WIDTH, PREC = (1 << k for k in (21, 23, 24, 25, 26, 27, 28))


def formatter(st, out, alt=False, width=P(0), zero=False, other=""):
    return Ref(st.alloc(Obj("fmt", out=out, alt=alt, width=width, zero=zero, other=other)))


def put(st, ex, f, text):
    o = ex.load(st, f)
    ex.store(st, f, o.set(out=cat(o.out, text)))


def fref(ctx, f):
    """the reference to the formatter object itself"""
    r = final_ref(ctx, f)
    o = ctx.load(r)
    if not (isinstance(o, Obj) and o.kind in ("fmt",)): raise Unsupported(f"formatter {o!r}")
    return r


def text_of(ctx, v):
    v = ctx.d(v)
    if not isinstance(v, Bytes): raise Unsupported(f"text {v!r}")
    return v


def chain(steps, done=lambda ex, s: OKU):
    """run steps one after the other; a step is a function (ex, state) -> None | CallInto; stops at an Err"""
    def run(ex, s, i):
        while i < len(steps):
            c = steps[i](ex, s)
            i += 1
            if c is not None:
                def then(ex, s, r, i=i, inner=c.then):
                    if inner: r = inner(ex, s, r)
                    if isinstance(r, Adt) and r.path == RES and r.variant == 1: return r
                    return run(ex, s, i)
                return CallInto(c.fnval, c.args, then)
        return done(ex, s)
    return run


def call_fmt(fcallee, ref, f): return CallInto(Fn(fcallee), [ref, f])


def dyn_fmt(v, f):
    """format a `&dyn Debug`"""
    if isinstance(v, Obj) and v.kind == "dyn": return call_fmt(v.vt, v.ref, f)
    raise Unsupported(f"formatting {v!r} through a trait object")


# ---------------------------------------------------------------- format_args!
AR = "core::fmt::rt::Argument::"


@nat(AR + "new_display", AR + "new_debug", AR + "new_lower_hex", AR + "new_upper_hex", AR + "new_octal", AR + "new_binary",
     AR + "new_lower_exp", AR + "new_upper_exp", AR + "new_pointer")
def arg_new(ctx, x): return Obj("fmtarg", ref=x, vt=ctx.callee.get("fcallee"), n=None)
@nat(AR + "from_usize")
def arg_usize(ctx, x): return Obj("fmtarg", ref=x, vt=None, n=ctx.d(x))
@nat("core::fmt::Arguments::new")
def args_new(ctx, t, a): return Obj("fmtargs", t=text_of(ctx, t), args=ctx.d(a))
@nat("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "core::fmt::Arguments::new_const")
def args_str(ctx, s): return Obj("fmtargs", t=text_of(ctx, s), args=None)


def pieces(ctx, a):
    """the literal pieces and placeholders of compiled format arguments"""
    if a.args is None: return [("lit", a.t)]
    t, args = a.t.lit, a.args.els
    if t is None: raise Unsupported("format template")
    out, i, n = [], 0, 0
    while True:
        c = t[i]; i += 1
        if c == 0: return out
        if c < 0x80:
            out.append(("lit", blit(t[i:i + c]))); i += c
        elif c == 0x80:
            k = int.from_bytes(t[i:i + 2], "little"); i += 2
            out.append(("lit", blit(t[i:i + k]))); i += k
        elif c == 0xC0:
            out.append(("arg", args[n], {})); n += 1
        else:
            o = {}
            if c & 1:
                fl = int.from_bytes(t[i:i + 4], "little"); i += 4
                o["alt"] = bool(fl & ALT); o["zero"] = bool(fl & ZERO)
                rest = fl & ~(ALT | ZERO | WIDTH | PREC)
                if rest != (0x20 | 3 << 29): o["other"] = f"flags{rest:x}"
            if c & 2: o["width"] = P(int.from_bytes(t[i:i + 2], "little")); i += 2
            prec = None
            if c & 4: prec = int.from_bytes(t[i:i + 2], "little"); i += 2
            if c & 8: n = int.from_bytes(t[i:i + 2], "little"); i += 2
            if c & 16: o["width"] = args[o["width"].const].n
            if c & 32: raise Unsupported("precision taken from an argument")
            if prec is not None: o["other"] = o.get("other", "") + f"prec{prec}"
            out.append(("arg", args[n], o)); n += 1


def write_args(ctx, f, a):
    """steps that write the arguments to the formatter f"""
    steps = []
    for p in pieces(ctx, a):
        if p[0] == "lit":
            steps.append(lambda ex, s, p=p: put(s, ex, f, p[1]))
            continue
        def step(ex, s, p=p):
            if p[1].vt is None: raise Unsupported("format argument")
            g = formatter(s, ex.load(s, f).out, **p[2])
            def then(ex, s, r):
                ex.store(s, f, ex.load(s, f).set(out=ex.load(s, g).out))
                return r
            return CallInto(Fn(p[1].vt), [p[1].ref, g], then)
        steps.append(step)
    return steps


FM = "core::fmt::Formatter::"


def as_args(ctx, a):
    a = ctx.d(a)
    if not (isinstance(a, Obj) and a.kind == "fmtargs"): raise Unsupported(f"format arguments {a!r}")
    return a


@nat(FM + "write_fmt", "core::fmt::Write::write_fmt")
def write_fmt(ctx, f, a):
    r = final_ref(ctx, f)
    o = ctx.load(r)
    a = as_args(ctx, a)
    if isinstance(o, Bytes):      # write! to a String
        g = formatter(ctx.st, o)
        def done(ex, s):
            ex.store(s, r, ex.load(s, g).out)
            return OKU
        return chain(write_args(ctx, g, a), done)(ctx.ex, ctx.st, 0)
    return chain(write_args(ctx, fref(ctx, f), a))(ctx.ex, ctx.st, 0)


@nat(FM + "write_str", "core::fmt::Write::write_str")
def write_str(ctx, f, s):
    r = final_ref(ctx, f)
    o = ctx.load(r)
    if isinstance(o, Bytes): ctx.store(r, cat(o, text_of(ctx, s)))
    else: put(ctx.st, ctx.ex, fref(ctx, f), text_of(ctx, s))
    return OKU


def utf8_char(c):
    if not isinstance(c, Poly) or c.const is None: 
        raise Unsupported("a symbolic character")
    return blit(chr(c.const).encode())


@nat(FM + "write_char", "core::fmt::Write::write_char")
def write_char(ctx, f, c):
    r = final_ref(ctx, f)
    o = ctx.load(r)
    if isinstance(o, Bytes): ctx.store(r, cat(o, utf8_char(c)))
    else: put(ctx.st, ctx.ex, fref(ctx, f), utf8_char(c))
    return OKU
@nat("alloc::string::String::push")
def string_push(ctx, r, c):
    r = final_ref(ctx, r)
    ctx.store(r, cat(ctx.load(r), utf8_char(c)))
    return UNIT
@nat("alloc::string::String::push_str")
def string_push_str(ctx, r, s):
    r = final_ref(ctx, r)
    ctx.store(r, cat(ctx.load(r), text_of(ctx, s)))
    return UNIT
@nat("core::char::methods::from_digit", "core::char::from_digit", "char::from_digit", "core::char::convert::from_digit")
def from_digit(ctx, d, radix):
    if d.const is None or radix.const is None: raise Unsupported("digit of a symbolic number")
    if d.const >= radix.const: return NONE
    return Some(P(ord("0123456789abcdefghijklmnopqrstuvwxyz"[d.const])))


@nat("alloc::fmt::format", "alloc::fmt::format::format_inner")
def format_(ctx, a):
    g = formatter(ctx.st, Bytes(()))
    return chain(write_args(ctx, g, as_args(ctx, a)), lambda ex, s: ex.load(s, g).out)(ctx.ex, ctx.st, 0)


@nat(FM + "alternate")
def f_alternate(ctx, f): return ctx.load(fref(ctx, f)).alt
@nat(FM + "width")
def f_width(ctx, f):
    w = ctx.load(fref(ctx, f)).width
    c = eqi(w, 0)
    raise Fork([(c, lambda s: NONE), (bnot(c), lambda s: Some(w))])
@nat(FM + "precision", FM + "fill")
def f_opts(ctx, f): raise Unsupported("formatting options")
@nat(FM + "sign_plus", FM + "sign_minus", FM + "sign_aware_zero_pad")
def f_sign(ctx, f):
    if ctx.load(fref(ctx, f)).other: raise Unsupported("formatting options")
    return ctx.load(fref(ctx, f)).zero if ctx.name.endswith("zero_pad") else False
@nat(FM + "pad")
def f_pad(ctx, f, s):
    r = fref(ctx, f)
    put(ctx.st, ctx.ex, r, padded(ctx.load(r), text_of(ctx, s)))
    return OKU


def padded(o, t):
    if o.width.const == 0 and not o.other: return t
    return batom(node("pad", o.other, t, o.width, sort="bytes"))


# ---------------------------------------------------------------- the builders
def padlines(t): return batom(node("padlines", t, sort="bytes"))


def both_modes(ctx, f, go):
    """go(alternate) on either side of the formatter's alternate flag"""
    alt = ctx.load(f).alt
    if isinstance(alt, bool): return go(ctx.ex, ctx.st, alt)
    if alt in ctx.st.facts: return go(ctx.ex, ctx.st, True)
    if bnot(alt) in ctx.st.facts: return go(ctx.ex, ctx.st, False)
    raise Fork([(alt, lambda s: go(ctx.ex, s, True)), (bnot(alt), lambda s: go(ctx.ex, s, False))])


OPEN = {"struct": (b" { ", b" {\n", b" }", b"}"), "tuple": (b"(", b"(\n", b")", b")"), "list": (b"", b"\n", b"]", b"]"), "set": (b"", b"\n", b"}", b"}")}


def add_field(ex, s, f, kind, name, value, first, alt):
    """one field of a builder; returns a CallInto whose result is the fmt::Result"""
    o, oa = OPEN[kind][:2]
    label = blit(b"") if kind != "struct" else cat(name, blit(b": "))
    if not alt:
        put(s, ex, f, cat(blit(o if first else b", "), label))
        return dyn_fmt(value, f)
    if first: put(s, ex, f, blit(oa))
    fo = ex.load(s, f)
    g = Ref(s.alloc(fo.set(out=label)))
    c = dyn_fmt(value, g)
    def then(ex, s, r):
        put(s, ex, f, padlines(cat(ex.load(s, g).out, blit(b",\n"))))
        return r
    return CallInto(c.fnval, c.args, then)


def close(kind, n, empty_name, alt):
    if kind in ("list", "set"): return OPEN[kind][2]
    if n == 0: return b""
    if alt: return OPEN[kind][3]
    if kind == "tuple" and n == 1 and empty_name: return b",)"
    return OPEN[kind][2]


def builder(kind):
    def make(ctx, f, name=None):
        r = fref(ctx, f)
        t = text_of(ctx, name) if name is not None else blit({"list": b"[", "set": b"{"}[kind])
        put(ctx.st, ctx.ex, r, t)
        return Obj("builder", to=r, kind2=kind, n=0, res=OKU, noname=not t.segs)
    return make


for k in OPEN: T[FM + "debug_" + k] = builder(k)
BU = "core::fmt::builders::"


@nat(BU + "DebugStruct::field", BU + "DebugTuple::field", BU + "DebugList::entry", BU + "DebugSet::entry", BU + "DebugInner::entry")
def b_field(ctx, b, *a):
    br = final_ref(ctx, b)
    o = ctx.load(br)
    if o.res.variant == 1:
        ctx.store(br, o.set(n=o.n + 1)); return br
    name = text_of(ctx, a[0]) if o.kind2 == "struct" else None
    def go(ex, s, alt):
        c = add_field(ex, s, o.to, o.kind2, name, a[-1], o.n == 0, alt)
        def then(ex, s, r):
            if c.then: r = c.then(ex, s, r)
            ex.store(s, br, o.set(n=o.n + 1, res=r))
            return br
        return CallInto(c.fnval, c.args, then)
    return both_modes(ctx, o.to, go)


@nat(BU + "DebugStruct::finish", BU + "DebugTuple::finish", BU + "DebugList::finish", BU + "DebugSet::finish")
def b_finish(ctx, b):
    o = ctx.d(b)
    if o.res.variant == 1: return o.res
    def go(ex, s, alt):
        put(s, ex, o.to, blit(close(o.kind2, o.n, o.noname, alt)))
        return OKU
    return both_modes(ctx, o.to, go)


@nat(BU + "DebugStruct::finish_non_exhaustive")
def b_finish_non(ctx, b):
    o = ctx.d(b)
    if o.res.variant == 1: return o.res
    def go(ex, s, alt):
        if o.n == 0: put(s, ex, o.to, blit(b" { .. }"))
        elif not alt: put(s, ex, o.to, blit(b", .. }"))
        else: put(s, ex, o.to, cat(padlines(blit(b"..\n")), blit(b"}")))
        return OKU
    return both_modes(ctx, o.to, go)


def fields_finish(kind):
    def run(ctx, f, name, *rest):
        r = fref(ctx, f)
        rest = list(rest)
        if ctx.callee["path"].endswith("_fields_finish"):
            vs = list(ctx.d(rest[-1]).els)
            names = [text_of(ctx, x) for x in ctx.d(rest[0]).els] if kind == "struct" else [None] * len(vs)
        elif kind == "struct": names, vs = [text_of(ctx, x) for x in rest[0::2]], rest[1::2]
        else: names, vs = [None] * len(rest), rest
        nm = text_of(ctx, name)
        put(ctx.st, ctx.ex, r, nm)
        def go(ex, s, alt):
            steps = [(lambda ex, s, i=i, n=n, v=v: add_field(ex, s, r, kind, n, v, i == 0, alt)) for i, (n, v) in enumerate(zip(names, vs))]
            def done(ex, s):
                put(s, ex, r, blit(close(kind, len(vs), not nm.segs, alt)))
                return OKU
            return chain(steps, done)(ex, s, 0)
        return both_modes(ctx, r, go)
    return run


for k in ("struct", "tuple"):
    for i in range(1, 6): T[FM + f"debug_{k}_field{i}_finish"] = fields_finish(k)
    T[FM + f"debug_{k}_fields_finish"] = fields_finish(k)


# ---------------------------------------------------------------- values of types outside /repo
def flat(ctx, v, out, depth=0):
    """the data of a value, as arguments of an uninterpreted function"""
    if depth > 8: raise Unsupported("formatting a deep value")
    v = ctx.d(v)
    if isinstance(v, (Bytes, Poly, N)): out.append(v)
    elif isinstance(v, bool): out.append(P(int(v)))
    elif isinstance(v, Pt): out.append(v)
    elif isinstance(v, Sc): out.append(sc_val(v))
    elif isinstance(v, Adt):
        out.append(P(v.variant))
        for x in v.fields: flat(ctx, x, out, depth + 1)
    elif isinstance(v, Arr):
        for x in v.els: flat(ctx, x, out, depth + 1)
    elif isinstance(v, Obj):
        for _, x in sorted(v.f.items()):
            if isinstance(x, (Bytes, Poly, N, Pt, Sc, Adt)): flat(ctx, x, out, depth + 1)
    else: raise Unsupported(f"formatting {v!r}")
    return out


def fmt_int(trait, n, o):
    """the text of a known integer"""
    digits = {"Display": str(n), "Debug": str(n), "LowerHex": f"{n:x}", "UpperHex": f"{n:X}", "Octal": f"{n:o}", "Binary": f"{n:b}"}[trait]
    prefix = {"LowerHex": "0x", "UpperHex": "0x", "Octal": "0o", "Binary": "0b"}.get(trait, "") if o.alt else ""
    w = o.width.const
    if o.zero: return blit((prefix + digits.rjust(w - len(prefix), "0")).encode())
    return blit((prefix + digits).rjust(w).encode())


@nat("core::fmt::Debug::fmt", "core::fmt::Display::fmt", "core::fmt::LowerHex::fmt", "core::fmt::UpperHex::fmt", "core::fmt::Octal::fmt",
     "core::fmt::Binary::fmt", "core::fmt::LowerExp::fmt", "core::fmt::UpperExp::fmt", "core::fmt::Pointer::fmt")
def fmt_value(ctx, x, f):
    trait = ctx.callee["path"].split("::")[-2]
    if isinstance(x, Obj) and x.kind == "dyn": return call_fmt(x.vt, x.ref, f)
    t = ctx.argty(0)
    if t["k"] == "ref" and ctx.callee.get("key"): return CallBody(ctx.callee["key"])
    r = fref(ctx, f)
    o = ctx.load(r)
    v = ctx.d(x)
    if isinstance(v, Obj) and v.kind == "fmtargs": return chain(write_args(ctx, r, v))(ctx.ex, ctx.st, 0)
    text = t["k"] == "str" or t["k"] == "adt" and t["path"] in ("alloc::string::String", "alloc::borrow::Cow")
    if text and isinstance(v, Bytes):
        if trait == "Display":
            put(ctx.st, ctx.ex, r, padded(o, v)); return OKU
        if trait == "Debug" and v.lit is not None and all(32 <= c < 127 and c not in b'"\\' for c in v.lit):
            put(ctx.st, ctx.ex, r, blit(b'"' + v.lit + b'"')); return OKU
    if t["k"] == "int" and isinstance(v, Poly) and v.const is not None and v.const >= 0 and isinstance(o.alt, bool) and o.width.const is not None and not o.other and trait not in ("LowerExp", "UpperExp"):
        put(ctx.st, ctx.ex, r, fmt_int(trait, v.const, o)); return OKU
    alt = P(int(o.alt)) if isinstance(o.alt, bool) else P(node("b2i", o.alt, sort="int"))
    args = flat(ctx, v, [])
    if not ctx.callee["path"].startswith("core::fmt::"): raise Unsupported("formatting")
    put(ctx.st, ctx.ex, r, batom(node("fmt", trait + "_" + t["s"] + o.other + ("_zero" if o.zero else ""), *args, alt, o.width, sort="bytes")))
    return OKU


# ---------------------------------------------------------------- text
def is_text(a): return a.meta.get("text") or a.op in ("b64", "pstr_text", "hexmap")


def utf8(b):
    if b.lit is not None:
        try: b.lit.decode(); return True
        except UnicodeDecodeError: return False
    # pieces that are text make text
    if all(g[0] == "lit" and all(c < 128 for c in g[1]) or g[0] == "sub" and is_text(g[1]) and g[2] == P(0) and g[3] == atom_len(g[1]) for g in b.segs): return True
    return node("utf8", b, sort="bool")


@nat("core::str::from_utf8", "core::str::converts::from_utf8", "str::from_utf8")
def from_utf8(ctx, b):
    x = asbytes(ctx, b)
    c = utf8(x)
    bad = lambda s: Err(Obj("utf8error", v=node("utf8error", x, sort="Obj")))
    if c is True: return Ok(b)
    if c is False: return bad(ctx.st)
    raise Fork([(c, lambda s: Ok(b)), (bnot(c), bad)])
@nat("alloc::string::String::from_utf8")
def string_from_utf8(ctx, b):
    x = asbytes(ctx, b)
    c = utf8(x)
    bad = lambda s: Err(Obj("utf8error", v=node("utf8error", x, sort="Obj")))
    raise Fork([(c, lambda s: Ok(x)), (bnot(c), bad)])
@nat("alloc::string::String::from_utf8_lossy")
def from_utf8_lossy(ctx, b):
    x = asbytes(ctx, b)
    c = utf8(x)
    raise Fork([(c, lambda s: x), (bnot(c), lambda s: batom(node("lossy", x, sort="bytes")))])


# ---------------------------------------------------------------- contract vocabulary
@nat("contracts::ghost::debug")
def ghost_debug(ctx, x, alternate, width):
    """the text `{:?}`, `{:#?}`, `{:w$?}` or `{:#w$?}` prints (width 0: none given)"""
    g = formatter(ctx.st, Bytes(()), alt=alternate, width=width)
    return CallInto(Fn(ctx.callee["fcallee"]), [x, g], lambda ex, s, r: ex.load(s, g).out if r.variant == 0 else batom(node("fmterror", sort="bytes")))


@nat("contracts::ghost::is_utf8")
def ghost_utf8(ctx, b): return utf8(asbytes(ctx, b))


@nat("contracts::ghost::contains")
def ghost_contains(ctx, t, n):
    """n occurs in t; true when a place is known (the slice there is a certified rewrite)"""
    t, n = asbytes(ctx, t), asbytes(ctx, n)
    pos, cuts = P(0), [P(0)]
    for s in t.segs:
        if s[0] == "lit": cuts += [pos + k for k in range(1, len(s[1]))]
        pos = pos + seg_len(s)
        cuts.append(pos)
    for k in cuts:
        if is_true(ge0(t.length - k - n.length)) and sub(t, k, k + n.length) == n: return True
    return node("contains", t, n, sort="bool")
