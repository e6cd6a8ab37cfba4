"""Assumed contracts of everything outside /repo that the code calls (the trusted base), as rewrite-free
symbolic definitions, plus the meaning of the contract vocabulary (ghost.rs).

Each entry is keyed by the definition path of the function or of the trait method it implements.
"""
from execute import *
from terms import *
import terms, loops, wloops, ctime

T = {}


def nat(*names):
    def deco(f):
        for n in names: T[n] = f
        return f
    return deco


# ---------------------------------------------------------------- lookup
SKIP_BODY_PREFIX = ()


REPO = ("srp::", "spake2::", "aucpace::", "contracts::")
OWN = REPO + ("serde::", "serde_byte_array::")


def find(ex, c, args, st):
    r = c.get("rpath") or ""
    if c["path"] in FN_CALL: return call_fn, c["path"]
    if "key" in c and r.lstrip("<&").startswith(OWN) and not r.startswith("contracts::ghost::"): return None, None
    for k in (c.get("rpath"), c.get("titem"), c["path"]):
        if k and k in T: return T[k], k
    return None, None


def symbolic(ex, st, t, name):
    s, k = t["s"], t["k"]
    if k == "adt":
        p = t["path"]
        if p == "num_bigint::biguint::BigUint": return P(node("var", name, sort="int", big=True))
        if p == "curve25519_dalek::scalar::Scalar": return Sc(P(node("var", name, sort="int", sc=True)))
        if p == "curve25519_dalek::ristretto::RistrettoPoint": return pt_atom("R", node("var", name, sort="R"))
        if p == "curve25519_dalek::edwards::EdwardsPoint": return pt_atom("E", node("var", name, sort="E"))
        if p.startswith("password_hash::salt::Salt"): return Obj("salt", s=batom(node("var", name, sort="bytes", text=True, salt=True)))
        if p == "password_hash::params::ParamsString": return Obj("pstr", v=node("var", name, sort="Obj"))
        if p == "password_hash::PasswordHash": return sym_password_hash(st, node("var", name, sort="Obj"))
    if k == "param" and (s == "CSPRNG" or s.startswith("R")):
        return Obj("rng", base=node("var", name, sort="Obj"), counts=())
    return None


def const_adt(ex, t, variant, fields):
    p = t["path"]
    if p == "rand_core::os::OsRng":
        return Obj("rng", base=node("osrng", len(ex.__dict__.setdefault("_osrng", [])), sort="Obj"), counts=())
    return None


def discr(ex, v):
    return None


def field(ex, v, step):
    if isinstance(v, Obj) and v.kind == "box" and step[1] == 0: return v.ref
    return None


ED_CONSTS = {}


def constant(ex, st, c):
    p = c.get("rpath") or c.get("path") or ""
    p0 = c.get("path") or ""
    for q in (p0, p):
        if q.endswith("Scalar::ONE"): return Sc(P(1))
        if q.endswith("Scalar::ZERO"): return Sc(P(0))
        if q.endswith("RISTRETTO_BASEPOINT_POINT"): return pt_atom("R", node("G", sort="R"))
        if q.endswith("ED25519_BASEPOINT_POINT"): return pt_atom("E", node("B", sort="E", tf=True))
        if q.endswith("RISTRETTO_BASEPOINT_TABLE"): return Ref(st.alloc(pt_atom("R", node("G", sort="R"))))
        if q.endswith("ED25519_BASEPOINT_TABLE"): return Ref(st.alloc(pt_atom("E", node("B", sort="E", tf=True))))
        if q.endswith("rand_core::os::OsRng"): return const_adt(ex, {"path": "rand_core::os::OsRng"}, 0, ())
    if "ty" in c:
        t = ex.ty(c["ty"])
        if t["k"] == "adt" and t["path"] == "rand_core::os::OsRng": return const_adt(ex, t, 0, ())
        s = t["s"]
        if c["c"] == "opaque" and t["k"] == "ref" and ("fmt::rt" in s or "fmt::Arguments" in s): return UNIT
    return None


# ---------------------------------------------------------------- helpers
def asbytes(ctx, v):
    v = ctx.d(v)
    if isinstance(v, Bytes): return v
    if isinstance(v, Adt) and v.path and v.path.split("::")[-1] in ("CompressedRistretto", "CompressedEdwardsY"): return v.fields[0]
    if isinstance(v, Obj) and v.kind == "salt": return v.s
    if isinstance(v, Arr):
        if not v.els: return Bytes(())
        if all(isinstance(x, Poly) for x in v.els): return mk([("el", x) for x in v.els])
    if isinstance(v, Obj) and v.kind == "box": return asbytes(ctx, v.ref)
    if isinstance(v, Adt) and v.path and len(v.fields) == 1 and isinstance(v.fields[0], (Bytes, Ref)): 
        # newtype over bytes with AsRef/Deref implemented by the code itself is executed, not assumed
        raise Unsupported(f"bytes of {v!r}")
    if isinstance(v, N) and v.sort == "Obj": return batom(node("asref", v, sort="bytes"))
    raise Unsupported(f"bytes of {v!r}")


def final_ref(ctx, v):
    while True:
        x = ctx.load(v)
        if isinstance(x, Ref): v = x
        else: return v


def outlen(ctx, alg, t=None):
    return digest_len(alg)


def digest_len(alg):
    if alg.startswith("D64:"): return P(64)
    n = {"sha2::Sha256": 32, "sha2::Sha512": 64, "sha1::Sha1": 20}.get(alg)
    if n: return P(n)
    return P(node("outsize", alg, sort="int", usize=True))


def alg_of(ctx, t):
    """digest algorithm from the Self type of the call"""
    s = t["s"]
    if "Sha256VarCore" in s and "U32" in s or s.count("Sha256VarCore"): return "sha2::Sha256"
    if "Sha512VarCore" in s: return "sha2::Sha512"
    if "Sha1Core" in s: return "sha1::Sha1"
    if t["k"] == "param": return ("D64:" if ctx.ex.natives_d64 else "D:") + s
    raise Unsupported(f"digest {s}")


def mkhash(alg, data):
    if alg == "?": raise Unsupported("unknown digest")
    return batom(node("hash", alg, data, sort="bytes", len=digest_len(alg)))


# ---------------------------------------------------------------- contract vocabulary
@nat("contracts::ghost::requires")
def requires(ctx, c):
    if not ctx.st.assume(c, "requires"): raise Fork([])
    return UNIT


@nat("contracts::ghost::ensures")
def ensures(ctx, label, c):
    lab = ctx.d(label).lit.decode()
    ctx.ex.ensures_seen[lab] = ctx.ex.ensures_seen.get(lab, 0) + 1
    if not ctx.ex.oblige(ctx.st, c, lab, ctx.at, "ensures"): raise Fork([])
    return UNIT


@nat("contracts::ghost::no_collisions")
def no_collisions(ctx):
    ctx.st.ghost["inj"] = True
    return UNIT


@nat("contracts::ghost::cover")
def cover(ctx, label):
    lab = ctx.d(label).lit.decode()
    ctx.ex.covers.setdefault(lab, []).append(tuple(c for _, c in ctx.st.path))
    return UNIT


@nat("contracts::ghost::ct_begin")
def ct_begin(ctx, label, expected, reply, secrets):
    e, r = ctx.d(expected), ctx.d(reply)
    ss = []
    for x in [e] + list(ctx.d(secrets).els):
        x = ctx.d(x)
        if x.whole is None: raise Unsupported("a secret that is not one value")
        ss.append(x.whole)
    lab = ctx.d(label).lit.decode()
    ctx.ex.ensures_seen[lab] = ctx.ex.ensures_seen.get(lab, 0) + 1
    ctx.st.ghost["ct"] = (lab, eqb(e, r), tuple(dict.fromkeys(ss)))
    return UNIT


@nat("contracts::ghost::ct_end")
def ct_end(ctx):
    ctx.st.ghost.pop("ct", None)
    return UNIT


@nat("contracts::ghost::dead")
def dead(ctx, label):
    lab = ctx.d(label).lit.decode()
    ctx.ex.ensures_seen[lab] = ctx.ex.ensures_seen.get(lab, 0) + 1
    ctx.ex.oblige(ctx.st, False, lab, ctx.at, "ensures")
    raise Fork([])


# ---------------------------------------------------------------- panics
@nat("core::panicking::panic", "core::panicking::panic_fmt", "core::option::unwrap_failed", "core::option::expect_failed",
     "core::result::unwrap_failed", "core::panicking::assert_failed", "core::panicking::panic_explicit", "core::panicking::panic_display",
     "core::panicking::unreachable_display", "core::panicking::panic_nounwind", "core::panicking::assert_failed_inner",
     "std::panicking::begin_panic", "core::panicking::panic_str_2015", "core::panicking::panic_bounds_check",
     "core::panicking::panic_const::panic_const_div_by_zero", "std::panic::panic_any", "core::slice::copy_from_slice_impl::len_mismatch_fail",
     "alloc::alloc::handle_alloc_error", "core::cell::panic_already_borrowed")
def panic(ctx, *a): return Panic(ctx.name.split("::")[-1])


# ---------------------------------------------------------------- default / clone / identity conversions
@nat("core::default::Default::default")
def default(ctx):
    t = ctx.argty(0)
    return default_of(ctx, t)


def default_of(ctx, t):
    s = t["s"]
    k = t["k"]
    if k == "adt":
        p = t["path"]
        if p == "num_bigint::biguint::BigUint": return P(0)
        if p == "password_hash::params::ParamsString": return Obj("pstr", v=node("default_params", sort="Obj"))
        if p in ("alloc::vec::Vec", "alloc::string::String"): return Bytes(()) if ctx.ex.is_bytes_ty(t) else Arr(())
        if p == "curve25519_dalek::scalar::Scalar": return Sc(P(0))
        if p == "curve25519_dalek::ristretto::RistrettoPoint": return pt_id("R")
        if p == "curve25519_dalek::edwards::EdwardsPoint": return pt_id("E")
        if p == "generic_array::GenericArray": return bfill(0, ctx_len_of(ctx, t))
        if p == "core::option::Option": return NONE
        if p == "core::marker::PhantomData": return Adt(p, 0, ())
        if "Core" in s: return Obj("digest", alg=alg_of(ctx, t), data=Bytes(()))
    if k == "param": return Obj("digest", alg=alg_of(ctx, t), data=Bytes(()))
    if k == "int": return P(0)
    if k == "bool": return False
    if k == "array": return bfill(0, ctx.ex.const_len(t["len"]))
    if k == "tuple": return Tup(*[default_of(ctx, ctx.ex.ty(e)) for e in t["els"]])
    raise Unsupported(f"Default for {s}")


def ctx_len_of(ctx, t):
    """length of a GenericArray type from its typenum argument"""
    a = t["args"][1]
    u = ctx.ex.ty(a)
    n = typenum(u["s"])
    if n is not None: return P(n)
    if u["s"].startswith("<D as "): return digest_len(("D64:" if ctx.ex.natives_d64 else "D:") + "D")
    raise Unsupported(f"length {u['s']}")


def typenum(s):
    import re
    if "UTerm" not in s: return None
    bits = re.findall(r"::B([01])", s)
    n = 0
    for b in bits: n = n * 2 + int(b)
    return n


@nat("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "core::clone::Clone::clone_from")
def clone(ctx, r):
    v = ctx.load(r)
    if ctx.name.endswith("to_owned"): return ctx.d(v)
    return v


@nat("core::convert::Into::into", "core::convert::From::from", "core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref",
     "core::borrow::BorrowMut::borrow_mut", "core::convert::AsMut::as_mut")
def convert(ctx, v):
    t = ctx.ex.ty(ctx.dty) if ctx.dty is not None else {"k": "?", "s": "?"}
    x = ctx.d(v)
    if t["k"] == "bool" and isinstance(x, Obj) and x.kind == "choice": return x.b
    if isinstance(x, Obj) and x.kind == "ctoption" and t["k"] == "adt" and t["path"] == OPT: return cto_option(ctx, x)
    if isinstance(x, Obj) and x.kind == "choice" and isinstance(t, dict) and "Choice" in t["s"]: return x
    if isinstance(x, Obj) and x.kind == "salt": return x if t["k"] != "ref" else (v if isinstance(v, Ref) else ctx.ref(x))
    if t["k"] == "ref":
        inner = ctx.ex.ty(t["to"])
        if isinstance(x, Bytes):
            return final_ref(ctx, v) if isinstance(v, Ref) else ctx.ref(x)
        if inner["k"] in ("slice", "str"): return ctx.ref(asbytes(ctx, v))
        if isinstance(v, Ref): return final_ref(ctx, v)
    if t["k"] == "int":
        if isinstance(x, bool): return P(int(x))
        if isinstance(x, N) and x.sort == "bool": return P(node("b2i", x, sort="int"))
        if isinstance(x, Poly): return x
    if t["k"] == "adt":
        p = t["path"]
        if p == "num_bigint::biguint::BigUint" and isinstance(x, Poly): return x
        if p == "curve25519_dalek::scalar::Scalar" and isinstance(x, Poly): return Sc(x)
        if p == "subtle::Choice" and isinstance(x, Poly): return Obj("choice", b=eqi(x, 1))
        if ctx.ex.is_bytes_ty(t): return asbytes(ctx, v)
        src = ctx.argty(0)
        if src["k"] == "adt" and src["path"] == p: return v
        if p == OPT and not (isinstance(x, Adt) and x.path == OPT): return Some(v)
        if p in ("alloc::boxed::Box",): return v
    if t["k"] == "array" and ctx.ex.is_bytes_ty(t): return asbytes(ctx, v)
    if t["s"] == ctx.argty(0)["s"] or len(ctx.callee["args"]) > 1 and isinstance(ctx.callee["args"][1], int) and ctx.argty(0)["s"] == ctx.argty(1)["s"]: return v
    raise Unsupported(f"conversion {ctx.argty(0)['s']} -> {t['s']}")


@nat("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice",
     "generic_array::GenericArray::as_slice", "generic_array::GenericArray::as_mut_slice", "alloc::string::String::as_bytes", "alloc::string::String::as_str",
     "core::str::as_bytes", "[T;N]::as_slice", "[T;N]::as_mut_slice", "str::as_bytes", "core::array::as_slice", "<[T;N]>::as_slice", "[T; N]::as_slice")
def deref_(ctx, r):
    x = ctx.d(r)
    if isinstance(x, (Bytes, Arr)): return final_ref(ctx, r)
    if isinstance(x, Obj) and x.kind == "static":
        # lazy_static: run the initialiser behind the Deref impl
        pass
    if isinstance(x, Adt): return ctx.ref(asbytes(ctx, r))
    if isinstance(x, Obj) and x.kind == "phout": return ctx.ref(x.s)
    raise Unsupported(f"deref of {x!r}")


@nat("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def try_into(ctx, v):
    t = ctx.ex.ty(ctx.dty)        # Result<X, E>
    x = ctx.d(v)
    tgt = ctx.ex.ty(t["args"][0])
    if isinstance(x, Bytes):
        if tgt["k"] == "array" or tgt["k"] == "ref" and ctx.ex.ty(tgt["to"])["k"] == "array":
            arr = tgt if tgt["k"] == "array" else ctx.ex.ty(tgt["to"])
            n = ctx.ex.const_len(arr["len"])
            c = eqi(x.length, n)
            val = x if tgt["k"] == "array" else v
            raise Fork([(c, lambda s: Ok(val)), (bnot(c), lambda s: Err(Adt("core::array::TryFromSliceError", 0, (UNIT,))))])
    if isinstance(x, Poly) and tgt["k"] == "int":
        b = tgt["bits"]
        c = band(ge0(x), lt(x, 1 << b)) if not tgt["signed"] else band(ge0(x + (1 << (b - 1))), lt(x, 1 << (b - 1)))
        raise Fork([(c, lambda s: Ok(x)), (bnot(c), lambda s: Err(Adt("core::num::error::TryFromIntError", 0, (UNIT,))))])
    if isinstance(x, N) and tgt["k"] == "adt" and tgt["path"] == "password_hash::params::ParamsString":
        # H::Params -> ParamsString: an arbitrary function of the parameters that may fail
        c = node("params_ok", x, sort="bool")
        raise Fork([(c, lambda s: Ok(Obj("pstr", v=node("params_str", x, sort="Obj")))),
                    (bnot(c), lambda s: Err(node("params_err", x, sort="Obj")))])
    raise Unsupported(f"try_into {x!r} -> {t['s']}")


# ---------------------------------------------------------------- comparison
def eq_val(ctx, a, b):
    a, b = ctx.d(a), ctx.d(b)
    if isinstance(a, Poly) and isinstance(b, Poly): return eqi(a, b)
    if isinstance(a, Sc) and isinstance(b, Sc): return sc_eq(a, b)
    if isinstance(a, Pt) and isinstance(b, Pt): return pt_eq(a, b)
    if isinstance(a, Bytes) and isinstance(b, Bytes): return eqb(a, b)
    if isinstance(a, (bool, N)) and isinstance(b, (bool, N)) and (isinstance(a, bool) or a.sort == "bool") and (isinstance(b, bool) or b.sort == "bool"): return biff(a, b)
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.variant != b.variant: return False
        return band(*[eq_val(ctx, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.els) != len(b.els): return False
        return band(*[eq_val(ctx, x, y) for x, y in zip(a.els, b.els)])
    if isinstance(a, N) and isinstance(b, N):
        if a is b: return True
        x, y = sorted((a, b))
        return node("eqo", x, y, sort="bool")
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind:
        if a.kind == "salt": return eqb(a.s, b.s)
        if a.kind == "pstr": return eq_val(ctx, a.v, b.v)
    raise Unsupported(f"equality of {a!r} and {b!r}")


@nat("core::cmp::PartialEq::eq")
def eq(ctx, a, b):
    ctime.compared(ctx, a, b)
    return eq_val(ctx, a, b)


@nat("core::cmp::PartialEq::ne")
def ne(ctx, a, b):
    ctime.compared(ctx, a, b)
    return bnot(eq_val(ctx, a, b))


def lexlt(a, b):
    if a == b: return False
    if a.lit is not None and b.lit is not None: return a.lit < b.lit
    return node("lexlt", a, b, sort="bool")


def lt_val(ctx, a, b):
    a, b = ctx.d(a), ctx.d(b)
    if isinstance(a, Poly) and isinstance(b, Poly): return lt(a, b)
    if isinstance(a, Bytes) and isinstance(b, Bytes): return lexlt(a, b)
    raise Unsupported(f"order of {a!r} and {b!r}")


@nat("core::cmp::PartialOrd::lt")
def plt(ctx, a, b): return lt_val(ctx, a, b)
@nat("core::cmp::PartialOrd::gt")
def pgt(ctx, a, b): return lt_val(ctx, b, a)
@nat("core::cmp::PartialOrd::le")
def ple(ctx, a, b): return bnot(lt_val(ctx, b, a))
@nat("core::cmp::PartialOrd::ge")
def pge(ctx, a, b): return bnot(lt_val(ctx, a, b))


ORD = "core::cmp::Ordering"


@nat("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def cmp(ctx, a, b):
    l, g = lt_val(ctx, a, b), lt_val(ctx, b, a)
    e = eq_val(ctx, a, b)
    w = (lambda o: Some(o)) if ctx.name.endswith("partial_cmp") else (lambda o: o)
    raise Fork([(l, lambda s: w(Adt(ORD, 0, ()))), (e, lambda s: w(Adt(ORD, 1, ()))), (band(bnot(l), bnot(e)), lambda s: w(Adt(ORD, 2, ())))])


@nat(*[ORD + "::" + m for m in ("reverse", "is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne", "then")])
def ordering(ctx, o, *a):
    i, m = ctx.d(o).variant, ctx.name.split("::")[-1]
    if m == "reverse": return Adt(ORD, 2 - i, ())
    if m == "then": return ctx.d(a[0]) if i == 1 else ctx.d(o)
    return {"is_lt": i == 0, "is_le": i < 2, "is_gt": i == 2, "is_ge": i > 0, "is_eq": i == 1, "is_ne": i != 1}[m]


@nat("core::cmp::Ord::min", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::max", "core::intrinsics::integer_min", "core::intrinsics::integer_max")
def minmax(ctx, a, b):
    l = lt_val(ctx, a, b)
    mn = ctx.name.endswith("min")
    raise Fork([(l, lambda s: a if mn else b), (bnot(l), lambda s: (b if mn else a) if not eq_val(ctx, a, b) is True else a)])


# ---------------------------------------------------------------- subtle
@nat("subtle::ConstantTimeEq::ct_eq")
def ct_eq(ctx, a, b):
    x, y = ctx.d(a), ctx.d(b)
    if not isinstance(x, (Sc, Pt, Poly)): x, y = asbytes(ctx, a), asbytes(ctx, b)
    ctx.ex.ct_uses.append((ctx.at, ctx.ex_fn()))
    return Obj("choice", b=eq_val(ctx, x, y))


def _ex_fn(self): return self.st.frames[-1].fn["path"]
Call.ex_fn = _ex_fn


@nat("subtle::Choice::unwrap_u8")
def unwrap_u8(ctx, c): 
    b = ctx.d(c).b
    return P(int(b)) if isinstance(b, bool) else P(node("b2i", b, sort="int"))


def bits_of(op):
    def f(ctx, a, b):
        x, y = ctx.d(a), ctx.d(b)
        if isinstance(x, Obj):
            if op == "BitAnd": return Obj("choice", b=band(x.b, y.b))
            if op == "BitOr": return Obj("choice", b=bor(x.b, y.b))
            if op == "BitXor": return Obj("choice", b=bnot(biff(x.b, y.b)))
        t = ctx.ex.ty(ctx.dty)
        if t["k"] not in ("int", "bool"): raise Unsupported(op)
        # machine integers behind references
        if op in ("Shl", "Shr"): ctx.oblige(band(ge0(y), lt(y, t["bits"])), "no overflow in a shift")
        return ctx.ex.binop(ctx.st, None, op, x, y, ctx.dty, None)
    return f


for _o in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"): nat(f"core::ops::bit::{_o}::{_o.lower()}")(bits_of(_o))
@nat("core::ops::bit::Not::not")
def c_not(ctx, a):
    x = ctx.d(a)
    if isinstance(x, Obj): return Obj("choice", b=bnot(x.b))
    if isinstance(x, (bool, N)): return bnot(x)
    raise Unsupported("not")


@nat("subtle::ConstantTimeEq::ct_ne")
def ct_ne(ctx, a, b): return Obj("choice", b=bnot(ct_eq(ctx, a, b).b))


# ---------------------------------------------------------------- arithmetic on numbers, scalars, points
def arith(op):
    def f(ctx, a, b):
        x, y = ctx.d(a), ctx.d(b)
        r = arith_val(ctx, op, x, y)
        return r
    return f


def is_scalar(x): return isinstance(x, Sc)


def arith_val(ctx, op, x, y):
    if isinstance(x, Sc) and isinstance(y, Sc):
        if op == "add": return Sc(x.p + y.p)
        if op == "sub": return Sc(x.p - y.p)
        if op == "mul": return sc_mul(x, y)
    if isinstance(x, Pt) and isinstance(y, Pt):
        if op == "add": return pt_add(x, y)
        if op == "sub": return pt_add(x, pt_neg(y))
    if op == "mul" and isinstance(x, Pt) and isinstance(y, Sc): return pt_mul(y, x)
    if op == "mul" and isinstance(x, Sc) and isinstance(y, Pt): return pt_mul(x, y)
    if isinstance(x, Poly) and isinstance(y, Poly):
        # BigUint (the only numeric type whose operators arrive as trait calls) or primitive via references
        if op == "add": return x + y
        if op == "mul": return terms.product(x, y)
        if op == "sub":
            ctx.oblige(ge0(x - y), "no panic: BigUint subtraction does not go below zero")
            return x - y
        if op in ("rem", "div"):
            ctx.oblige(bnot(eqi(y, 0)), "no panic: division by zero")
            return mod(x, y) if op == "rem" else terms.quotient(x, y)
    raise Unsupported(f"{op} of {x!r} and {y!r}")


for _op in ("add", "sub", "mul", "rem", "div"):
    T[f"core::ops::arith::{_op.capitalize()}::{_op}"] = arith(_op)


def arith_assign(op):
    def f(ctx, a, b):
        r = final_ref(ctx, a)
        ctx.store(r, arith_val(ctx, op, ctx.load(r), ctx.d(b)))
        return UNIT
    return f


for _op in ("add", "sub", "mul", "rem", "div"):
    T[f"core::ops::arith::{_op.capitalize()}Assign::{_op}_assign"] = arith_assign(_op)


@nat("core::ops::arith::Neg::neg")
def neg(ctx, a):
    x = ctx.d(a)
    if isinstance(x, Sc): return Sc(-x.p)
    if isinstance(x, Pt): return pt_neg(x)
    raise Unsupported("neg")


# ---------------------------------------------------------------- num_bigint
BI = "num_bigint::biguint::BigUint::"
@nat(BI + "from_bytes_be")
def from_be(ctx, b): return os2ip(asbytes(ctx, b))
@nat(BI + "from_bytes_le")
def from_le(ctx, b): return os2ip(reverse(asbytes(ctx, b)))
@nat(BI + "to_bytes_be")
def to_be(ctx, n): return i2osp(ctx.d(n))
@nat(BI + "to_bytes_le")
def to_le(ctx, n): return reverse(i2osp(ctx.d(n)))
@nat(BI + "new", BI + "from_slice")
def bi_new(ctx, v):
    r = P(0)
    for i, e in enumerate(ctx.d(v).els): r = r + e * (1 << (32 * i))
    return r
@nat(BI + "modpow")
def modpow(ctx, b, e, n):
    b, e, n = ctx.d(b), ctx.d(e), ctx.d(n)
    ctx.oblige(bnot(eqi(n, 0)), "no panic: modpow with a zero modulus")
    return powmod(b, e, n)
@nat(BI + "bits")
def bi_bits(ctx, n): return P(node("bits", ctx.d(n), sort="int"))
@nat("num_traits::identities::Zero::is_zero")
def is_zero(ctx, n): return eqi(ctx.d(n), 0)
@nat("num_traits::identities::Zero::zero")
def zero(ctx): return P(0)
@nat("num_traits::identities::One::one")
def one(ctx): return P(1)


# ---------------------------------------------------------------- digests
DG = "digest::digest::Digest::"
@nat(DG + "new")
def dnew(ctx): return Obj("digest", alg=alg_of(ctx, ctx.argty(0)), data=Bytes(()))
@nat(DG + "new_with_prefix")
def dnewp(ctx, d): return Obj("digest", alg=alg_of(ctx, ctx.argty(0)), data=asbytes(ctx, d))
@nat(DG + "update", "digest::Update::update")
def dupdate(ctx, h, d):
    r = final_ref(ctx, h)
    o = ctx.load(r)
    ctx.store(r, o.set(data=cat(o.data, asbytes(ctx, d))))
    return UNIT
@nat(DG + "chain_update", "digest::Update::chain")
def dchain(ctx, h, d):
    o = ctx.d(h)
    return o.set(data=cat(o.data, asbytes(ctx, d)))
@nat(DG + "finalize", "digest::FixedOutput::finalize_fixed")
def dfinal(ctx, h):
    o = ctx.d(h)
    return mkhash(o.alg, o.data)
@nat(DG + "finalize_reset")
def dfinalr(ctx, h):
    r = final_ref(ctx, h)
    o = ctx.load(r)
    ctx.store(r, o.set(data=Bytes(())))
    return mkhash(o.alg, o.data)
@nat(DG + "reset")
def dreset(ctx, h):
    r = final_ref(ctx, h)
    ctx.store(r, ctx.load(r).set(data=Bytes(())))
    return UNIT
@nat(DG + "finalize_into")
def dfinali(ctx, h, out):
    o = ctx.d(h)
    ctx.store(final_ref(ctx, out), mkhash(o.alg, o.data))
    return UNIT
@nat(DG + "digest")
def ddigest(ctx, d): return mkhash(alg_of(ctx, ctx.argty(0)), asbytes(ctx, d))
@nat(DG + "output_size")
def doutsize(ctx): return digest_len(alg_of(ctx, ctx.argty(0)))


# ---------------------------------------------------------------- Vec / slices / strings
V = "alloc::vec::Vec::"
@nat(V + "new", "alloc::string::String::new")
def vnew(ctx): return empty_like(ctx)
@nat(V + "with_capacity", "alloc::string::String::with_capacity")
def vcap(ctx, n): return empty_like(ctx)


def empty_like(ctx):
    return Bytes(()) if ctx.ex.is_bytes_ty(ctx.rty) else Arr(())


@nat(V + "len", "[T]::len", "str::len", "core::slice::len", "alloc::string::String::len", "core::str::len", "core::slice::[T]::len")
def vlen(ctx, r): return ctx.ex.length(ctx.d(r))
@nat(V + "is_empty", "[T]::is_empty", "str::is_empty", "alloc::string::String::is_empty")
def vempty(ctx, r): return eqi(ctx.ex.length(ctx.d(r)), 0)
@nat(V + "capacity")
def vcapy(ctx, r): raise Unsupported("capacity")
@nat(V + "reserve", V + "shrink_to_fit", V + "reserve_exact")
def vreserve(ctx, *a): return UNIT
@nat(V + "clear")
def vclear(ctx, r):
    r = final_ref(ctx, r)
    ctx.store(r, Bytes(()) if isinstance(ctx.load(r), Bytes) else Arr(()))
    return UNIT
@nat(V + "push")
def vpush(ctx, r, x):
    r = final_ref(ctx, r)
    v = ctx.load(r)
    ctx.store(r, cat(v, mk([("el", x)])) if isinstance(v, Bytes) else Arr(v.els + (x,)))
    return UNIT
@nat(V + "extend_from_slice")
def vextend(ctx, r, s):
    r = final_ref(ctx, r)
    v = ctx.load(r)
    if isinstance(v, Bytes): ctx.store(r, cat(v, asbytes(ctx, s)))
    else: ctx.store(r, Arr(v.els + ctx.d(s).els))
    return UNIT
@nat("core::iter::traits::collect::Extend::extend")
def extend(ctx, r, it):
    r = final_ref(ctx, r)
    v = ctx.load(r)
    x = ctx.d(it)
    if isinstance(v, Bytes) and isinstance(x, Bytes):
        ctx.store(r, cat(v, x)); return UNIT
    if isinstance(v, Bytes):
        b = iter_bytes(ctx, it)
        if b is not None:
            ctx.store(r, cat(v, b)); return UNIT
        raise Unsupported("extend")
    raise Unsupported("extend")
@nat(V + "append")
def vappend(ctx, r, s):
    r, s = final_ref(ctx, r), final_ref(ctx, s)
    ctx.store(r, cat(ctx.load(r), ctx.load(s)))
    ctx.store(s, Bytes(()))
    return UNIT
@nat(V + "truncate")
def vtrunc(ctx, r, n):
    r = final_ref(ctx, r)
    v = ctx.load(r)
    c = le(n, v.length)
    def cut(s):
        ctx.ex.store(s, r, sub(v, P(0), n)); return UNIT
    raise Fork([(c, cut), (bnot(c), lambda s: UNIT)])
@nat(V + "resize")
def vresize(ctx, r, n, x):
    r = final_ref(ctx, r)
    v = ctx.load(r)
    if not isinstance(v, Bytes):
        if n.const is None or n.const > 4096: raise Unsupported("resize to a symbolic length")
        ctx.store(r, Arr((list(v.els) + [x] * n.const)[:n.const])); return UNIT
    c = le(v.length, n)
    def grow(s):
        ctx.ex.store(s, r, cat(v, bfill(x, n - v.length))); return UNIT
    def cut(s):
        ctx.ex.store(s, r, sub(v, P(0), n)); return UNIT
    raise Fork([(c, grow), (bnot(c), cut)])
@nat(V + "insert")
def vinsert(ctx, r, i, x):
    r = final_ref(ctx, r)
    v = ctx.load(r)
    n = ctx.ex.length(v)
    ctx.oblige(le(i, n), "no panic: insertion within bounds")
    if isinstance(v, Bytes): ctx.store(r, cat(sub(v, P(0), i), mk([("el", x)]), sub(v, i, n)))
    else:
        if i.const is None: raise Unsupported("insertion at a symbolic position")
        ctx.store(r, Arr(v.els[:i.const] + (x,) + v.els[i.const:]))
    return UNIT
@nat(V + "remove")
def vremove(ctx, r, i):
    r = final_ref(ctx, r)
    v = ctx.load(r)
    n = ctx.ex.length(v)
    ctx.oblige(lt(i, n), "no panic: removal within bounds")
    if isinstance(v, Bytes):
        ctx.store(r, cat(sub(v, P(0), i), sub(v, i + 1, n)))
        return terms.index(v, i)
    if i.const is None: raise Unsupported("removal at a symbolic position")
    ctx.store(r, Arr(v.els[:i.const] + v.els[i.const + 1:]))
    return v.els[i.const]
@nat(V + "pop")
def vpop(ctx, r):
    r = final_ref(ctx, r)
    v = ctx.load(r)
    n = ctx.ex.length(v)
    c = lt(P(0), n)
    def some(s):
        if isinstance(v, Bytes):
            ctx.ex.store(s, r, sub(v, P(0), n - 1)); return Some(terms.index(v, n - 1))
        ctx.ex.store(s, r, Arr(v.els[:-1])); return Some(v.els[-1])
    raise Fork([(c, some), (bnot(c), lambda s: NONE)])
@nat("[T]::repeat", "alloc::slice::repeat")
def srepeat(ctx, r, n):
    x = asbytes(ctx, r)
    if n.const is not None and n.const <= 4096: return cat(*[x] * n.const)
    if x.length.const == 1: return bfill(terms.index(x, P(0)), n)
    raise Unsupported("repeated a symbolic number of times")
@nat("[T]::join", "alloc::slice::join", "alloc::slice::Join::join")
def sjoin(ctx, r, sep):
    x = ctx.d(r)
    if not isinstance(x, Arr): raise Unsupported("join")
    e = ctx.d(sep)
    e = mk([("el", e)]) if isinstance(e, Poly) else asbytes(ctx, sep)
    out = []
    for i, y in enumerate(x.els): out += ([e] if i else []) + [asbytes(ctx, y)]
    return cat(*out)
@nat("alloc::vec::from_elem")
def from_elem(ctx, x, n):
    if isinstance(x, Poly) and ctx.ex.is_bytes_ty(ctx.rty): return bfill(x, n)
    if n.const is not None and n.const <= 4096: return Arr([x] * n.const)
    raise Unsupported("vec of symbolic length")
@nat("[T]::to_vec", "alloc::slice::to_vec", "alloc::slice::[T]::to_vec", "alloc::slice::into_vec", "[T]::into_vec", V + "into_boxed_slice", "alloc::str::to_owned",
     "alloc::string::ToString::to_string", "str::to_owned", "generic_array::GenericArray::to_vec", "alloc::string::String::into_bytes", "str::to_string",
     "generic_array::GenericArray::from_slice", "generic_array::GenericArray::clone_from_slice", "core::slice::<impl [T]>::to_vec")
def to_vec(ctx, r):
    x = ctx.d(r)
    if ctx.name.endswith("from_slice"):
        ctx.oblige(eqi(x.length, ctx_len_of(ctx, ctx.rty if ctx.rty["k"] == "adt" else ctx.ex.ty(ctx.rty["to"]))), "no panic: slice length")
        return x if ctx.rty["k"] == "adt" else r
    if isinstance(x, Arr): return x
    return asbytes(ctx, r)
@nat("[T]::copy_from_slice", "[T]::clone_from_slice")
def copy_from_slice(ctx, dst, src):
    d = final_ref(ctx, dst)
    dv, sv = ctx.load(d), ctx.d(src)
    ctx.oblige(eqi(ctx.ex.length(dv), ctx.ex.length(sv)), "no panic: copy_from_slice lengths are equal")
    ctx.store(d, sv)
    return UNIT
@nat("[T]::fill")
def sfill(ctx, dst, x):
    d = final_ref(ctx, dst)
    v = ctx.load(d)
    ctx.store(d, bfill(x, v.length)); return UNIT


def reverse(b):
    out = []
    for s in reversed(b.segs):
        if s[0] == "lit": out.append(("lit", s[1][::-1]))
        elif s[0] in ("el", "fill"): out.append(s)
        elif s[0] == "sub":
            n = (s[3] - s[2]).const
            if n is not None and n <= 256:
                for i in range(n - 1, -1, -1): out.append(("sub", s[1], s[2] + i, s[2] + i + 1))
            else:
                a = s[1]
                w = batom(a) if s[2].const == 0 and s[3] == atom_len(a) else sub(batom(a), s[2], s[3])
                if a.op == "rev":
                    # the reverse of a slice of a reverse is the mirrored slice
                    n, x = a.args[0].length, a.args[0]
                    m = x if w.whole is a else sub(x, n - s[3], n - s[2])
                    if w.whole is a: terms.begin()
                    terms.certify("rev", w, m)
                    out += m.segs
                    continue
                out.append(("sub", node("rev", w, sort="bytes", len=w.length), P(0), w.length))
    return mk(out)


@nat("[T]::reverse")
def sreverse(ctx, dst):
    d = final_ref(ctx, dst)
    v = ctx.load(d)
    r = reverse(v) if isinstance(v, Bytes) else Arr(v.els[::-1])
    ctx.store(d, r); return UNIT
@nat("[T]::concat", "alloc::slice::Concat::concat", "alloc::slice::concat")
def sconcat(ctx, r):
    x = ctx.d(r)
    return cat(*[asbytes(ctx, e) for e in x.els])
def ascii_atom(a): return a.meta.get("salt") or a.op in ("b64", "pstr_text", "hexmap")
def boundary(x, k):
    """whether position k of the text x is the start of a character (or the end)"""
    n = x.length
    if k == P(0) or k == n or all(g[0] == "lit" and all(c < 128 for c in g[1]) or g[0] == "sub" and ascii_atom(g[1]) for g in x.segs): return le(k, n)
    b = terms.index(x, k)
    return bor(eqi(k, 0), eqi(k, n), band(lt(k, n), bor(lt(b, P(128)), ge0(b - 192))))


@nat("core::str::is_char_boundary", "str::is_char_boundary")
def is_char_boundary(ctx, r, k):
    x = asbytes(ctx, r)
    c = le(k, x.length)
    raise Fork([(c, lambda s: boundary(x, k)), (bnot(c), lambda s: False)])


@nat("str::get", "core::str::get")
def str_get(ctx, r, i):
    x = asbytes(ctx, r); fr = final_ref(ctx, r)
    lo, hi = range_of(ctx, i, x.length)
    c = band(le(lo, hi), le(hi, x.length))
    def inside(s):
        e = band(boundary(x, lo), boundary(x, hi))
        raise Fork([(e, lambda s: Some(Ref(fr.cell, fr.path + (("s", lo, hi),)))), (bnot(e), lambda s: NONE)])
    raise Fork([(c, inside), (bnot(c), lambda s: NONE)])


@nat("str::split_at", "core::str::split_at")
def str_split_at(ctx, r, k):
    x = asbytes(ctx, r); fr = final_ref(ctx, r); n = x.length
    ctx.oblige(le(k, n), "no panic: split_at within bounds")
    ctx.oblige(boundary(x, k), "no panic: split_at between characters")
    return Tup(Ref(fr.cell, fr.path + (("s", P(0), k),)), Ref(fr.cell, fr.path + (("s", k, n),)))


@nat("alloc::string::String::truncate")
def string_truncate(ctx, r, k):
    fr = final_ref(ctx, r)
    x = asbytes(ctx, fr); n = x.length
    c = lt(k, n)
    def cut(s):
        ctx2 = Call(ctx.ex, s, ctx.callee, ctx.args, ctx.dty, ctx.at, ctx.name)
        ctx2.oblige(boundary(x, k), "no panic: truncate between characters")
        ctx.ex.store(s, fr, sub(x, P(0), k))
        return UNIT
    raise Fork([(c, cut), (bnot(c), lambda s: UNIT)])


@nat("str::trim", "str::trim_start", "str::trim_end", "str::trim_matches", "str::trim_end_matches", "str::trim_start_matches")
def str_trim(ctx, r, pat=None):
    x = asbytes(ctx, r)
    w = x.whole
    # neither a salt nor a parameter string contains white space
    if pat is None and w is not None and ascii_atom(w): return r
    if x.lit is not None and pat is None:
        t = x.lit.decode()
        return ctx.ref(blit({"trim": t.strip, "trim_start": t.lstrip, "trim_end": t.rstrip}[ctx.name.split("::")[-1]]().encode()))
    if pat is not None and not (isinstance(pat, Poly) and pat.const is not None): raise Unsupported(f"{ctx.name} with a pattern")
    return ctx.ref(batom(node(ctx.name.split("::")[-1], x, -1 if pat is None else pat.const, sort="bytes", text=True)))


@nat("str::is_ascii", "core::str::is_ascii", "[T]::is_ascii")
def is_ascii(ctx, r):
    x = asbytes(ctx, r)
    if all(g[0] == "lit" and all(c < 128 for c in g[1]) or g[0] == "sub" and ascii_atom(g[1]) for g in x.segs): return True
    if x.lit is not None: return all(c < 128 for c in x.lit)
    return node("ascii", x, sort="bool")


@nat("[T]::first", "[T]::last", "[T]::get", "[T]::get_mut", "[T]::first_mut", "[T]::last_mut")
def sfirst(ctx, r, i=None):
    x = ctx.d(r)
    fr = final_ref(ctx, r)
    n = ctx.ex.length(x)
    if "::get" in ctx.name:
        if isinstance(i, Poly):
            c = lt(i, n)
            raise Fork([(c, lambda s: Some(Ref(fr.cell, fr.path + (("i", i),)))), (bnot(c), lambda s: NONE)])
        lo, hi = range_of(ctx, i, n)
        c = band(le(lo, hi), le(hi, n))
        raise Fork([(c, lambda s: Some(Ref(fr.cell, fr.path + (("s", lo, hi),)))), (bnot(c), lambda s: NONE)])
    idx = P(0) if "::first" in ctx.name else n - 1
    c = bnot(eqi(n, 0))
    raise Fork([(c, lambda s: Some(Ref(fr.cell, fr.path + (("i", idx),)))), (bnot(c), lambda s: NONE)])
@nat("[T]::split_first", "[T]::split_first_mut")
def split_first(ctx, r):
    x = ctx.d(r); fr = final_ref(ctx, r); n = ctx.ex.length(x)
    c = bnot(eqi(n, 0))
    raise Fork([(c, lambda s: Some(Tup(Ref(fr.cell, fr.path + (("i", P(0)),)), Ref(fr.cell, fr.path + (("s", P(1), n),))))), (bnot(c), lambda s: NONE)])
@nat("[T]::split_last", "[T]::split_last_mut")
def split_last(ctx, r):
    x = ctx.d(r); fr = final_ref(ctx, r); n = ctx.ex.length(x)
    c = bnot(eqi(n, 0))
    raise Fork([(c, lambda s: Some(Tup(Ref(fr.cell, fr.path + (("i", n - 1),)), Ref(fr.cell, fr.path + (("s", P(0), n - 1),))))), (bnot(c), lambda s: NONE)])


@nat("[T]::starts_with", "[T]::ends_with", "[T]::strip_prefix", "[T]::strip_suffix")
def starts_with(ctx, r, needle):
    x, y = ctx.d(r), ctx.d(needle)
    if not (isinstance(x, Bytes) and isinstance(y, Bytes)): raise Unsupported(f"{ctx.name} of {x!r}, {y!r}")
    n, k = x.length, y.length
    front = ctx.name.endswith(("starts_with", "prefix"))
    strip = "strip" in ctx.name
    fr = final_ref(ctx, r)
    c = le(k, n)
    def yes(s):
        part = sub(x, P(0), k) if front else sub(x, n - k, n)
        ctx2 = Call(ctx.ex, s, ctx.callee, ctx.args, ctx.dty, ctx.at, ctx.name)
        ctime.compared(ctx2, part, y)
        e = eqb(part, y)
        if not strip: return e
        rest = Ref(fr.cell, fr.path + ((("s", k, n) if front else ("s", P(0), n - k)),))
        raise Fork([(e, lambda s: Some(rest)), (bnot(e), lambda s: NONE)])
    raise Fork([(c, yes), (bnot(c), lambda s: NONE if strip else False)])


@nat("[T]::split_at", "[T]::split_at_mut")
def split_at_(ctx, r, k):
    x = ctx.d(r); fr = final_ref(ctx, r); n = ctx.ex.length(x)
    ctx.oblige(le(k, n), "no panic: split_at within bounds")
    return Tup(Ref(fr.cell, fr.path + (("s", P(0), k),)), Ref(fr.cell, fr.path + (("s", k, n),)))


def range_of(ctx, i, n):
    i = ctx.d(i)
    name = (i.path or "").split("::")[-1]
    if name == "Range": return i.fields[0], i.fields[1]
    if name == "RangeFrom": return i.fields[0], n
    if name == "RangeTo": return P(0), i.fields[0]
    if name == "RangeFull": return P(0), n
    if name == "RangeToInclusive": return P(0), i.fields[0] + 1
    if name == "RangeInclusive": return i.fields[0], i.fields[1] + 1
    raise Unsupported(f"range {i!r}")


@nat("core::ops::range::RangeInclusive::new")
def rangeincl(ctx, a, b): return Adt("core::ops::range::RangeInclusive", 0, (a, b, False))


@nat("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index_(ctx, r, i):
    fr = final_ref(ctx, r)
    v = ctx.load(fr)
    n = ctx.ex.length(v)
    if isinstance(i, Poly):
        ctx.oblige(lt(i, n), "no panic: index in bounds")
        return Ref(fr.cell, fr.path + (("i", i),))
    lo, hi = range_of(ctx, i, n)
    ctx.oblige(band(le(lo, hi), le(hi, n)), "no panic: slice range in bounds")
    if ctx.rty["s"] in ("&str", "&mut str"):
        x = asbytes(ctx, fr)
        ctx.oblige(band(boundary(x, lo), boundary(x, hi)), "no panic: string range between characters")
    return Ref(fr.cell, fr.path + (("s", lo, hi),))


# ---------------------------------------------------------------- iterators
@nat("[T]::iter", "[T]::iter_mut")
def siter(ctx, r):
    fr = final_ref(ctx, r)
    return Obj("iter", ref=fr, pos=P(0), end=ctx.ex.length(ctx.load(fr)), rev=False, byval=False)
@nat("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(ctx, v):
    x = v
    if isinstance(x, Obj) and x.kind in ("iter", "repeat"): return x
    if isinstance(x, Adt):
        if x.path == OPT: return Obj("iter", ref=ctx.ref(Arr(x.fields)), pos=P(0), end=P(len(x.fields)), rev=False, byval=True)
        return flat_iter(ctx, x)
    if isinstance(x, Ref):
        y = ctx.d(x)
        if isinstance(y, (Bytes, Arr)): return siter(ctx, x)
        return x
    if isinstance(x, (Bytes, Arr)):
        return Obj("iter", ref=ctx.ref(x), pos=P(0), end=ctx.ex.length(x), rev=False, byval=True)
    raise Unsupported(f"into_iter of {x!r}")


@nat("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def inext(ctx, r):
    fr = final_ref(ctx, r)
    x = ctx.load(fr)
    back = ctx.name.endswith("next_back")
    if isinstance(x, Obj) and x.kind == "iter":
        c = lt(x.pos, x.end)
        if c is False and "probe" in x.f: raise loops.ProbeHit(ctx.st, x.probe)
        if c is not True and c is not False and c not in ctx.st.facts and bnot(c) not in ctx.st.facts and not getattr(ctx.ex, "wprobe", None):
            s2 = loops.summarise(ctx, fr, x, back)
            if s2 is None: raise Unsupported("iteration over a byte string of symbolic length")
            return NONE
        def some(s):
            i = x.end - 1 if back else x.pos
            ctx.ex.store(s, fr, x.set(end=x.end - 1) if back else x.set(pos=x.pos + 1))
            el = Ref(x.ref.cell, x.ref.path + (("i", i),))
            return Some(ctx.ex.load(s, el) if x.byval else el)
        raise Fork([(c, some), (bnot(c), lambda s: NONE)])
    if isinstance(x, Adt) and x.path == "core::ops::range::Range" and isinstance(x.fields[0], Poly):
        c = lt(x.fields[0], x.fields[1])
        if c is not True and c is not False and c not in ctx.st.facts and bnot(c) not in ctx.st.facts and not getattr(ctx.ex, "wprobe", None):
            raise Unsupported("loop over a range of symbolic length")
        def some(s):
            if back:
                ctx.ex.store(s, fr, Adt(x.path, 0, (x.fields[0], x.fields[1] - 1)))
                return Some(x.fields[1] - 1)
            ctx.ex.store(s, fr, Adt(x.path, 0, (x.fields[0] + 1, x.fields[1])))
            return Some(x.fields[0])
        raise Fork([(c, some), (bnot(c), lambda s: NONE)])
    if isinstance(x, Obj) and x.kind == "repeat": return Some(x.v)
    if isinstance(x, Adt) and x.path == "core::iter::sources::repeat_with::RepeatWith":
        return CallInto(Ref(fr.cell, fr.path + (("f", 0),)), [], lambda ex, st, r: Some(r))
    # adapters are executed from their own source
    if "key" in ctx.callee: return CallBody(ctx.callee["key"])
    raise Unsupported(f"next of {x!r}")


@nat("core::iter::traits::iterator::Iterator::size_hint")
def size_hint(ctx, r):
    x = ctx.d(r)
    if isinstance(x, Obj) and x.kind == "iter": n = x.end - x.pos
    elif isinstance(x, Adt) and x.path == "core::ops::range::Range" and isinstance(x.fields[0], Poly):
        n = x.fields[1] - x.fields[0]
        if ge0(n) is not True:
            c = ge0(n)
            raise Fork([(c, lambda s: Tup(n, Some(n))), (bnot(c), lambda s: Tup(P(0), Some(P(0))))])
    elif "key" in ctx.callee: return CallBody(ctx.callee["key"])
    else: raise Unsupported(f"size_hint of {x!r}")
    return Tup(n, Some(n))


@nat("core::iter::traits::iterator::Iterator::__iterator_get_unchecked")
def iget_unchecked(ctx, r, i):
    x = ctx.d(r)
    if isinstance(x, Obj) and x.kind == "iter":
        j = x.end - 1 - i if x.rev else x.pos + i
        el = Ref(x.ref.cell, x.ref.path + (("i", j),))
        return ctx.ex.load(ctx.st, el) if x.byval else el
    if "key" in ctx.callee: return CallBody(ctx.callee["key"])
    raise Unsupported(f"unchecked element of {x!r}")


IT = "core::iter::traits::iterator::Iterator::"


def flat_iter(ctx, x):
    """a chain of byte iterators of symbolic length as an iterator over the bytes it yields; the sources are
    borrowed while it lives, so nothing can change them"""
    if not (isinstance(x, Adt) and x.path == "core::iter::adapters::chain::Chain"): return x
    t = ctx.argty(0)["s"]
    if "IterMut" in t or "chain::Chain<" not in t or "zip" not in ctx.ex_fn(): return x
    try: b = iter_bytes(ctx, x)
    except Unsupported: return x
    if b is None or b.length.const is not None: return x
    def byval(y):
        y = ctx.d(y) if isinstance(y, Ref) else y
        if isinstance(y, Obj): return bool(y.f.get("byval"))
        n = y.path.split("::")[-1]
        if n in ("Copied", "Cloned"): return True
        if n == "Chain": return byval(next(o for o in y.fields if o.variant == 1).fields[0])
        return byval(y.fields[0])
    return Obj("iter", ref=ctx.ref(b), pos=P(0), end=b.length, rev=False, byval=byval(x))


@nat(IT + "all", IT + "any")
def all_any(ctx, it, f):
    """a test for zero of every byte of a string of symbolic length is a test of the number it encodes;
    everything else runs from core's own source"""
    x = ctx.d(it) if not isinstance(it, Obj) else it
    b = None
    try: b = iter_bytes(ctx, x)
    except Exception: pass
    if b is None or b.length.const is not None or "key" not in ctx.callee:
        if "key" in ctx.callee: return CallBody(ctx.callee["key"])
        raise Unsupported(f"{ctx.name} over {x!r}")
    y = P(node("var", "@all", sort="int"))
    zero = eqi(os2ip(b), 0)
    byval = isinstance(x, Obj) and x.f.get("byval") or isinstance(x, Adt)
    every = ctx.name.endswith("all")
    def then(ex, st, r):
        if r == eqi(y, 0) and every: return zero
        if r == bnot(eqi(y, 0)) and not every: return bnot(zero)
        raise Unsupported(f"a property of every byte of a byte string of symbolic length")
    return CallInto(f, [y if byval else ctx.ref(y)], then)


def build_array(ctx, f, argss):
    """the array of the results of f, called in order"""
    bytes_out = ctx.ex.is_bytes_ty(ctx.rty)
    fr = f if isinstance(f, Ref) else ctx.ref(f)
    if len(argss) > 64: raise Unsupported("a closure called for more than 64 elements")
    def step(i, acc):
        if i == len(argss): return mk([("el", x) for x in acc]) if bytes_out else Arr(acc)
        return CallInto(fr, argss[i], lambda ex, s, r: step(i + 1, acc + [r]))
    return step(0, [])


@nat("[T;N]::map")
def array_map(ctx, a, f):
    v = ctx.d(a)
    if isinstance(v, Bytes):
        if v.length.const is None or v.length.const > 64: raise Unsupported("[T; N]::map over many bytes")
        return build_array(ctx, f, [[terms.index(v, P(i))] for i in range(v.length.const)])
    return build_array(ctx, f, [[x] for x in v.els])


@nat("core::array::from_fn")
def array_from_fn(ctx, f):
    t = ctx.rty
    n = ctx.ex.const_len(t["len"]).const if t["k"] == "array" else None
    if n is None: raise Unsupported("array::from_fn of unknown length")
    return build_array(ctx, f, [[P(i)] for i in range(n)])


@nat("core::iter::sources::repeat_with::repeat_with")
def irepeat_with(ctx, f): return Adt("core::iter::sources::repeat_with::RepeatWith", 0, (f,))


@nat("core::iter::sources::repeat::repeat")
def irepeat(ctx, v): return Obj("repeat", v=v)
@nat("core::iter::sources::repeat_n::repeat_n")
def irepeat_n(ctx, v, n):
    if isinstance(v, Poly): return Obj("iter", ref=ctx.ref(bfill(v, n)), pos=P(0), end=n, rev=False, byval=True)
    if n.const is None or n.const > 4096: raise Unsupported("repeat_n of symbolic length")
    return list_iter(ctx, [v] * n.const)
@nat("core::iter::sources::once::once")
def ionce(ctx, v): return list_iter(ctx, [v])
@nat("core::iter::sources::empty::empty")
def iempty(ctx): return list_iter(ctx, [])


def list_iter(ctx, vs): return Obj("iter", ref=ctx.ref(Arr(vs)), pos=P(0), end=P(len(vs)), rev=False, byval=True)


@nat("core::iter::traits::exact_size::ExactSizeIterator::len")
def iter_len(ctx, r):
    x = ctx.d(r)
    if isinstance(x, Obj) and x.kind == "iter": return x.end - x.pos
    if isinstance(x, Adt) and x.path == "core::ops::range::Range": return x.fields[1] - x.fields[0]
    if isinstance(x, Adt) and x.path.split("::")[-1] in ("Rev", "Copied", "Cloned", "Enumerate", "Map"):
        y = ctx.d(x.fields[0])
        if isinstance(y, Obj) and y.kind == "iter": return y.end - y.pos
    raise Unsupported(f"length of the iterator {x!r}")


def iter_bytes(ctx, v):
    """the bytes a lazily built iterator yields, as one value; None if it has to be stepped through"""
    x = ctx.d(v) if isinstance(v, Ref) else v
    if isinstance(x, Bytes): return x
    if isinstance(x, Obj) and x.kind == "iter":
        b = ctx.d(x.ref)
        if isinstance(b, Bytes): return sub(b, x.pos, x.end)
        if isinstance(b, Arr) and all(isinstance(e, Poly) for e in b.els) and x.pos.const is not None and x.end.const is not None:
            return mk([("el", e) for e in b.els[x.pos.const:x.end.const]])
        return None
    if not isinstance(x, Adt) or not x.path: return None
    n = x.path.split("::")[-1]
    if not x.path.startswith("core::iter::adapters"): return None
    if n in ("Copied", "Cloned"): return iter_bytes(ctx, x.fields[0])
    if n == "Rev":
        b = iter_bytes(ctx, x.fields[0])
        return None if b is None else reverse(b)
    if n == "Chain":
        out = []
        for o in x.fields:
            if o.variant == 0: continue
            b = iter_bytes(ctx, o.fields[0])
            if b is None: return None
            out.append(b)
        return cat(*out)
    if n in ("Take", "Skip"):
        it, k = x.fields
        r = ctx.d(it)
        if n == "Take" and isinstance(r, Obj) and r.kind == "repeat" and isinstance(r.v, Poly): return bfill(r.v, k)
        b = iter_bytes(ctx, it)
        if b is None: return None
        c = le(k, b.length)
        if is_true(c): return sub(b, P(0), k) if n == "Take" else sub(b, k, b.length)
        if is_false(c): return b if n == "Take" else Bytes(())
        raise Fork([(c, lambda s: CallAgain(ctx)), (bnot(c), lambda s: CallAgain(ctx))])
    return None


@nat(IT + "collect")
def icollect(ctx, it):
    t = ctx.rty
    if t["k"] == "adt" and t["path"] in ("alloc::vec::Vec", "alloc::boxed::Box"):
        if ctx.ex.is_bytes_ty(t):
            b = iter_bytes(ctx, it)
            if b is not None: return b
        if t["path"] == "alloc::vec::Vec" and "skey" in ctx.callee: return CallBody(ctx.callee["skey"])
    if t["k"] == "adt" and t["path"] == "alloc::string::String" and "skey" in ctx.callee: return CallBody(ctx.callee["skey"])
    raise Unsupported(f"collect into {t['s']}")


@nat("[T]::chunks_exact", "[T]::chunks_exact_mut", "[T]::chunks", "[T]::chunks_mut")
def chunks(ctx, r, k):
    fr = final_ref(ctx, r)
    n = ctx.ex.length(ctx.load(fr))
    ctx.oblige(bnot(eqi(k, 0)), "no panic: chunk size is not zero")
    if k.const is None or n.const is None or n.const // k.const > 4096: raise Unsupported("chunks of a slice of symbolic length")
    n, k = n.const, k.const
    end = n - n % k if "exact" in ctx.name else n
    return list_iter(ctx, [Ref(fr.cell, fr.path + (("s", P(i), P(min(i + k, n))),)) for i in range(0, end, k)])


@nat("[T]::sort", "[T]::sort_unstable")
def ssort(ctx, r):
    fr = final_ref(ctx, r)
    v = ctx.load(fr)
    if isinstance(v, Arr) and len(v.els) <= 1: return UNIT
    if not (isinstance(v, Arr) and len(v.els) == 2): raise Unsupported("sort")
    a, b = v.els
    c = lt_val(ctx, b, a)
    def swapped(s):
        ctx.ex.store(s, fr, Arr((b, a))); return UNIT
    raise Fork([(c, swapped), (bnot(c), lambda s: UNIT)])


@nat("bool::then_some")
def then_some(ctx, c, v): raise Fork([(c, lambda s: Some(v)), (bnot(c), lambda s: NONE)])
@nat("bool::then")
def bool_then(ctx, c, f):
    raise Fork([(c, lambda s: CallInto(f, [], lambda ex, st, r: Some(r))), (bnot(c), lambda s: NONE)])
@nat("bool::select_unpredictable")
def select(ctx, c, a, b): raise Fork([(c, lambda s: a), (bnot(c), lambda s: b)])


@nat("core::intrinsics::discriminant_value", "core::mem::discriminant")
def discriminant_value(ctx, r):
    v = ctx.d(r)
    if not isinstance(v, Adt): raise Unsupported(f"discriminant of {v!r}")
    t = ctx.ex.adts.get(v.path)
    return P(ctx.ex.signed_discr(t, v.variant) if t else v.variant)


# ---------------------------------------------------------------- random generators
def draw(ctx, r, kind, n):
    fr = final_ref(ctx, r)
    g = ctx.load(fr)
    if isinstance(g, Adt) and g.path == "rand_core::os::OsRng": raise Unsupported("OsRng value")
    if not (isinstance(g, Obj) and g.kind == "rng"): raise Unsupported(f"random generator {g!r}")
    cnt = dict(g.counts)
    i = cnt.get(kind, P(0))
    cnt[kind] = i + 1
    ctx.store(fr, g.set(counts=tuple(sorted(cnt.items(), key=lambda t: repr(t[0])))))
    return g, i


def rng_havoc(ex, st, g):
    cnt = dict(g.counts)
    for k in list(cnt):
        ex.fresh = getattr(ex, "fresh", 0) + 1
        cnt[k] = cnt[k] + P(node("var", f"draws_{ex.fresh}", sort="int", usize=True))
    return g.set(counts=tuple(sorted(cnt.items(), key=lambda t: repr(t[0]))))


def draw_bytes(ctx, r, n):
    g, i = draw(ctx, r, ("bytes", P(n)), n)
    return batom(node("rngbytes", g.base, P(n), i, sort="bytes", len=P(n)))


@nat("rand_core::RngCore::fill_bytes")
def fill_bytes(ctx, r, buf):
    b = final_ref(ctx, buf)
    ctx.store(b, draw_bytes(ctx, r, ctx.load(b).length))
    return UNIT
@nat("rand_core::RngCore::try_fill_bytes")
def try_fill(ctx, r, buf):
    raise Unsupported("try_fill_bytes")
@nat("rand_core::RngCore::next_u64")
def next_u64(ctx, r):
    # as every generator of rand_core's does it (and the runner's): the bytes of the draw, little-endian
    return P(node("leint", draw_bytes(ctx, r, 8), 64, sort="int", bits=64))
@nat("rand_core::RngCore::next_u32")
def next_u32(ctx, r):
    return P(node("leint", draw_bytes(ctx, r, 4), 32, sort="int", bits=32))
@nat("rand_core::CryptoRngCore::as_rngcore")
def as_rngcore(ctx, r): return r


# ---------------------------------------------------------------- integers to bytes
def int_bytes(ctx, x, bits, big):
    x = ctx.d(x)
    if x.const is not None:
        return blit((x.const % (1 << bits)).to_bytes(bits // 8, "big" if big else "little"))
    a = x.atom if hasattr(x, "atom") else None
    if a is not None and a.op == ("beint" if big else "leint") and a.args[1] == bits and a.args[0].length == P(bits // 8): return a.args[0]
    return batom(node("be" if big else "le", x, bits // 8, sort="bytes", len=P(bits // 8)))


for _b in (16, 32, 64, 128):
    for _n, _big in (("be", True), ("le", False)):
        T[f"u{_b}::to_{_n}_bytes"] = (lambda b, g: lambda ctx, x: int_bytes(ctx, x, b, g))(_b, _big)
        T[f"core::num::u{_b}::to_{_n}_bytes"] = T[f"u{_b}::to_{_n}_bytes"]
def from_bytes(ctx, b, bits, big):
    x = asbytes(ctx, b)
    if x.lit is not None: return P(int.from_bytes(x.lit, "big" if big else "little"))
    w = x.whole
    if w is not None and w.op == ("be" if big else "le") and w.args[1] == bits // 8:
        lo, hi = ctx.ex.bounds(P(w.args[0]))
        if lo is not None and hi is not None and lo >= 0 and hi < 1 << bits: return P(w.args[0])
    return P(node("beint" if big else "leint", x, bits, sort="int", bits=bits))


for _b in (16, 32, 64, 128):
    for _n, _big in (("be", True), ("le", False)):
        T[f"u{_b}::from_{_n}_bytes"] = (lambda b, g: lambda ctx, x: from_bytes(ctx, x, b, g))(_b, _big)
        T[f"core::num::u{_b}::from_{_n}_bytes"] = T[f"u{_b}::from_{_n}_bytes"]
T["usize::to_be_bytes"] = T["u64::to_be_bytes"]
T["usize::to_le_bytes"] = T["u64::to_le_bytes"]


def checked(op):
    def f(ctx, a, b):
        t = ctx.argty(0) if ctx.callee["args"] else None
        w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}[ctx.name.split("::")[-2]]
        v = a + b if op == "add" else a - b if op == "sub" else a * b
        c = band(ge0(v), lt(v, 1 << w))
        raise Fork([(c, lambda s: Some(v)), (bnot(c), lambda s: NONE)])
    return f
def wrapping(op):
    def f(ctx, a, b):
        w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}[ctx.name.split("::")[-2]]
        v = a + b if op == "add" else a - b if op == "sub" else a * b
        return ctx.ex.wrap(v, {"bits": w, "signed": False})
    return f
def saturating(op):
    def f(ctx, a, b):
        w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}[ctx.name.split("::")[-2]]
        v = a + b if op == "add" else a - b if op == "sub" else a * b
        c, d = ge0(v), lt(v, 1 << w)
        raise Fork([(band(c, d), lambda s: v), (bnot(c), lambda s: P(0)), (bnot(d), lambda s: P((1 << w) - 1))])
    return f
for _t in ("u8", "u16", "u32", "u64", "usize", "u128"):
    for _op in ("add", "sub", "mul"):
        T[f"{_t}::checked_{_op}"] = checked(_op)
        T[f"{_t}::wrapping_{_op}"] = wrapping(_op)
        T[f"{_t}::saturating_{_op}"] = saturating(_op)


# ---------------------------------------------------------------- curve25519-dalek
SC = "curve25519_dalek::scalar::Scalar::"
RP = "curve25519_dalek::ristretto::RistrettoPoint::"
EP = "curve25519_dalek::edwards::EdwardsPoint::"


def sc_le(b): return Sc(os2ip(reverse(b)))


@nat(SC + "random")
def sc_random(ctx, r): return sc_le(draw_bytes(ctx, r, 64))
@nat(SC + "from_bytes_mod_order", SC + "from_bytes_mod_order_wide")
def sc_from(ctx, b): return sc_le(asbytes(ctx, b))
@nat(SC + "from_canonical_bytes")
def sc_canonical(ctx, b):
    x = asbytes(ctx, b)
    w = x.whole
    if w is not None and w.op == "scbytes": return Obj("ctoption", b=True, v=Sc(P(w.args[0])))
    v = os2ip(reverse(x))
    return Obj("ctoption", b=lt(v, L), v=Sc(v))
@nat("subtle::CtOption::new")
def cto_new(ctx, v, c):
    return Obj("ctoption", b=ctx.d(c).b, v=v)
@nat("subtle::CtOption::is_some", "subtle::CtOption::is_none")
def cto_some(ctx, o):
    b = ctx.d(o).b
    return Obj("choice", b=b if ctx.name.endswith("is_some") else bnot(b))
def cto_option(ctx, x):
    if x.b is True: return Some(x.v)
    raise Fork([(x.b, lambda s: Some(x.v)), (bnot(x.b), lambda s: NONE)])
@nat("subtle::CtOption::unwrap", "subtle::CtOption::expect")
def cto_unwrap(ctx, o, *a):
    x = ctx.d(o)
    if x.b is True: return x.v
    raise Fork([(x.b, lambda s: x.v), (bnot(x.b), lambda s: Panic("unwrap of an empty CtOption"))])
@nat(SC + "from_hash")
def sc_from_hash(ctx, h):
    o = ctx.d(h)
    return sc_le(mkhash(o.alg, o.data))
@nat(SC + "hash_from_bytes")
def sc_hash_from(ctx, b):
    return sc_le(mkhash(alg_of(ctx, ctx.argty(0)), asbytes(ctx, b)))
@nat(SC + "invert")
def sc_invert(ctx, s): return sc_inv(ctx.d(s))
@nat(SC + "to_bytes", SC + "as_bytes")
def sc_bytes(ctx, s):
    b = batom(node("scbytes", sc_val(ctx.d(s)), sort="bytes", len=P(32)))
    return b if ctx.name.endswith("to_bytes") else ctx.ref(b)
@nat(RP + "random")
def rp_random(ctx, r): return pt_uniform(draw_bytes(ctx, r, 64))
@nat(RP + "from_uniform_bytes")
def rp_uniform(ctx, b): return pt_uniform(asbytes(ctx, b))
@nat(RP + "from_hash")
def rp_from_hash(ctx, h):
    o = ctx.d(h)
    return pt_uniform(mkhash(o.alg, o.data))
@nat(RP + "hash_from_bytes")
def rp_hash_from(ctx, b): return pt_uniform(mkhash(alg_of(ctx, ctx.argty(0)), asbytes(ctx, b)))


def pt_uniform(b): return pt_atom("R", node("uniform", b, sort="R"))


@nat(RP + "mul_base", EP + "mul_base")
def mul_base(ctx, s):
    return pt_mul(ctx.d(s), pt_atom("R", node("G", sort="R")) if "ristretto" in ctx.name else pt_atom("E", node("B", sort="E", tf=True)))
@nat(RP + "compress")
def rp_compress(ctx, p): return Adt("curve25519_dalek::ristretto::CompressedRistretto", 0, (enc(ctx.d(p)),))
@nat(EP + "compress")
def ep_compress(ctx, p): return Adt("curve25519_dalek::edwards::CompressedEdwardsY", 0, (enc(ctx.d(p)),))


def enc(p): return batom(node("enc", p, sort="bytes", len=P(32)))


@nat("curve25519_dalek::ristretto::CompressedRistretto::to_bytes", "curve25519_dalek::edwards::CompressedEdwardsY::to_bytes")
def c_to_bytes(ctx, c): return ctx.d(c).fields[0]
@nat("curve25519_dalek::ristretto::CompressedRistretto::from_slice", "curve25519_dalek::edwards::CompressedEdwardsY::from_slice")
def c_from_slice(ctx, b):
    x = asbytes(ctx, b)
    c = eqi(x.length, 32)
    p = ctx.name.rsplit("::", 1)[0]
    raise Fork([(c, lambda s: Ok(Adt(p, 0, (x,)))), (bnot(c), lambda s: Err(Adt("core::array::TryFromSliceError", 0, (UNIT,))))])


@nat("curve25519_dalek::ristretto::CompressedRistretto::as_bytes", "curve25519_dalek::edwards::CompressedEdwardsY::as_bytes")
def c_as_bytes(ctx, c):
    fr = final_ref(ctx, c)
    return Ref(fr.cell, fr.path + (("f", 0),))


# SPAKE2's fixed points: valid encodings of points of prime order (checked concretely by the runner)
KNOWN_ED = {"15cfd18e385952982b6a8f8c7854963b58e34388c8e6dae891db756481a02312", "f04f2e7eb734b2a8f8b472eaf9c3c632576ac64aea650b496a8a20ff00e583c3",
            "6f00dae87c1be1a73b5922ef431cd8f57879569c222d22b1cd71e8546ab8e6f1"}


@nat("curve25519_dalek::edwards::CompressedEdwardsY::decompress")
def ep_decompress(ctx, c):
    b = asbytes(ctx, c)
    w = b.whole
    if w is not None and w.op == "enc": return Some(w.args[0])
    if b.lit is not None and b.lit.hex() in KNOWN_ED:
        return Some(pt_atom("E", node("eddec", b, sort="E", tf=True)))
    v = node("edvalid", b, sort="bool")
    raise Fork([(v, lambda s: Some(pt_atom("E", node("eddec", b, sort="E")))), (bnot(v), lambda s: NONE)])
@nat("curve25519_dalek::ristretto::CompressedRistretto::decompress")
def rp_decompress(ctx, c):
    b = asbytes(ctx, c)
    w = b.whole
    if w is not None and w.op == "enc": return Some(w.args[0])
    v = node("rvalid", b, sort="bool")
    raise Fork([(v, lambda s: Some(pt_atom("R", node("rdec", b, sort="R")))), (bnot(v), lambda s: NONE)])
@nat("curve25519_dalek::traits::IsIdentity::is_identity")
def is_identity(ctx, p):
    x = ctx.d(p)
    return pt_eq(x, pt_id(x.kind))
@nat("curve25519_dalek::traits::Identity::identity")
def identity(ctx):
    s = ctx.rty["s"]
    k = "R" if "ristretto" in s else "E"
    if "Compressed" in s: return Adt(ctx.rty["path"], 0, (blit(ID_ENC[k]),))
    return pt_id(k)
@nat(EP + "is_small_order", EP + "is_torsion_free")
def ep_pred(ctx, p): return node(ctx.name.split("::")[-1], ctx.d(p), sort="bool")
@nat(EP + "mul_by_cofactor")
def ep_cof(ctx, p):
    x = ctx.d(p)
    return Pt("E", {a: c * 8 for a, c in x.t})


# ---------------------------------------------------------------- hkdf
@nat("hkdf::Hkdf::new")
def hkdf_new(ctx, salt, ikm):
    s = ctx.d(salt)
    sb = asbytes(ctx, s.fields[0]) if isinstance(s, Adt) and s.variant == 1 else Bytes(())
    t = ctx.argty(0)
    return Obj("hkdf", alg=alg_of(ctx, t), salt=sb, ikm=asbytes(ctx, ikm))
@nat("hkdf::Hkdf::expand", "hkdf::Hkdf::expand_multi_info")
def hkdf_expand(ctx, h, info, okm):
    o = ctx.d(h)
    r = final_ref(ctx, okm)
    n = ctx.load(r).length
    dl = digest_len(o.alg)
    c = le(n, dl * 255)
    info = cat(*[asbytes(ctx, x) for x in ctx.d(info).els]) if ctx.name.endswith("multi_info") else asbytes(ctx, info)
    def good(s):
        ctx.ex.store(s, r, batom(node("hkdf", o.alg, o.salt, o.ikm, info, n, sort="bytes", len=n)))
        return Ok(UNIT)
    raise Fork([(c, good), (bnot(c), lambda s: Err(Adt("hkdf::errors::InvalidLength", 0, ())))])


# ---------------------------------------------------------------- password_hash
@nat("password_hash::salt::SaltString::generate")
def salt_generate(ctx, r):
    # encode_b64 of a fresh 16-byte draw; 16 bytes always fit
    return Obj("salt", s=b64(draw_bytes(ctx, r, 16)))


def b64(b):
    n = b.length.const
    return batom(node("b64", b, sort="bytes", **({"len": P((n * 4 + 2) // 3)} if n is not None else {})))


@nat("password_hash::salt::SaltString::encode_b64")
def salt_encode(ctx, b):
    x = asbytes(ctx, b)
    c = ge0(P(48) - x.length)
    if is_true(c): return Ok(Obj("salt", s=b64(x)))
    raise Fork([(c, lambda s: Ok(Obj("salt", s=b64(x)))), (bnot(c), lambda s: Err(node("salt_err", x, sort="Obj")))])
@nat("password_hash::salt::SaltString::from_b64", "password_hash::salt::Salt::from_b64")
def salt_from(ctx, b):
    x = asbytes(ctx, b)
    c = salt_valid(x)
    if c is True: return Ok(Obj("salt", s=x))
    raise Fork([(c, lambda s: Ok(Obj("salt", s=x))), (bnot(c), lambda s: Err(node("salt_err", x, sort="Obj")))])


def salt_valid(x):
    """a salt has 4 to 64 characters of B64; so has the B64 form of 3 to 48 bytes"""
    w = x.whole
    if w is not None and w.meta.get("salt"): return True
    if w is not None and w.op == "b64":
        n = w.args[0].length
        c = band(ge0(n - 3), ge0(P(48) - n))
        return True if is_true(c) else c
    return node("salt_valid", x, sort="bool")


@nat("password_hash::salt::SaltString::as_salt")
def as_salt(ctx, s):
    x = ctx.d(s)
    c = salt_valid(x.s)
    if c is True: return x
    # a string that is no salt makes as_salt panic
    raise Fork([(c, lambda s: x), (bnot(c), lambda s: Panic("SaltString::as_salt"))])
@nat("password_hash::salt::SaltString::as_str", "password_hash::salt::Salt::as_str")
def salt_str(ctx, s): return ctx.ref(ctx.d(s).s)


# the text of a parameter string; reading it gives the string back
def pstr_text(v): return batom(node("pstr_text", v, sort="bytes", text=True))
@nat("password_hash::params::ParamsString::as_str", "password_hash::params::ParamsString::as_bytes")
def params_str(ctx, p): return ctx.ref(pstr_text(ctx.d(p).v))
@nat("core::str::parse", "str::parse", "core::str::traits::FromStr::from_str")
def parse(ctx, b):
    t = ctx.ex.ty(ctx.dty)
    if t["args"] and ctx.ex.ty(t["args"][0])["s"] == "password_hash::params::ParamsString" or "ParamsString" in ctx.ex.ty(t["args"][0])["s"]:
        x = asbytes(ctx, b)
        w = x.whole
        if w is not None and w.op == "pstr_text": return Ok(Obj("pstr", v=w.args[0]))
        c = node("params_valid", x, sort="bool")
        raise Fork([(c, lambda s: Ok(Obj("pstr", v=node("params_of", x, sort="Obj")))), (bnot(c), lambda s: Err(node("params_parse_err", x, sort="Obj")))])
    raise Unsupported("parsing a " + t["s"])


def sym_password_hash(st, v):
    return Adt("password_hash::PasswordHash", 0, (node("ph_alg", v, sort="Obj"), NONE, Obj("pstr", v=node("ph_params", v, sort="Obj")), NONE, Obj("phopt", v=v)))


@nat("password_hash::traits::PasswordHasher::hash_password_customized")
def hash_password(ctx, h, pw, alg, ver, params, salt):
    hv, p = ctx.d(h), asbytes(ctx, pw)
    s = ctx.d(salt)
    if not (isinstance(s, Obj) and s.kind == "salt"):
        sb = asbytes(ctx, s)
    else: sb = s.s
    if not (alg.variant == 0 and ver.variant == 0): raise Unsupported("hash_password_customized with an explicit algorithm or version")
    key = (ob(hv), p, ob(ctx.d(params)), sb)
    status = node("pw_status", *key, sort="int")
    mkph = lambda o: Adt("password_hash::PasswordHash", 0, (UNIT, NONE, UNIT, Some(s), o))
    # a conforming hasher either fails with some error, yields no output, or yields 10 to 64 bytes
    def none(st): return Ok(mkph(NONE))
    def some(st):
        ln = node("pw_outlen", *key, sort="int", usize=True)
        out = node("pw_out", *key, sort="bytes", len=P(ln))
        return Ok(mkph(Some(Obj("phout", s=batom(out)))))
    raise Fork([(eqi(P(status), 0), lambda st: Err(node("pw_err", *key, sort="Obj"))), (eqi(P(status), 1), none),
                (band(bnot(eqi(P(status), 0)), bnot(eqi(P(status), 1))), some)])


def ob(v):
    if isinstance(v, N): return v
    if isinstance(v, Adt) and not v.fields: return node("unit_" + (v.path or "").split("::")[-1], sort="Obj")
    if isinstance(v, Obj) and v.kind == "pstr": return v.v
    raise Unsupported(f"opaque value {v!r}")


@nat("password_hash::output::Output::as_bytes")
def ph_bytes(ctx, o): return ctx.ref(ctx.d(o).s)
@nat("password_hash::output::Output::len")
def ph_len(ctx, o): return ctx.d(o).s.length


# ---------------------------------------------------------------- lazy_static
@nat("lazy_static::lazy::Lazy::get", "lazy_static::inline_lazy::Lazy::get", "lazy_static::core_lazy::Lazy::get")
def lazy_get(ctx, lazy, f):
    return CallInto(f, [], lambda ex, s, r: Ref(s.alloc(r)))


# ---------------------------------------------------------------- mem, misc
@nat("core::mem::drop", "core::ops::drop::Drop::drop", "zeroize::Zeroize::zeroize")
def drop_(ctx, *a): return UNIT
@nat("core::mem::swap")
def swap(ctx, a, b):
    x, y = ctx.load(a), ctx.load(b)
    ctx.store(a, y); ctx.store(b, x)
    return UNIT
@nat("core::mem::replace")
def mreplace(ctx, a, b):
    x = ctx.load(a)
    ctx.store(a, b)
    return x
@nat("core::mem::take")
def mtake(ctx, a):
    x = ctx.load(a)
    ctx.store(a, default_of(ctx, ctx.argty(0)))
    return x
@nat("alloc::boxed::Box::new")
def box_new(ctx, v): return Obj("box", ref=ctx.ref(v))
@nat("core::hint::black_box", "core::hint::must_use", "core::convert::identity")
def black_box(ctx, v): return v
@nat("alloc::boxed::box_assume_init_into_vec_unsafe")
def box_vec(ctx, v):
    x = ctx.d(v)
    if isinstance(x, Obj) and x.kind == "box": x = ctx.d(x.ref)
    if isinstance(x, Adt) and x.path == "core::mem::maybe_uninit::MaybeUninit": x = x.fields[1].fields[0]
    return x


@nat("alloc::boxed::Box::new_uninit")
def box_new_uninit(ctx):
    u = Adt("core::mem::manually_drop::ManuallyDrop", 0, (UNDEF,))
    return Obj("box", ref=ctx.ref(Adt("core::mem::maybe_uninit::MaybeUninit", 0, (UNIT, u))))


# ---------------------------------------------------------------- closures
@nat("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut")
def call_fn(ctx, f, args):
    return CallInto(f, list(args.fields))


FN_CALL = ("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut")


@nat("contracts::ghost::hint")
def hint(ctx, name, v): return UNIT


import fmtnat  # noqa: E402  (core::fmt)
