// Fixed part of every generated file: the mathematical vocabulary of the verification conditions and the
// lemmas the generated proofs call.  Nothing here is assumed: the file is checked with --no-cheating.
#![allow(unused_imports, unused_variables, non_snake_case, dead_code, unused_braces, unused_parens)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::power::*;

verus! {

pub type B = Seq<u8>;

/// order of the prime-order group of edwards25519
pub open spec fn Lq() -> int { LORDER }

pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }

/// n bytes of value v
pub open spec fn fillb(v: int, n: int) -> B { Seq::new(n as nat, |i: int| v as u8) }

/// the number a big-endian byte string encodes
pub open spec fn os2ip(b: B) -> int
    decreases b.len(),
{
    if b.len() == 0 { 0 } else { os2ip(b.drop_last()) * 256 + b.last() as int }
}

/// shortest big-endian encoding of a number, at least one byte
pub open spec fn i2osp(n: int) -> B
    decreases n,
{
    if n < 256 { seq![n as u8] } else { i2osp(n / 256).push((n % 256) as u8) }
}

/// number of binary digits (0 for 0)
pub open spec fn bits(n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { bits(n / 2) + 1 }
}

pub proof fn lemma_bits(n: int)
    requires n >= 0,
    ensures bits(n) >= 0, bits(n) == 0 <==> n == 0,
    decreases n,
{
    if n > 0 { lemma_bits(n / 2); }
}

pub open spec fn lexlt(a: B, b: B) -> bool
    decreases a.len(),
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else if a[0] != b[0] { a[0] < b[0] }
    else { lexlt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}

pub proof fn lemma_os2ip_nonneg(b: B)
    ensures os2ip(b) >= 0,
    decreases b.len(),
{
    if b.len() > 0 { lemma_os2ip_nonneg(b.drop_last()); }
}

pub proof fn lemma_i2osp(n: int)
    requires n >= 0,
    ensures i2osp(n).len() >= 1, os2ip(i2osp(n)) == n,
    decreases n,
{
    if n >= 256 {
        lemma_i2osp(n / 256);
        let s = i2osp(n / 256);
        let t = s.push((n % 256) as u8);
        assert(t.drop_last() =~= s);
        assert(t.last() == (n % 256) as u8);
    } else {
        let t = seq![n as u8];
        assert(t.drop_last() =~= Seq::<u8>::empty());
        assert(os2ip(t.drop_last()) == 0);
    }
}

pub proof fn lemma_os2ip_zero_prefix(z: B, b: B)
    requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0,
    ensures os2ip(z + b) == os2ip(b),
    decreases b.len(), z.len(),
{
    let s = z + b;
    if b.len() > 0 {
        assert(s.drop_last() =~= z + b.drop_last());
        assert(s.last() == b.last());
        lemma_os2ip_zero_prefix(z, b.drop_last());
    } else if z.len() > 0 {
        assert(s =~= z);
        assert(z.drop_last() + b =~= z.drop_last());
        assert(z.last() == 0);
        lemma_os2ip_zero_prefix(z.drop_last(), b);
        assert(os2ip(z) == os2ip(z.drop_last()) * 256);
    } else {
        assert(s =~= b);
    }
}

/// a longer encoding is a larger number
pub proof fn lemma_i2osp_len_mono(a: int, b: int)
    requires 0 <= a <= b,
    ensures i2osp(a).len() <= i2osp(b).len(),
    decreases b,
{
    if a >= 256 { lemma_i2osp_len_mono(a / 256, b / 256); }
    else if b >= 256 { lemma_i2osp(b / 256); }
}

pub proof fn lemma_lexlt(a: B, b: B)
    ensures
        !(lexlt(a, b) && lexlt(b, a)),
        lexlt(a, b) || lexlt(b, a) || a == b,
        !lexlt(a, a),
        a == b ==> !lexlt(a, b),
    decreases a.len() + b.len(),
{
    if a.len() == 0 || b.len() == 0 {
        if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    } else {
        let x = a.subrange(1, a.len() as int);
        let y = b.subrange(1, b.len() as int);
        lemma_lexlt(x, y);
        if a[0] == b[0] && x == y {
            assert(a =~= seq![a[0]] + x);
            assert(b =~= seq![b[0]] + y);
        }
    }
    if a.len() > 0 { lemma_lexlt_irrefl(a); }
}

pub proof fn lemma_lexlt_irrefl(a: B)
    ensures !lexlt(a, a),
    decreases a.len(),
{
    if a.len() > 0 { lemma_lexlt_irrefl(a.subrange(1, a.len() as int)); }
}

pub proof fn lemma_mod_range(x: int, n: int)
    ensures n > 0 ==> 0 <= x % n < n,
{
    if n > 0 { lemma_mod_bound(x, n); }
}

/// equal concatenations with a common cut have equal parts
pub proof fn lemma_dist_left(a: int, b: int, c: int)
    ensures (a + b) * c == a * c + b * c,
{
    assert((a + b) * c == a * c + b * c) by (nonlinear_arith);
}

pub proof fn lemma_dist_right(a: int, b: int, c: int)
    ensures a * (b + c) == a * b + a * c,
{
    assert(a * (b + c) == a * b + a * c) by (nonlinear_arith);
}

pub proof fn lemma_split(x: B, x1: B, x2: B, y: B, y1: B, y2: B)
    ensures (x == y && x =~= x1 + x2 && y =~= y1 + y2 && x1.len() == y1.len()) ==> (x1 == y1 && x2 == y2),
{
    if x == y && x =~= x1 + x2 && y =~= y1 + y2 && x1.len() == y1.len() {
        assert(x1 =~= x.subrange(0, x1.len() as int));
        assert(y1 =~= y.subrange(0, y1.len() as int));
        assert(x2 =~= x.subrange(x1.len() as int, x.len() as int));
        assert(y2 =~= y.subrange(y1.len() as int, y.len() as int));
    }
}

/// two lower-case hexadecimal digits per byte
pub open spec fn hexdigit(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (87 + n) as u8 } }
pub open spec fn hexmap(s: B) -> B
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { hexmap(s.drop_last()) + seq![hexdigit(s.last() as int / 16), hexdigit(s.last() as int % 16)] }
}
pub proof fn lemma_hexmap_len(s: B)
    ensures hexmap(s).len() == 2 * s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_hexmap_len(s.drop_last()); }
}
pub proof fn lemma_hexmap_inj(a: B, b: B)
    ensures hexmap(a) == hexmap(b) ==> a == b,
    decreases a.len(),
{
    lemma_hexmap_len(a);
    lemma_hexmap_len(b);
    if hexmap(a) == hexmap(b) {
        if a.len() == 0 {
            assert(a =~= b);
        } else {
            let (x, y) = (a.last() as int, b.last() as int);
            let (p, q) = (hexmap(a.drop_last()), hexmap(b.drop_last()));
            let (s, t) = (seq![hexdigit(x / 16), hexdigit(x % 16)], seq![hexdigit(y / 16), hexdigit(y % 16)]);
            lemma_hexmap_len(a.drop_last());
            lemma_hexmap_len(b.drop_last());
            assert(p + s == q + t);
            lemma_split(hexmap(a), p, s, hexmap(b), q, t);
            assert(s[0] == t[0] && s[1] == t[1]);
            assert(x / 16 == y / 16 && x % 16 == y % 16);
            assert(x == y);
            lemma_hexmap_inj(a.drop_last(), b.drop_last());
            assert(a =~= a.drop_last().push(a.last()));
            assert(b =~= b.drop_last().push(b.last()));
        }
    }
}

//DECLS
}

fn main() {}
