//! Contracts of spake2. The secret scalar of a session is the one 64-byte draw the session makes from its
//! generator; a clone of the generator, taken before, yields the same draw.
use crate::ghost::*;
use crate::spake2_spec as spec;
use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT, edwards::EdwardsPoint, scalar::Scalar};
use rand_core::{CryptoRng, RngCore};
use spake2::{Ed25519Group, Error, Group, Identity, Password, Spake2};

type S = Spake2<Ed25519Group>;

/// Which of the three kinds of session.
#[derive(Clone, Copy)]
pub enum Mode {
    A,
    B,
    Sym,
}

fn start<R: RngCore + CryptoRng>(mode: Mode, pw: &[u8], id1: &[u8], id2: &[u8], rng: R) -> (S, Vec<u8>) {
    let p = Password::new(pw);
    match mode {
        Mode::A => S::start_a_with_rng(&p, &Identity::new(id1), &Identity::new(id2), rng),
        Mode::B => S::start_b_with_rng(&p, &Identity::new(id1), &Identity::new(id2), rng),
        Mode::Sym => S::start_symmetric_with_rng(&p, &Identity::new(id1), rng),
    }
}

/// C08: the password scalar.
pub fn spake_pw_scalar(pw: &[u8]) {
    ensures("C08|password scalar", <Ed25519Group as Group>::hash_to_scalar(pw) == spec::pw_scalar(pw));
    cover("pw scalar");
}

/// C07: the group's operations and constants.
pub fn spake_group(e: &EdwardsPoint, f: &EdwardsPoint, s: &Scalar, b: &[u8; 32], other: &[u8]) {
    ensures("C07|M", Ed25519Group::const_m() == spec::constant(&spec::M));
    ensures("C07|N", Ed25519Group::const_n() == spec::constant(&spec::N));
    ensures("C07|S", Ed25519Group::const_s() == spec::constant(&spec::S));
    ensures("C07|negation", Ed25519Group::scalar_neg(s) == -s);
    ensures("C07|base point multiplication", Ed25519Group::basepoint_mult(s) == ED25519_BASEPOINT_POINT * s);
    ensures("C07|scalar multiplication", Ed25519Group::scalarmult(e, s) == e * s);
    ensures("C07|addition", Ed25519Group::add(e, f) == e + f);
    ensures("C07|element length", Ed25519Group::element_length() == 32);
    ensures("C07|encoding", Ed25519Group::element_to_bytes(e) == spec::encode(e));
    ensures("C07,C09|decoding", Ed25519Group::bytes_to_element(b) == spec::decode(b));
    ensures("C09|decoding refuses other lengths", other.len() == 32 || Ed25519Group::bytes_to_element(other).is_none());
    cover("group");
}

fn side_byte(mode: Mode) -> u8 {
    match mode {
        Mode::A => b'A',
        Mode::B => b'B',
        Mode::Sym => b'S',
    }
}
fn peer_byte(mode: Mode) -> u8 {
    match mode {
        Mode::A => b'B',
        Mode::B => b'A',
        Mode::Sym => b'S',
    }
}
fn own_blind(mode: Mode) -> &'static [u8; 32] {
    match mode {
        Mode::A => &spec::M,
        Mode::B => &spec::N,
        Mode::Sym => &spec::S,
    }
}
fn peer_blind(mode: Mode) -> &'static [u8; 32] {
    match mode {
        Mode::A => &spec::N,
        Mode::B => &spec::M,
        Mode::Sym => &spec::S,
    }
}

/// C07, C08, C09, C21: one session of any kind, finished with any byte string.
fn session<R: RngCore + CryptoRng + Clone>(mode: Mode, pw: &[u8], id1: &[u8], id2: &[u8], rng: R, msg2: &[u8]) {
    let mut draws = rng.clone();
    let (s, msg1) = start(mode, pw, id1, id2, rng);
    let x = Scalar::random(&mut draws);
    let own = spec::blinded(&x, pw, own_blind(mode));
    ensures("C07,C08,C21|outbound message: length", msg1.len() == 33);
    ensures("C07,C21|outbound message: side byte", msg1[0] == side_byte(mode));
    ensures("C07,C08,C21|outbound message: x B + pw * blind for the fresh draw x", msg1[1..] == own);
    let r = s.finish(msg2);
    if msg2.len() != 33 {
        cover("wrong length");
        ensures("C09|WrongLength", r == Err(Error::WrongLength));
    } else if msg2[0] != peer_byte(mode) {
        cover("bad side");
        ensures("C09|BadSide", r == Err(Error::BadSide));
    } else {
        let mut enc = [0u8; 32];
        enc.copy_from_slice(&msg2[1..]);
        match spec::decode(&enc) {
            None => {
                cover("corrupt");
                ensures("C09|CorruptMessage", r == Err(Error::CorruptMessage));
            }
            Some(y) => {
                cover("completes");
                ensures("C09|a valid message yields a key", r.is_ok());
                let k = spec::shared(&x, pw, &y, peer_blind(mode));
                let expect = match mode {
                    Mode::A => spec::key_ab(pw, id1, id2, &own, &enc, &k),
                    Mode::B => spec::key_ab(pw, id1, id2, &enc, &own, &k),
                    Mode::Sym => spec::key_sym(pw, id1, &own, &enc, &k),
                };
                ensures("C07,C08,C21|key = SHA-256 of the transcript", r == Ok(expect));
            }
        }
    }
}
pub fn spake_session_a<R: RngCore + CryptoRng + Clone>(pw: &[u8], id_a: &[u8], id_b: &[u8], rng: R, msg2: &[u8]) {
    session(Mode::A, pw, id_a, id_b, rng, msg2)
}
pub fn spake_session_b<R: RngCore + CryptoRng + Clone>(pw: &[u8], id_a: &[u8], id_b: &[u8], rng: R, msg2: &[u8]) {
    session(Mode::B, pw, id_a, id_b, rng, msg2)
}
pub fn spake_session_sym<R: RngCore + CryptoRng + Clone>(pw: &[u8], id_s: &[u8], rng: R, msg2: &[u8]) {
    session(Mode::Sym, pw, id_s, b"", rng, msg2)
}

/// C07, C21: the entry points that use the system generator behave like the others (their messages decode and
/// finish with the peer's message).
pub fn spake_system_rng(pw: &[u8], id_a: &[u8], id_b: &[u8]) {
    let p = Password::new(pw);
    let (ia, ib) = (Identity::new(id_a), Identity::new(id_b));
    let (a, ma) = S::start_a(&p, &ia, &ib);
    let (b, mb) = S::start_b(&p, &ia, &ib);
    ensures("C06,C07|A message side", ma.len() == 33 && ma[0] == b'A');
    ensures("C06,C07|B message side", mb.len() == 33 && mb[0] == b'B');
    let (ka, kb) = (a.finish(&mb), b.finish(&ma));
    ensures("C06|A completes", ka.is_ok());
    ensures("C06|A and B agree", ka == kb);
    let (s, ms) = S::start_symmetric(&p, &ia);
    let (t, mt) = S::start_symmetric(&p, &ia);
    ensures("C06,C07|symmetric message side", ms.len() == 33 && ms[0] == b'S');
    let (ks, kt) = (s.finish(&mt), t.finish(&ms));
    ensures("C06|symmetric side completes", ks.is_ok());
    ensures("C06|symmetric sides agree", ks == kt);
    cover("system generator");
}

/// C06: A and B.
pub fn spake_agree_ab<R: RngCore + CryptoRng>(pw: &[u8], id_a: &[u8], id_b: &[u8], ra: R, rb: R) {
    let (a, ma) = start(Mode::A, pw, id_a, id_b, ra);
    let (b, mb) = start(Mode::B, pw, id_a, id_b, rb);
    match (a.finish(&mb), b.finish(&ma)) {
        (Ok(x), Ok(y)) => {
            cover("A and B complete");
            ensures("C06|A and B derive the same key", x == y);
            ensures("C06|the key has 32 bytes", x.len() == 32);
        }
        _ => dead("C06|both sides succeed"),
    }
}
/// C06: two symmetric sides.
pub fn spake_agree_sym<R: RngCore + CryptoRng>(pw: &[u8], id_s: &[u8], ra: R, rb: R) {
    let (a, ma) = start(Mode::Sym, pw, id_s, b"", ra);
    let (b, mb) = start(Mode::Sym, pw, id_s, b"", rb);
    match (a.finish(&mb), b.finish(&ma)) {
        (Ok(x), Ok(y)) => {
            cover("symmetric sides complete");
            ensures("C06|symmetric sides derive the same key", x == y);
            ensures("C06|the key has 32 bytes", x.len() == 32);
        }
        _ => dead("C06|both sides succeed"),
    }
}

/// C10: two completed sessions with equal keys, collisions aside, agree on everything.
fn binds<R: RngCore + CryptoRng>(
    m1: Mode, pw1: &[u8], a1: &[u8], b1: &[u8], r1: R, in1: &[u8],
    m2: Mode, pw2: &[u8], a2: &[u8], b2: &[u8], r2: R, in2: &[u8],
) {
    no_collisions();
    let (s1, out1) = start(m1, pw1, a1, b1, r1);
    let (s2, out2) = start(m2, pw2, a2, b2, r2);
    if let (Ok(k1), Ok(k2)) = (s1.finish(in1), s2.finish(in2)) {
        cover("both complete");
        if k1 == k2 {
            match (m1, m2) {
                (Mode::Sym, Mode::Sym) => {
                    ensures("C10|same password", pw1 == pw2);
                    ensures("C10|same identity", a1 == a2);
                    ensures("C10|same messages", (out1 == out2 && in1 == in2) || (out1 == in2 && in1 == out2));
                }
                (Mode::Sym, _) | (_, Mode::Sym) => dead("C10|same mode"),
                (Mode::A, Mode::A) | (Mode::B, Mode::B) => {
                    ensures("C10|same password", pw1 == pw2);
                    ensures("C10|same identity A", a1 == a2);
                    ensures("C10|same identity B", b1 == b2);
                    ensures("C10|same messages", out1 == out2 && in1 == in2);
                }
                _ => {
                    ensures("C10|same password", pw1 == pw2);
                    ensures("C10|same identity A", a1 == a2);
                    ensures("C10|same identity B", b1 == b2);
                    ensures("C10|same messages", out1 == in2 && in1 == out2);
                }
            }
        }
    }
}
pub fn spake_binds_aa<R: RngCore + CryptoRng>(pw1: &[u8], a1: &[u8], b1: &[u8], r1: R, in1: &[u8], pw2: &[u8], a2: &[u8], b2: &[u8], r2: R, in2: &[u8]) {
    binds(Mode::A, pw1, a1, b1, r1, in1, Mode::A, pw2, a2, b2, r2, in2)
}
pub fn spake_binds_bb<R: RngCore + CryptoRng>(pw1: &[u8], a1: &[u8], b1: &[u8], r1: R, in1: &[u8], pw2: &[u8], a2: &[u8], b2: &[u8], r2: R, in2: &[u8]) {
    binds(Mode::B, pw1, a1, b1, r1, in1, Mode::B, pw2, a2, b2, r2, in2)
}
pub fn spake_binds_ab<R: RngCore + CryptoRng>(pw1: &[u8], a1: &[u8], b1: &[u8], r1: R, in1: &[u8], pw2: &[u8], a2: &[u8], b2: &[u8], r2: R, in2: &[u8]) {
    binds(Mode::A, pw1, a1, b1, r1, in1, Mode::B, pw2, a2, b2, r2, in2)
}
pub fn spake_binds_ss<R: RngCore + CryptoRng>(pw1: &[u8], a1: &[u8], r1: R, in1: &[u8], pw2: &[u8], a2: &[u8], r2: R, in2: &[u8]) {
    binds(Mode::Sym, pw1, a1, b"", r1, in1, Mode::Sym, pw2, a2, b"", r2, in2)
}
pub fn spake_binds_as<R: RngCore + CryptoRng>(pw1: &[u8], a1: &[u8], b1: &[u8], r1: R, in1: &[u8], pw2: &[u8], a2: &[u8], r2: R, in2: &[u8]) {
    binds(Mode::A, pw1, a1, b1, r1, in1, Mode::Sym, pw2, a2, b"", r2, in2)
}
pub fn spake_binds_bs<R: RngCore + CryptoRng>(pw1: &[u8], a1: &[u8], b1: &[u8], r1: R, in1: &[u8], pw2: &[u8], a2: &[u8], r2: R, in2: &[u8]) {
    binds(Mode::B, pw1, a1, b1, r1, in1, Mode::Sym, pw2, a2, b"", r2, in2)
}

// ---- C11
/// the lower-case hexadecimal digits of `b`
fn hexadecimal(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for x in b {
        out.push(b"0123456789abcdef"[(*x / 16) as usize]);
        out.push(b"0123456789abcdef"[(*x % 16) as usize]);
    }
    out
}
fn hexadecimal_upper(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for x in b {
        out.push(b"0123456789ABCDEF"[(*x / 16) as usize]);
        out.push(b"0123456789ABCDEF"[(*x % 16) as usize]);
    }
    out
}
/// C11: two sessions that differ in password and secret scalar (so in message) only.
fn debug_hides<R: RngCore + CryptoRng>(mode: Mode, pw1: &[u8], pw2: &[u8], a: &[u8], b: &[u8], r1: R, r2: R, alternate: bool, width: u16) {
    let (s, _) = start(mode, pw1, a, b, r1);
    let (t, _) = start(mode, pw2, a, b, r2);
    let w = width as usize;
    ensures("C11|the text does not depend on password or secret scalar", debug(&s, alternate, w) == debug(&t, alternate, w));
    cover("debug text");
}
/// C11: what is shown of an identity, the `second` or the first.
fn debug_shows<R: RngCore + CryptoRng>(mode: Mode, pw: &[u8], id: &[u8], other: &[u8], id2: &[u8], second: bool, r1: R, r2: R) {
    let (s, _) = if second { start(mode, pw, other, id, r1) } else { start(mode, pw, id, other, r1) };
    let text = debug(&s, false, 0);
    if is_utf8(id) {
        cover("UTF-8 identity");
        ensures("C11|a UTF-8 identity is shown as it is", contains(&text, id));
    } else {
        cover("identity not UTF-8");
        ensures("C11|an identity that is not UTF-8 is shown in hexadecimal", contains(&text, &hexadecimal(id)) || contains(&text, &hexadecimal_upper(id)));
        if !is_utf8(id2) && id != id2 {
            cover("two identities not UTF-8");
            let (t, _) = if second { start(mode, pw, other, id2, r2) } else { start(mode, pw, id2, other, r2) };
            ensures("C11|different identities that are not UTF-8 print differently", text != debug(&t, false, 0));
        }
    }
}
pub fn spake_debug_hides_a<R: RngCore + CryptoRng>(pw1: &[u8], pw2: &[u8], a: &[u8], b: &[u8], r1: R, r2: R, alternate: bool, width: u16) {
    debug_hides(Mode::A, pw1, pw2, a, b, r1, r2, alternate, width)
}
pub fn spake_debug_hides_b<R: RngCore + CryptoRng>(pw1: &[u8], pw2: &[u8], a: &[u8], b: &[u8], r1: R, r2: R, alternate: bool, width: u16) {
    debug_hides(Mode::B, pw1, pw2, a, b, r1, r2, alternate, width)
}
pub fn spake_debug_hides_sym<R: RngCore + CryptoRng>(pw1: &[u8], pw2: &[u8], a: &[u8], r1: R, r2: R, alternate: bool, width: u16) {
    debug_hides(Mode::Sym, pw1, pw2, a, b"", r1, r2, alternate, width)
}
pub fn spake_debug_shows_a<R: RngCore + CryptoRng>(pw: &[u8], id: &[u8], other: &[u8], id2: &[u8], second: bool, r1: R, r2: R) {
    debug_shows(Mode::A, pw, id, other, id2, second, r1, r2)
}
pub fn spake_debug_shows_b<R: RngCore + CryptoRng>(pw: &[u8], id: &[u8], other: &[u8], id2: &[u8], second: bool, r1: R, r2: R) {
    debug_shows(Mode::B, pw, id, other, id2, second, r1, r2)
}
pub fn spake_debug_shows_sym<R: RngCore + CryptoRng>(pw: &[u8], id: &[u8], id2: &[u8], r1: R, r2: R) {
    debug_shows(Mode::Sym, pw, id, b"", id2, false, r1, r2)
}
