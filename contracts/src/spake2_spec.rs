//! SPAKE2 over Ed25519 as python-spake2 defines it.
use curve25519_dalek::{
    constants::ED25519_BASEPOINT_POINT,
    edwards::{CompressedEdwardsY, EdwardsPoint},
    scalar::Scalar,
};
use hkdf::Hkdf;
use sha2::{Digest, Sha256};

pub const M: [u8; 32] = [
    0x15, 0xcf, 0xd1, 0x8e, 0x38, 0x59, 0x52, 0x98, 0x2b, 0x6a, 0x8f, 0x8c, 0x78, 0x54, 0x96, 0x3b, 0x58, 0xe3, 0x43, 0x88, 0xc8, 0xe6,
    0xda, 0xe8, 0x91, 0xdb, 0x75, 0x64, 0x81, 0xa0, 0x23, 0x12,
];
pub const N: [u8; 32] = [
    0xf0, 0x4f, 0x2e, 0x7e, 0xb7, 0x34, 0xb2, 0xa8, 0xf8, 0xb4, 0x72, 0xea, 0xf9, 0xc3, 0xc6, 0x32, 0x57, 0x6a, 0xc6, 0x4a, 0xea, 0x65,
    0x0b, 0x49, 0x6a, 0x8a, 0x20, 0xff, 0x00, 0xe5, 0x83, 0xc3,
];
pub const S: [u8; 32] = [
    0x6f, 0x00, 0xda, 0xe8, 0x7c, 0x1b, 0xe1, 0xa7, 0x3b, 0x59, 0x22, 0xef, 0x43, 0x1c, 0xd8, 0xf5, 0x78, 0x79, 0x56, 0x9c, 0x22, 0x2d,
    0x22, 0xb1, 0xcd, 0x71, 0xe8, 0x54, 0x6a, 0xb8, 0xe6, 0xf1,
];

pub fn decode(b: &[u8; 32]) -> Option<EdwardsPoint> {
    CompressedEdwardsY(*b).decompress()
}
pub fn encode(p: &EdwardsPoint) -> [u8; 32] {
    p.compress().to_bytes()
}
pub fn constant(b: &[u8; 32]) -> EdwardsPoint {
    decode(b).unwrap()
}
/// HKDF-SHA256 with empty salt and info "SPAKE2 pw", 48 bytes, big-endian, modulo the group order.
pub fn pw_scalar(pw: &[u8]) -> Scalar {
    let mut okm = [0u8; 48];
    Hkdf::<Sha256>::new(None, pw).expand(b"SPAKE2 pw", &mut okm).unwrap();
    okm.reverse();
    let mut wide = [0u8; 64];
    wide[..48].copy_from_slice(&okm);
    Scalar::from_bytes_mod_order_wide(&wide)
}
/// X* = x B + pw * blind
pub fn blinded(x: &Scalar, pw: &[u8], blind: &[u8; 32]) -> [u8; 32] {
    encode(&(ED25519_BASEPOINT_POINT * x + constant(blind) * pw_scalar(pw)))
}
/// K = x (Y* - pw * unblind)
pub fn shared(x: &Scalar, pw: &[u8], peer: &EdwardsPoint, unblind: &[u8; 32]) -> [u8; 32] {
    encode(&((peer - constant(unblind) * pw_scalar(pw)) * x))
}
fn h(b: &[u8]) -> Vec<u8> {
    Sha256::digest(b).to_vec()
}
pub fn key_ab(pw: &[u8], id_a: &[u8], id_b: &[u8], msg_a: &[u8], msg_b: &[u8], k: &[u8]) -> Vec<u8> {
    let mut t = h(pw);
    t.extend_from_slice(&h(id_a));
    t.extend_from_slice(&h(id_b));
    t.extend_from_slice(msg_a);
    t.extend_from_slice(msg_b);
    t.extend_from_slice(k);
    h(&t)
}
pub fn key_sym(pw: &[u8], id_s: &[u8], m1: &[u8], m2: &[u8], k: &[u8]) -> Vec<u8> {
    let (lo, hi) = if m1 < m2 { (m1, m2) } else { (m2, m1) };
    let mut t = h(pw);
    t.extend_from_slice(&h(id_s));
    t.extend_from_slice(lo);
    t.extend_from_slice(hi);
    t.extend_from_slice(k);
    h(&t)
}
