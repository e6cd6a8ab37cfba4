//! SRP-6a as documented, over mathematical integers.
use digest::{Digest, Output};
use num_bigint::BigUint;
use srp::types::SrpGroup;

pub fn int(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}
pub fn bytes(n: &BigUint) -> Vec<u8> {
    n.to_bytes_be()
}
pub fn is_zero_mod(x: &BigUint, n: &BigUint) -> bool {
    x % n == BigUint::default()
}
/// u = H(A | B)
pub fn u<D: Digest>(a_pub: &[u8], b_pub: &[u8]) -> BigUint {
    int(&D::new().chain_update(a_pub).chain_update(b_pub).finalize())
}
/// k = H(N | PAD(g))
pub fn k<D: Digest>(grp: &SrpGroup) -> BigUint {
    let n = bytes(&grp.n);
    let g = bytes(&grp.g);
    let pad = vec![0u8; n.len() - g.len()];
    int(&D::new().chain_update(&n).chain_update(&pad).chain_update(&g).finalize())
}
/// M1 = H(A | B | K)
pub fn m1<D: Digest>(a_pub: &[u8], b_pub: &[u8], key: &[u8]) -> Output<D> {
    D::new().chain_update(a_pub).chain_update(b_pub).chain_update(key).finalize()
}
/// M2 = H(A | M1 | K)
pub fn m2<D: Digest>(a_pub: &[u8], m1: &Output<D>, key: &[u8]) -> Output<D> {
    D::new().chain_update(a_pub).chain_update(m1).chain_update(key).finalize()
}
/// H(I | ":" | P)
pub fn identity_hash<D: Digest>(user: &[u8], pass: &[u8]) -> Output<D> {
    D::new().chain_update(user).chain_update(b":").chain_update(pass).finalize()
}
/// x = H(s | H(I | ":" | P))
pub fn x<D: Digest>(identity_hash: &[u8], salt: &[u8]) -> BigUint {
    int(&D::new().chain_update(salt).chain_update(identity_hash).finalize())
}
pub fn x_of<D: Digest>(user: &[u8], pass: &[u8], salt: &[u8]) -> BigUint {
    x::<D>(&identity_hash::<D>(user, pass), salt)
}
/// g^e mod N
pub fn gexp(grp: &SrpGroup, e: &BigUint) -> BigUint {
    grp.g.modpow(e, &grp.n)
}
/// B = (k v + g^b) mod N
pub fn b_pub<D: Digest>(grp: &SrpGroup, b: &BigUint, v: &BigUint) -> BigUint {
    (k::<D>(grp) * v + gexp(grp, b)) % &grp.n
}
/// S = (B - k g^x)^(a + u x) mod N
pub fn client_s<D: Digest>(grp: &SrpGroup, a: &BigUint, b_pub: &BigUint, x: &BigUint, u: &BigUint) -> BigUint {
    let kg = (k::<D>(grp) * gexp(grp, x)) % &grp.n;
    let base = (b_pub + &grp.n - kg) % &grp.n;
    base.modpow(&(a + u * x), &grp.n)
}
/// S = (A v^u)^b mod N
pub fn server_s(grp: &SrpGroup, b: &BigUint, a_pub: &BigUint, v: &BigUint, u: &BigUint) -> BigUint {
    (a_pub * v.modpow(u, &grp.n)).modpow(b, &grp.n)
}
