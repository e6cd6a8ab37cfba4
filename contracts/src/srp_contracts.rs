//! Contracts of srp: groups, formulas, refusals, proofs, agreement.
use crate::ghost::*;
use crate::srp_spec as spec;
use digest::Digest;
use num_bigint::BigUint;
use srp::{client::SrpClient, groups, server::SrpServer, types::*};

/// The documented precondition on a group, as far as the code needs it: a positive modulus not shorter
/// than the generator.
fn valid_group(grp: &SrpGroup) {
    requires(grp.n > BigUint::default());
    requires(grp.g.to_bytes_be().len() <= grp.n.to_bytes_be().len());
}

fn is_illegal(e: &SrpAuthError, name: &str) -> bool {
    match e {
        SrpAuthError::IllegalParameter(p) => p.as_str() == name,
        SrpAuthError::BadRecordMac(_) => false,
    }
}
fn is_bad_mac(r: &Result<(), SrpAuthError>, name: &str) -> bool {
    match r {
        Err(SrpAuthError::BadRecordMac(p)) => p.as_str() == name,
        _ => false,
    }
}

/// C02, registration and public values.
pub fn srp_public_values<D: Digest>(grp: &SrpGroup, user: &[u8], pass: &[u8], salt: &[u8], a: &[u8], b: &[u8], v: &[u8]) {
    valid_group(grp);
    let client = SrpClient::<D>::new(grp);
    let server = SrpServer::<D>::new(grp);
    let x = spec::x_of::<D>(user, pass, salt);
    ensures("C02|verifier = g^x", client.compute_verifier(user, pass, salt) == spec::bytes(&spec::gexp(grp, &x)));
    ensures("C02|A = g^a", client.compute_public_ephemeral(a) == spec::bytes(&spec::gexp(grp, &spec::int(a))));
    ensures(
        "C02|B = k v + g^b",
        server.compute_public_ephemeral(b, v) == spec::bytes(&spec::b_pub::<D>(grp, &spec::int(b), &spec::int(v))),
    );
    cover("public values");
}

/// C02, the public building blocks of the client and of the server.
pub fn srp_building_blocks<D: Digest>(grp: &SrpGroup, user: &[u8], pass: &[u8], salt: &[u8], idh: &[u8], i1: &BigUint, i2: &BigUint, i3: &BigUint, i4: &BigUint) {
    valid_group(grp);
    let client = SrpClient::<D>::new(grp);
    let server = SrpServer::<D>::new(grp);
    ensures("C02|H(I:P)", SrpClient::<D>::compute_identity_hash(user, pass) == spec::identity_hash::<D>(user, pass));
    ensures("C02|x = H(s|H(I:P))", SrpClient::<D>::compute_x(idh, salt) == spec::x::<D>(idh, salt));
    ensures("C02|v = g^x", client.compute_v(i1) == spec::gexp(grp, i1));
    ensures("C02|A = g^a (integer)", client.compute_a_pub(i1) == spec::gexp(grp, i1));
    ensures("C02|B = k v + g^b (integer)", server.compute_b_pub(i1, &spec::k::<D>(grp), i2) == spec::b_pub::<D>(grp, i1, i2));
    ensures("C02|S of the server", server.compute_premaster_secret(i1, i2, i3, i4) == spec::server_s(grp, i4, i1, i2, i3));
    ensures(
        "C02|S of the client",
        client.compute_premaster_secret(i1, &spec::k::<D>(grp), i2, i3, i4) == spec::client_s::<D>(grp, i3, i1, i2, i4),
    );
    cover("building blocks");
}

/// C02, C03, C04: the client's login step against any byte string claimed to be B and any claimed proof.
pub fn srp_client_login<D: Digest>(grp: &SrpGroup, user: &[u8], pass: &[u8], salt: &[u8], a: &[u8], b_pub: &[u8], reply: &[u8]) {
    valid_group(grp);
    let client = SrpClient::<D>::new(grp);
    let bi = spec::int(b_pub);
    match client.process_reply(a, user, pass, salt, b_pub) {
        Err(e) => {
            cover("client refuses");
            ensures("C03|client refuses only B = 0 mod N", spec::is_zero_mod(&bi, &grp.n));
            ensures("C03|client names b_pub", is_illegal(&e, "b_pub"));
        }
        Ok(c) => {
            cover("client accepts");
            ensures("C03|client refuses every B = 0 mod N", !spec::is_zero_mod(&bi, &grp.n));
            let (a_s, b_s) = (spec::bytes(&spec::gexp(grp, &spec::int(a))), spec::bytes(&bi));
            let u = spec::u::<D>(&a_s, &b_s);
            let x = spec::x_of::<D>(user, pass, salt);
            let key = spec::bytes(&spec::client_s::<D>(grp, &spec::int(a), &bi, &x, &u));
            let m1 = spec::m1::<D>(&a_s, &b_s, &key);
            let m2 = spec::m2::<D>(&a_s, &m1, &key);
            ensures("C02|client key", c.key() == key.as_slice());
            ensures("C02|client proof", c.proof() == m1.as_slice());
            hint("reply", &m2);
            ct_begin("C23|the verification step shows only whether the server's proof is right", &m2, reply, &[&m1, &key]);
            let r = c.verify_server(reply);
            ct_end();
            if reply == m2.as_slice() {
                cover("server proof accepted");
                ensures("C04|client accepts the expected proof", r.is_ok());
            } else {
                cover("server proof refused");
                ensures("C04|client answers every other proof with bad-MAC naming the server", is_bad_mac(&r, "server"));
            }
        }
    }
}

/// C02, C03, C04: the server's login step against any byte string claimed to be A and any claimed proof.
pub fn srp_server_login<D: Digest>(grp: &SrpGroup, b: &[u8], v: &[u8], a_pub: &[u8], reply: &[u8]) {
    valid_group(grp);
    let server = SrpServer::<D>::new(grp);
    let ai = spec::int(a_pub);
    match server.process_reply(b, v, a_pub) {
        Err(e) => {
            cover("server refuses");
            ensures("C03|server refuses only A = 0 mod N", spec::is_zero_mod(&ai, &grp.n));
            ensures("C03|server names a_pub", is_illegal(&e, "a_pub"));
        }
        Ok(s) => {
            cover("server accepts");
            ensures("C03|server refuses every A = 0 mod N", !spec::is_zero_mod(&ai, &grp.n));
            let (bi, vi) = (spec::int(b), spec::int(v));
            let (a_s, b_s) = (spec::bytes(&ai), spec::bytes(&spec::b_pub::<D>(grp, &bi, &vi)));
            let u = spec::u::<D>(&a_s, &b_s);
            let key = spec::bytes(&spec::server_s(grp, &bi, &ai, &vi, &u));
            let m1 = spec::m1::<D>(&a_s, &b_s, &key);
            let m2 = spec::m2::<D>(&a_s, &m1, &key);
            ensures("C02|server key", s.key() == key.as_slice());
            ensures("C02|server proof", s.proof() == m2.as_slice());
            hint("reply", &m1);
            ct_begin("C23|the verification step shows only whether the client's proof is right", &m1, reply, &[&m2, &key]);
            let r = s.verify_client(reply);
            ct_end();
            if reply == m1.as_slice() {
                cover("client proof accepted");
                ensures("C04|server accepts the expected proof", r.is_ok());
            } else {
                cover("client proof refused");
                ensures("C04|server answers every other proof with bad-MAC naming the client", is_bad_mac(&r, "client"));
            }
        }
    }
}

/// C04: a client proof that any server accepts was computed from the same A|B|K, collisions aside.
pub fn srp_proof_binds<D: Digest>(
    grp: &SrpGroup, user: &[u8], pass: &[u8], salt: &[u8], a: &[u8], b_recv: &[u8],
    b: &[u8], v: &[u8], a_recv: &[u8],
) {
    valid_group(grp);
    no_collisions();
    let client = SrpClient::<D>::new(grp);
    let server = SrpServer::<D>::new(grp);
    if let (Ok(c), Ok(s)) = (client.process_reply(a, user, pass, salt, b_recv), server.process_reply(b, v, a_recv)) {
        if s.verify_client(c.proof()).is_ok() {
            cover("proof accepted");
            let mut tc = client.compute_public_ephemeral(a);
            tc.extend_from_slice(&spec::bytes(&spec::int(b_recv)));
            tc.extend_from_slice(c.key());
            let mut ts = spec::bytes(&spec::int(a_recv));
            ts.extend_from_slice(&server.compute_public_ephemeral(b, v));
            ts.extend_from_slice(s.key());
            ensures("C04|an accepted proof was computed from the same A|B|K", tc == ts);
        }
    }
}

/// C01: the whole login.
pub fn srp_agreement<D: Digest>(grp: &SrpGroup, user: &[u8], pass: &[u8], salt: &[u8], a: &[u8], b: &[u8]) {
    valid_group(grp);
    let client = SrpClient::<D>::new(grp);
    let server = SrpServer::<D>::new(grp);
    let v = client.compute_verifier(user, pass, salt);
    let a_pub = client.compute_public_ephemeral(a);
    let b_pub = server.compute_public_ephemeral(b, &v);
    let rc = client.process_reply(a, user, pass, salt, &b_pub);
    let rs = server.process_reply(b, &v, &a_pub);
    match &rc {
        Err(_) => ensures("C01|client refuses only B = 0 mod N", spec::is_zero_mod(&spec::int(&b_pub), &grp.n)),
        Ok(_) => {}
    }
    match &rs {
        Err(_) => ensures("C01|server refuses only A = 0 mod N", spec::is_zero_mod(&spec::int(&a_pub), &grp.n)),
        Ok(_) => {}
    }
    if let (Ok(c), Ok(s)) = (&rc, &rs) {
        cover("login completes");
        ensures("C01|both sides derive the same key", c.key() == s.key());
        ensures("C01|the server accepts the client's proof", s.verify_client(c.proof()).is_ok());
        ensures("C01|the client accepts the server's proof", c.verify_server(s.proof()).is_ok());
    }
}

// C05: modulus and generator of each group. The 1024, 1536 and 2048-bit moduli are RFC 5054's literals; the
// larger ones are defined by the formula RFC 3526 gives for them:
// N = 2^k - 2^(k-64) - 1 + 2^64 * (floor(2^(k-130) pi) + c), with floor(2^(k-130) pi) from pi.rs.
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/rfc5054.rs"));

pub fn srp_group_1024() {
    ensures("C05|1024-bit group", groups::G_1024.n == BigUint::from_bytes_be(RFC5054_1024) && groups::G_1024.g == BigUint::from_bytes_be(&[2]));
    cover("group");
}
pub fn srp_group_1536() {
    ensures("C05|1536-bit group", groups::G_1536.n == BigUint::from_bytes_be(RFC5054_1536) && groups::G_1536.g == BigUint::from_bytes_be(&[2]));
    cover("group");
}
pub fn srp_group_2048() {
    ensures("C05|2048-bit group", groups::G_2048.n == BigUint::from_bytes_be(RFC5054_2048) && groups::G_2048.g == BigUint::from_bytes_be(&[2]));
    cover("group");
}
pub fn srp_group_3072() {
    ensures("C05|3072-bit group", groups::G_3072.n == BigUint::from_bytes_be(RFC5054_3072) && groups::G_3072.g == BigUint::from_bytes_be(&[5]));
    cover("group");
}
pub fn srp_group_4096() {
    ensures("C05|4096-bit group", groups::G_4096.n == BigUint::from_bytes_be(RFC5054_4096) && groups::G_4096.g == BigUint::from_bytes_be(&[5]));
    cover("group");
}
pub fn srp_group_6144() {
    ensures("C05|6144-bit group", groups::G_6144.n == BigUint::from_bytes_be(RFC5054_6144) && groups::G_6144.g == BigUint::from_bytes_be(&[5]));
    cover("group");
}
pub fn srp_group_8192() {
    ensures("C05|8192-bit group", groups::G_8192.n == BigUint::from_bytes_be(RFC5054_8192) && groups::G_8192.g == BigUint::from_bytes_be(&[19]));
    cover("group");
}
