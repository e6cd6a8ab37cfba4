//! One entry per contract program: which inputs it gets.
use crate::gen::*;
use contracts::{aucpace_agree::*, aucpace_client::*, aucpace_serde_contracts::*, aucpace_server::*, spake2_contracts::*, srp_contracts::*};
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use num_bigint::BigUint;
use sha1::Sha1;
use sha2::{Sha256, Sha512};
use spake2::{Ed25519Group, Identity, Password, Spake2};
use srp::{client::SrpClient, server::SrpServer};

macro_rules! srp_digest {
    ($g:expr, $f:ident ( $($a:expr),* )) => {{
        let k = $g.below(6);
        $g.note("digest", ["SHA-1", "SHA-256", "SHA-256", "SHA-512", "SHA-256 with leading zeros", "SHA-256 with leading zeros"][k as usize].into());
        match k {
            0 => $f::<Sha1>($($a),*),
            1 | 2 => $f::<Sha256>($($a),*),
            3 => $f::<Sha512>($($a),*),
            _ => $f::<Lead>($($a),*),
        }
    }};
}
macro_rules! real_digest {
    ($g:expr, $f:ident ( $($a:expr),* )) => {{
        let k = $g.below(3);
        $g.note("digest", ["SHA-1", "SHA-256", "SHA-512"][k as usize].into());
        match k {
            0 => $f::<Sha1>($($a),*),
            1 => $f::<Sha256>($($a),*),
            _ => $f::<Sha512>($($a),*),
        }
    }};
}
// D, H, R, K1, BUF
macro_rules! au5 {
    ($g:expr, $f:ident ( $($a:expr),* )) => {{
        let k = $g.below(6);
        $g.note("digest, nonce length, buffer", ["SHA-512,16,100", "SHA-512,16,20", "SHA-512,32,64", "SHA-512,5,1", "SHA-512 or zeros,16,64", "SHA-512,64,33"][k as usize].into());
        match k {
            0 => $f::<Sha512, TestHasher, Det, 16, 100>($($a),*),
            1 => $f::<Sha512, TestHasher, Det, 16, 20>($($a),*),
            2 => $f::<Sha512, TestHasher, Det, 32, 64>($($a),*),
            3 => $f::<Sha512, TestHasher, Det, 5, 1>($($a),*),
            4 => $f::<Zeroes, TestHasher, Det, 16, 64>($($a),*),
            _ => $f::<Sha512, TestHasher, Det, 64, 33>($($a),*),
        }
    }};
}
macro_rules! au4 {
    ($g:expr, $f:ident ( $($a:expr),* )) => {{
        let k = $g.below(3);
        $g.note("digest, nonce length", ["SHA-512,16", "SHA-512,32", "SHA-512 or zeros,16"][k as usize].into());
        match k {
            0 => $f::<Sha512, TestHasher, Det, 16>($($a),*),
            1 => $f::<Sha512, TestHasher, Det, 32>($($a),*),
            _ => $f::<Zeroes, TestHasher, Det, 16>($($a),*),
        }
    }};
}
macro_rules! sv {
    ($g:expr, $f:ident ( $($a:expr),* )) => {{
        let k = $g.below(4);
        $g.note("digest, nonce length", ["SHA-512,16", "SHA-512,48", "SHA-512 or zeros,16", "SHA-512,7"][k as usize].into());
        match k {
            0 => $f::<Sha512, Det, 16>($($a),*),
            1 => $f::<Sha512, Det, 48>($($a),*),
            2 => $f::<Zeroes, Det, 16>($($a),*),
            _ => $f::<Sha512, Det, 7>($($a),*),
        }
    }};
}

fn edwards(g: &mut G, name: &str) -> EdwardsPoint {
    // multiples of the base point with or without a small-order component
    use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT, EIGHT_TORSION};
    let s = g.scalar(name);
    let t = if g.chance(30) { EIGHT_TORSION[g.below(8) as usize] } else { EIGHT_TORSION[0] };
    g.note("torsion", format!("{:02x?}", t.compress().0));
    ED25519_BASEPOINT_POINT * s + t
}
fn encoding(g: &mut G, name: &str) -> [u8; 32] {
    let mut e = edwards(g, name).compress().0;
    if g.chance(30) {
        match g.below(6) {
            0 => e = [0; 32],
            1 => e = [0xff; 32],
            2 => e = g.arr(name),
            3 => { e = [0; 32]; e[0] = 1; e[31] = 0x80 }          // negative zero
            4 => { e = [0xff; 32]; e[0] = 0xed + g.below(19) as u8; e[31] = 0x7f | (g.u() as u8 & 0x80) } // not reduced
            _ => { let i = g.below(32) as usize; e[i] ^= 1 << g.below(8) }
        }
    }
    g.note(name, hex(&e));
    e
}
fn spake_message(g: &mut G, name: &str) -> Vec<u8> {
    let side = if g.chance(85) { b"ABS"[g.below(3) as usize] } else { g.u() as u8 };
    let mut m = vec![side];
    m.extend(encoding(g, name));
    if g.chance(15) {
        if g.chance(50) { g.mutate(&mut m) } else { m = g.raw() }
    }
    g.note(name, hex(&m));
    m
}
/// mostly not UTF-8
fn identity(g: &mut G, name: &str) -> Vec<u8> {
    let mut v = g.bytes(name);
    if g.chance(60) {
        for _ in 0..=g.below(3) {
            let b = if g.chance(70) { 0x80 | g.u() as u8 } else { g.u() as u8 & 31 };
            let i = g.below(v.len() as u64 + 1) as usize;
            v.insert(i, b);
        }
    }
    g.note(name, hex(&v));
    v
}
#[derive(Clone)]
struct Side { mode: u8, pw: Vec<u8>, a: Vec<u8>, b: Vec<u8>, rng: Det, inbound: Vec<u8> }
fn outbound(s: &Side) -> Vec<u8> {
    let p = Password::new(&s.pw);
    let (a, b) = (Identity::new(&s.a), Identity::new(&s.b));
    match s.mode {
        b'A' => Spake2::<Ed25519Group>::start_a_with_rng(&p, &a, &b, s.rng.clone()).1,
        b'B' => Spake2::<Ed25519Group>::start_b_with_rng(&p, &a, &b, s.rng.clone()).1,
        _ => Spake2::<Ed25519Group>::start_symmetric_with_rng(&p, &a, s.rng.clone()).1,
    }
}
/// two sessions that agree on everything, or all but one thing, as C10 compares them
fn pair(g: &mut G, m1: u8, m2: u8) -> (Side, Side) {
    let mut s = Side { mode: m1, pw: g.bytes("pw1"), a: g.bytes("id_a1"), b: if m1 == b'S' { vec![] } else { g.bytes("id_b1") }, rng: g.rng("rng1"), inbound: vec![] };
    let mut t = s.clone();
    t.mode = m2;
    if m2 == b'S' { t.b = vec![] } else if m1 == b'S' { t.b = g.bytes("id_b2") }
    if m1 != m2 || (m1 == b'S' && g.chance(50)) {
        t.rng = g.rng("rng2");
    }
    match g.below(8) {
        0 => { g.mutate(&mut t.pw); }
        1 => { g.mutate(&mut t.a); }
        2 => { if t.b.is_empty() { t.b = g.bytes("id_b2") } else { g.mutate(&mut t.b) } if m2 == b'S' { t.b = vec![] } }
        3 => { t.rng = g.rng("rng2"); }
        4 => { std::mem::swap(&mut t.a, &mut t.b); if m2 == b'S' { t.b = vec![] } }
        5 => { // move a byte across the border of the two identities
            if let Some(c) = t.a.pop() { if m2 != b'S' { t.b.insert(0, c) } } }
        6 => { t.pw = g.bytes("pw2"); }
        _ => {}
    }
    g.note("second session", format!("{} pw {} a {} b {}", t.mode as char, hex(&t.pw), hex(&t.a), hex(&t.b)));
    if m1 == m2 && (m1 != b'S' || g.chance(50)) {
        let mut m = spake_message(g, "inbound");
        if m.len() == 33 { m[0] = match m1 { b'A' => b'B', b'B' => b'A', _ => b'S' } }
        s.inbound = m.clone();
        t.inbound = m;
        if g.chance(20) { g.mutate(&mut t.inbound) }
    } else {
        s.inbound = outbound(&t);
        t.inbound = outbound(&s);
        if g.chance(10) { let k = g.below(8); let i = g.below(33) as usize; t.inbound[i] ^= 1 << k }
        if m1 != m2 && (m1 == b'S' || m2 == b'S') {
            // side bytes that the other kind of session accepts
            s.inbound[0] = match m1 { b'A' => b'B', b'B' => b'A', _ => b'S' };
            t.inbound[0] = match m2 { b'A' => b'B', b'B' => b'A', _ => b'S' };
        }
    }
    g.note("inbound 1", hex(&s.inbound));
    g.note("inbound 2", hex(&t.inbound));
    (s, t)
}

pub fn run(root: &str, g: &mut G) {
    match root {
        "srp_public_values" => {
            let grp = g.group();
            let (u, p, s) = (g.bytes("user"), g.bytes("pass"), g.bytes("salt"));
            let (a, b, v) = (g.int("a", &grp.n), g.int("b", &grp.n), g.int("v", &grp.n));
            srp_digest!(g, srp_public_values(&grp, &u, &p, &s, &a, &b, &v))
        }
        "srp_building_blocks" => {
            let grp = g.group();
            let (u, p, s, h) = (g.bytes("user"), g.bytes("pass"), g.bytes("salt"), g.bytes("identity hash"));
            let i: Vec<BigUint> = (0..4).map(|k| BigUint::from_bytes_be(&g.int(&format!("i{}", k + 1), &grp.n))).collect();
            srp_digest!(g, srp_building_blocks(&grp, &u, &p, &s, &h, &i[0], &i[1], &i[2], &i[3]))
        }
        "srp_client_login" => {
            let grp = g.group();
            let (u, p, s) = (g.bytes("user"), g.bytes("pass"), g.bytes("salt"));
            let (a, b) = (g.int("a", &grp.n), g.int("B", &grp.n));
            let r = g.reply("reply");
            srp_digest!(g, srp_client_login(&grp, &u, &p, &s, &a, &b, &r))
        }
        "srp_server_login" => {
            let grp = g.group();
            let (b, v, a) = (g.int("b", &grp.n), g.int("v", &grp.n), g.int("A", &grp.n));
            let r = g.reply("reply");
            srp_digest!(g, srp_server_login(&grp, &b, &v, &a, &r))
        }
        "srp_proof_binds" => {
            let grp = g.group();
            let (u, p, s) = (g.bytes("user"), g.bytes("pass"), g.bytes("salt"));
            let (a, b) = (g.int("a", &grp.n), g.int("b", &grp.n));
            let mut v = SrpClient::<Sha256>::new(&grp).compute_verifier(&u, &p, &s);
            if g.chance(15) { v = g.int("v", &grp.n) }
            let mut a_pub = SrpClient::<Sha256>::new(&grp).compute_public_ephemeral(&a);
            let mut b_pub = SrpServer::<Sha256>::new(&grp).compute_public_ephemeral(&b, &v);
            if g.chance(25) { g.mutate(&mut a_pub) }
            if g.chance(25) { g.mutate(&mut b_pub) }
            for (k, x) in [("v", &v), ("A", &a_pub), ("B", &b_pub)] { g.note(k, hex(x)) }
            if g.chance(80) {
                srp_proof_binds::<Sha256>(&grp, &u, &p, &s, &a, &b_pub, &b, &v, &a_pub)
            } else {
                real_digest!(g, srp_proof_binds(&grp, &u, &p, &s, &a, &b_pub, &b, &v, &a_pub))
            }
        }
        "srp_agreement" => {
            let grp = g.group();
            let (u, p, s) = (g.bytes("user"), g.bytes("pass"), g.bytes("salt"));
            let (a, b) = (g.int("a", &grp.n), g.int("b", &grp.n));
            srp_digest!(g, srp_agreement(&grp, &u, &p, &s, &a, &b))
        }
        "srp_group_1024" => srp_group_1024(),
        "srp_group_1536" => srp_group_1536(),
        "srp_group_2048" => srp_group_2048(),
        "srp_group_3072" => srp_group_3072(),
        "srp_group_4096" => srp_group_4096(),
        "srp_group_6144" => srp_group_6144(),
        "srp_group_8192" => srp_group_8192(),
        "spake_pw_scalar" => spake_pw_scalar(&g.bytes("pw")),
        "spake_group" => {
            use contracts::spake2_spec as spec;
            for c in [&spec::M, &spec::N, &spec::S] {
                assert!(spec::constant(c).is_torsion_free(), "a blinding constant is outside the prime-order group");
                assert!(CompressedEdwardsY(*c).decompress().is_some());
            }
            let (e, f, s) = (edwards(g, "e"), edwards(g, "f"), g.scalar("s"));
            let b = encoding(g, "b");
            let o = g.bytes("other");
            spake_group(&e, &f, &s, &b, &o)
        }
        "spake_session_a" | "spake_session_b" | "spake_session_sym" => {
            let (pw, a, b, r) = (g.bytes("pw"), g.bytes("id_a"), g.bytes("id_b"), g.rng("rng"));
            let mut m = spake_message(g, "inbound");
            if m.len() == 33 && g.chance(60) {
                m[0] = if root.ends_with("_a") { b'B' } else if root.ends_with("_b") { b'A' } else { b'S' };
            }
            if g.chance(10) {
                // the session's own message
                let s = Side { mode: if root.ends_with("_a") { b'A' } else if root.ends_with("_b") { b'B' } else { b'S' }, pw: pw.clone(), a: a.clone(), b: b.clone(), rng: r.clone(), inbound: vec![] };
                m = outbound(&s);
                if g.chance(50) { m[0] = b"BAS"[g.below(3) as usize] }
            }
            g.note("inbound", hex(&m));
            match root {
                "spake_session_a" => spake_session_a(&pw, &a, &b, r, &m),
                "spake_session_b" => spake_session_b(&pw, &a, &b, r, &m),
                _ => spake_session_sym(&pw, &a, r, &m),
            }
        }
        "spake_system_rng" => {
            let (pw, a, b) = (g.bytes("pw"), g.bytes("id_a"), g.bytes("id_b"));
            spake_system_rng(&pw, &a, &b)
        }
        "spake_debug_hides_a" | "spake_debug_hides_b" | "spake_debug_hides_sym" => {
            let (pw1, mut pw2, a, b) = (g.bytes("pw1"), g.bytes("pw2"), identity(g, "id_a"), identity(g, "id_b"));
            if g.chance(20) { pw2 = pw1.clone(); g.mutate(&mut pw2); g.note("pw2", hex(&pw2)) }
            let (r1, r2) = (g.rng("rng1"), g.rng("rng2"));
            let alt = g.flag("alternate");
            let w = if g.chance(50) { 0 } else { g.below(80) as u16 };
            g.note("width", w.to_string());
            match root {
                "spake_debug_hides_a" => spake_debug_hides_a(&pw1, &pw2, &a, &b, r1, r2, alt, w),
                "spake_debug_hides_b" => spake_debug_hides_b(&pw1, &pw2, &a, &b, r1, r2, alt, w),
                _ => spake_debug_hides_sym(&pw1, &pw2, &a, r1, r2, alt, w),
            }
        }
        "spake_debug_shows_a" | "spake_debug_shows_b" | "spake_debug_shows_sym" => {
            let (pw, id, other) = (g.bytes("pw"), identity(g, "id"), identity(g, "other"));
            let mut id2 = id.clone();
            match g.below(8) {
                0 => id2 = identity(g, "id2"),
                1 => id2 = hex(&id).into_bytes(),
                2 if !id2.is_empty() => { let i = g.below(id2.len() as u64) as usize; id2[i] ^= 0xf0 }
                3 if !id2.is_empty() => { let i = g.below(id2.len() as u64) as usize; id2[i] ^= 0x0f }
                4 if !id2.is_empty() => { let i = g.below(id2.len() as u64) as usize; id2[i] = id2[i].rotate_left(4) }
                5 if id2.len() > 1 => {
                    // the same digits when leading zeros are left out
                    let i = g.below(id2.len() as u64 - 1) as usize;
                    let (x, y) = (id2[i], id2[i + 1]);
                    id2[i] = x >> 4;
                    id2[i + 1] = x << 4 | y & 15;
                }
                _ => g.mutate(&mut id2),
            }
            g.note("id2", hex(&id2));
            let second = g.flag("second");
            let (r1, r2) = (g.rng("rng1"), g.rng("rng2"));
            match root {
                "spake_debug_shows_a" => spake_debug_shows_a(&pw, &id, &other, &id2, second, r1, r2),
                "spake_debug_shows_b" => spake_debug_shows_b(&pw, &id, &other, &id2, second, r1, r2),
                _ => spake_debug_shows_sym(&pw, &id, &id2, r1, r2),
            }
        }
        "spake_agree_ab" => {
            let (pw, a, b, r, s) = (g.bytes("pw"), g.bytes("id_a"), g.bytes("id_b"), g.rng("ra"), g.rng("rb"));
            spake_agree_ab(&pw, &a, &b, r, s)
        }
        "spake_agree_sym" => {
            let (pw, a, r) = (g.bytes("pw"), g.bytes("id_s"), g.rng("ra"));
            let s = if g.chance(20) { r.clone() } else { g.rng("rb") };
            spake_agree_sym(&pw, &a, r, s)
        }
        "spake_binds_aa" => { let (s, t) = pair(g, b'A', b'A'); spake_binds_aa(&s.pw, &s.a, &s.b, s.rng, &s.inbound, &t.pw, &t.a, &t.b, t.rng, &t.inbound) }
        "spake_binds_bb" => { let (s, t) = pair(g, b'B', b'B'); spake_binds_bb(&s.pw, &s.a, &s.b, s.rng, &s.inbound, &t.pw, &t.a, &t.b, t.rng, &t.inbound) }
        "spake_binds_ab" => { let (s, t) = pair(g, b'A', b'B'); spake_binds_ab(&s.pw, &s.a, &s.b, s.rng, &s.inbound, &t.pw, &t.a, &t.b, t.rng, &t.inbound) }
        "spake_binds_ss" => { let (s, t) = pair(g, b'S', b'S'); spake_binds_ss(&s.pw, &s.a, s.rng, &s.inbound, &t.pw, &t.a, t.rng, &t.inbound) }
        "spake_binds_as" => { let (s, t) = pair(g, b'A', b'S'); spake_binds_as(&s.pw, &s.a, &s.b, s.rng, &s.inbound, &t.pw, &t.a, t.rng, &t.inbound) }
        "spake_binds_bs" => { let (s, t) = pair(g, b'B', b'S'); spake_binds_bs(&s.pw, &s.a, &s.b, s.rng, &s.inbound, &t.pw, &t.a, t.rng, &t.inbound) }
        "aucpace_agreement" | "aucpace_agreement_partial" | "aucpace_agreement_strong" | "aucpace_agreement_partial_strong" => {
            let (rh, lh, ex, pre) = (g.flag("register on the heap"), g.flag("log in on the heap"), g.flag("explicit"), g.flag("pre-established"));
            let (u, p, ss, ci) = (g.bytes("user"), g.bytes("pass"), g.ssid(), g.bytes("ci"));
            let (pr, h) = (g.params(), g.hasher());
            let (rc, rs, rl, rk) = (g.rng("rc"), g.rng("rs"), g.rng("rl"), g.rng("rk"));
            match root {
                "aucpace_agreement" => au5!(g, aucpace_agreement(rh, lh, ex, pre, &u, &p, &ss, &ci, pr, h, rc, rs, rl, rk)),
                "aucpace_agreement_partial" => au5!(g, aucpace_agreement_partial(rh, lh, ex, pre, &u, &p, &ss, &ci, pr, h, rc, rs, rl, rk)),
                "aucpace_agreement_strong" => au5!(g, aucpace_agreement_strong(rh, lh, ex, pre, &u, &p, &ss, &ci, pr, h, rc, rs, rl, rk)),
                _ => au5!(g, aucpace_agreement_partial_strong(rh, lh, ex, pre, &u, &p, &ss, &ci, pr, h, rc, rs, rl, rk)),
            }
        }
        "client_login" => {
            let (hp, ex) = (g.flag("heap"), g.flag("explicit"));
            let (u, p, ci, s) = (g.bytes("user"), g.bytes("pass"), g.bytes("ci"), g.salt("salt"));
            let (pr, h) = (g.params(), g.hasher());
            let (x, sp, au) = (g.point("x_pub"), g.point("server_pub"), g.reply_arr("auth"));
            let (rc, rk) = (g.rng("rc"), g.rng("rk"));
            au5!(g, client_login(hp, ex, &u, &p, g.arr("server nonce"), &ci, &s, pr, h, x, sp, au, rc, rk))
        }
        "client_login_strong" => {
            let (hp, ex) = (g.flag("heap"), g.flag("explicit"));
            let (u, p, ci) = (g.bytes("user"), g.bytes("pass"), g.bytes("ci"));
            let (pr, h) = (g.params(), g.hasher());
            let (bs, x, sp, au) = (g.point("blinded_salt"), g.point("x_pub"), g.point("server_pub"), g.reply_arr("auth"));
            let (rc, rb, rk) = (g.rng("rc"), g.plain_rng("rb"), g.rng("rk"));
            au5!(g, client_login_strong(hp, ex, &u, &p, g.arr("server nonce"), &ci, bs, pr, h, x, sp, au, rc, rb, rk))
        }
        "client_blinding_nonzero" => {
            let (u, p, ss, rc, rb) = (g.bytes("user"), g.bytes("pass"), g.ssid(), g.rng("rc"), g.rng("rb"));
            au4!(g, client_blinding_nonzero(&u, &p, &ss, rc, rb))
        }
        "client_ssid" => {
            let (u, p, ss, ci, s) = (g.bytes("user"), g.bytes("pass"), g.ssid(), g.bytes("ci"), g.salt("salt"));
            let (pr, h, x, rc, rk) = (g.params(), g.hasher(), g.point("x_pub"), g.rng("rc"), g.rng("rk"));
            au4!(g, client_ssid(&u, &p, &ss, &ci, &s, pr, h, x, rc, rk))
        }
        "client_register" | "client_register_strong" => {
            let (hp, u, p, pr, h, rc) = (g.flag("heap"), g.bytes("user"), g.bytes("pass"), g.params(), g.hasher(), g.rng("rc"));
            if root == "client_register" {
                au5!(g, client_register(hp, &u, &p, pr, h, rc))
            } else {
                au5!(g, client_register_strong(hp, &u, &p, pr, h, rc))
            }
        }
        "client_two_sessions" => { let rc = g.rng("rc"); au4!(g, client_two_sessions(rc)) }
        "server_login" | "server_login_partial" | "server_login_strong" | "server_login_partial_strong" => {
            let (ex, hr, hk) = (g.flag("explicit"), g.flag("has record"), g.flag("has key pair"));
            let u = g.bytes("user");
            let name = if g.chance(60) { u.clone() } else { g.bytes("name") };
            let (w, s, p, q, x, bl) = (g.point("w"), g.salt("salt"), g.params_string("params"), g.scalar("q"), g.scalar("x"), g.point("blinded"));
            let xp = if g.chance(80) { contracts::aucpace_spec::base(&x) } else { g.point("x_pub") };
            let (ci, cp, au, rs, rl) = (g.bytes("ci"), g.point("client_pub"), g.reply_arr("auth"), g.rng("rs"), g.rng("rl"));
            macro_rules! go { ($d:ty, $k:literal) => {{
                let n = g.arr::<$k>("client nonce");
                match root {
                    "server_login" => server_login::<$d, Det, $k>(ex, hr, &u, &name, w, &s, &p, n, &ci, cp, au, rs, rl),
                    "server_login_partial" => server_login_partial::<$d, Det, $k>(ex, hr, hk, &u, &name, w, &s, &p, x, xp, n, &ci, cp, au, rs, rl),
                    "server_login_strong" => server_login_strong::<$d, Det, $k>(ex, hr, &u, &name, w, q, &p, bl, n, &ci, cp, au, rs, rl),
                    _ => server_login_partial_strong::<$d, Det, $k>(ex, hr, hk, &u, &name, w, q, &p, x, xp, bl, n, &ci, cp, au, rs, rl),
                }
            }}}
            match g.below(3) { 0 => go!(Sha512, 16), 1 => go!(Sha512, 48), _ => go!(Zeroes, 16) }
        }
        "server_unknown_twice" => {
            let (u, o, ci, cp, au, bl) = (g.bytes("user"), g.bytes("other"), g.bytes("ci"), g.point("client_pub"), g.reply_arr("auth"), g.point("blinded"));
            let (rs, r1, r2) = (g.rng("rs"), g.rng("r1"), g.rng("r2"));
            let n = g.arr::<16>("client nonce");
            server_unknown_twice::<Sha512, Det, 16>(&u, &o, n, &ci, cp, au, bl, rs, r1, r2)
        }
        "server_ssid" => {
            let (u, ss, ci, rs, rl) = (g.bytes("user"), g.ssid(), g.bytes("ci"), g.rng("rs"), g.rng("rl"));
            sv!(g, server_ssid(&u, &ss, &ci, rs, rl))
        }
        "server_long_term" => { let rs = g.rng("rs"); sv!(g, server_long_term(rs)) }
        "aucpace_client_message_binary" => {
            let (w, u, p, au) = (g.choice("which", 7), g.bytes("user"), g.point("point"), g.arr("auth"));
            let (s, pr, e, v) = (g.salt("salt"), g.params_string("params"), g.scalar("exponent"), g.point("verifier"));
            match g.below(3) {
                0 => aucpace_client_message_binary::<16>(w, g.arr("nonce"), &u, p, au, s, pr, e, v),
                1 => aucpace_client_message_binary::<5>(w, g.arr("nonce"), &u, p, au, s, pr, e, v),
                _ => aucpace_client_message_binary::<48>(w, g.arr("nonce"), &u, p, au, s, pr, e, v),
            }
        }
        "aucpace_server_message_binary" | "aucpace_messages_named" => {
            let (w, gr, p, au) = (g.choice("which", 8), g.text("group"), g.point("point"), g.arr("auth"));
            let (s, pr, b) = (g.salt("salt"), g.params_string("params"), g.point("blinded"));
            macro_rules! go { ($k:literal) => {{
                let n = g.arr::<$k>("nonce");
                if root == "aucpace_messages_named" {
                    aucpace_messages_named::<$k>(w, n, &gr, p, au, s, pr, b)
                } else {
                    aucpace_server_message_binary::<$k>(w, n, &gr, p, au, s, pr, b)
                }
            }}}
            match g.below(3) { 0 => go!(16), 1 => go!(5), _ => go!(48) }
        }
        "aucpace_user_names_named" => {
            let (w, u, p, s, pr, e) = (g.choice("which", 4), g.arr("user"), g.point("point"), g.salt("salt"), g.params_string("params"), g.scalar("exponent"));
            aucpace_user_names_named::<16>(w, u, p, s, pr, e)
        }
        "aucpace_malformed_strings" => {
            let (w, t, p, s, pr) = (g.choice("which", 6), g.text("text"), g.point("point"), g.salt("salt"), g.params_string("params"));
            aucpace_malformed_strings(w, &t, p, s, pr)
        }
        "aucpace_any_answers_as_message" => {
            let server = g.flag("server");
            let t = [g.text("text 1"), g.text("text 2"), g.text("text 3"), g.text("text 4")];
            let (raw, by) = (g.bytes("raw"), g.choice("by", 3));
            let stop = if g.chance(30) { u64::MAX } else { g.below(140) };
            g.note("last answer", stop.to_string());
            let end = g.flag("end of data");
            let r = Answers(g.rng("answers"), g.chance(70));
            let t = [&t[0][..], &t[1][..], &t[2][..], &t[3][..]];
            match g.below(3) {
                0 => aucpace_any_answers_as_message::<Answers, 16>(server, t, &raw, by, stop, end, r),
                1 => aucpace_any_answers_as_message::<Answers, 5>(server, t, &raw, by, stop, end, r),
                _ => aucpace_any_answers_as_message::<Answers, 40>(server, t, &raw, by, stop, end, r),
            }
        }
        _ => panic!("no such contract program: {root}"),
    }
}
