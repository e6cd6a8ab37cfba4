//! Contracts of the AuCPace server against an arbitrary peer and database.
use crate::aucpace_spec::{self as spec, Db};
use crate::ghost::*;
use aucpace::{server::*, AuCPaceServer, Error, ServerMessage};
use curve25519_dalek::{digest::consts::U64, digest::Digest, ristretto::RistrettoPoint, scalar::Scalar, traits::IsIdentity};
use password_hash::{ParamsString, SaltString};
use rand_core::CryptoRngCore;

fn nonce<R: CryptoRngCore, const N: usize>(r: &mut R) -> [u8; N] {
    let mut n = [0u8; N];
    r.fill_bytes(&mut n);
    n
}

/// C15, C16, C17, C21: from a pairing secret to keys and authenticators. `draws` is the state the server's
/// session generator is in.
fn finish_server<D, R, const K1: usize>(
    explicit: bool, s: AuCPaceServerCPaceSubstep<D, R, K1>, ssid: &[u8], prs: &[u8], ci: &[u8], client_pub: RistrettoPoint, auth: [u8; 64], draws: &mut R,
) where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let (s, m) = s.generate_public_key(ci);
    let y = Scalar::random(draws);
    match m {
        ServerMessage::PublicKey(p) => ensures("C14,C17,C18,C21|server public key = map(H1(ssid, prs, ci)) * fresh scalar", p == spec::generator::<D>(ssid, prs, ci) * y),
        _ => dead("C17|the server announces a public key"),
    }
    let sk1 = spec::sk1::<D>(ssid, &y, &client_pub);
    let sk = spec::h::<D>(5, &[ssid, &sk1]);
    if explicit {
        match s.receive_client_pubkey(client_pub) {
            Err(e) => {
                cover("server refuses the public key");
                ensures("C15|the server refuses only a neutral public key (explicit)", client_pub.is_identity());
                ensures("C15|illegal-point error (server, explicit)", e == Error::IllegalPointError);
            }
            Ok(s) => {
                ensures("C15|the server refuses a neutral public key (explicit)", !client_pub.is_identity());
                let expect = spec::h::<D>(4, &[ssid, &sk1]);
                hint("auth", &expect);
                ct_begin("C23|the verification step shows only whether the client's authenticator is right", &expect, &auth, &[&sk1]);
                let r = s.receive_client_authenticator(auth);
                ct_end();
                match r {
                    Ok((k, m)) => {
                        cover("server accepts the authenticator");
                        ensures("C16|the server accepts only H4(ssid, sk1)", auth[..] == expect[..]);
                        ensures("C17|session key = H5(ssid, sk1) (server, explicit)", k == sk);
                        match m {
                            ServerMessage::Authenticator(t) => ensures("C16,C17|server authenticator = H3(ssid, sk1)", t[..] == spec::h::<D>(3, &[ssid, &sk1])[..]),
                            _ => dead("C16|the server sends its authenticator"),
                        }
                    }
                    Err(e) => {
                        cover("server refuses the authenticator");
                        ensures("C16|the server accepts H4(ssid, sk1)", auth[..] != expect[..]);
                        ensures("C16|mutual-authentication error (server)", e == Error::MutualAuthFail);
                    }
                }
            }
        }
    } else {
        match s.implicit_auth(client_pub) {
            Err(e) => {
                cover("server refuses the public key (implicit)");
                ensures("C15|the server refuses only a neutral public key (implicit)", client_pub.is_identity());
                ensures("C15|illegal-point error (server, implicit)", e == Error::IllegalPointError);
            }
            Ok(k) => {
                cover("server completes (implicit)");
                ensures("C15|the server refuses a neutral public key (implicit)", !client_pub.is_identity());
                ensures("C17|session key = H5(ssid, sk1) (server, implicit)", k == sk);
            }
        }
    }
}

fn fake_salt<D: Digest<OutputSize = U64> + Default>(secret: u64, user: &[u8]) -> SaltString {
    let d = D::default().chain_update(secret.to_le_bytes()).chain_update(user).finalize();
    SaltString::encode_b64(&d[..48]).unwrap()
}
fn fake_exponent<D: Digest<OutputSize = U64> + Default>(secret: u64, user: &[u8]) -> Scalar {
    Scalar::from_hash(D::default().chain_update(secret.to_le_bytes()).chain_update(user))
}

/// one plain login, known or unknown user, with or without a stored key pair
fn login<D, R, const K1: usize>(
    partial: bool, explicit: bool, server: &mut AuCPaceServer<D, R, K1>, sdraws: &mut R, secret: u64, user: &[u8], db: &Db<'_>,
    client_nonce: [u8; K1], ci: &[u8], client_pub: RistrettoPoint, auth: [u8; 64], rl: R,
) where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let (s, m) = server.begin();
    let n: [u8; K1] = nonce(sdraws);
    match m {
        ServerMessage::Nonce(t) => ensures("C17,C21|server nonce is a fresh full-width draw", t == n),
        _ => dead("C17|the server announces a nonce"),
    }
    let s = s.agree_ssid(client_nonce);
    let ssid = spec::h::<D>(0, &[&n, &client_nonce]);
    let mut draws = rl.clone();
    let known = user == db.name;
    let (s, m) = if partial { s.generate_client_info_partial_aug(user, db, rl) } else { s.generate_client_info(user, db, rl) };
    let (group, x_pub, salt, params) = match m {
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => (group, x_pub, salt, pbkdf_params),
        _ => dead("C17,C18|the server answers with augmentation info"),
    };
    ensures("C18|same group for everybody", group == "ristretto255");
    let x = if !partial {
        let x = Scalar::random(&mut draws);
        ensures("C17,C18,C21|augmentation key = G x for a fresh x", x_pub == spec::base(&x));
        Some(x)
    } else if let (true, Some((x, k))) = (known, db.keys) {
        ensures("C13,C17|augmentation key = the stored key", x_pub == k);
        Some(x)
    } else {
        ensures("C18,C21|unknown user: fresh random augmentation key", x_pub == RistrettoPoint::random(&mut draws));
        None
    };
    let prs = match (x, known, &db.rec) {
        (Some(x), true, Some((w, s, p))) => {
            cover("known user");
            ensures("C17|known user: stored salt", salt == *s);
            ensures("C17|known user: stored parameters", params == *p);
            spec::enc(&(w * x))
        }
        _ => {
            cover("unknown user");
            ensures("C18|unknown user: salt is the fixed function of secret and name", salt == fake_salt::<D>(secret, user));
            ensures("C18|unknown user: default parameters", params == ParamsString::default());
            nonce(&mut draws)
        }
    };
    finish_server(explicit, s, &ssid, &prs, ci, client_pub, auth, &mut draws)
}

fn login_strong<D, R, const K1: usize>(
    partial: bool, explicit: bool, server: &mut AuCPaceServer<D, R, K1>, sdraws: &mut R, secret: u64, user: &[u8], blinded: RistrettoPoint, db: &Db<'_>,
    client_nonce: [u8; K1], ci: &[u8], client_pub: RistrettoPoint, auth: [u8; 64], rl: R,
) where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let (s, m) = server.begin();
    let n: [u8; K1] = nonce(sdraws);
    match m {
        ServerMessage::Nonce(t) => ensures("C17,C21|server nonce is a fresh full-width draw (strong)", t == n),
        _ => dead("C17|the server announces a nonce"),
    }
    let s = s.agree_ssid(client_nonce);
    let ssid = spec::h::<D>(0, &[&n, &client_nonce]);
    let mut draws = rl.clone();
    let known = user == db.name;
    let r = if partial { s.generate_client_info_partial_strong(user, blinded, db, rl) } else { s.generate_client_info_strong(user, blinded, db, rl) };
    let has_keys = known && db.keys.is_some();
    let has_rec = known && db.strong.is_some() && (!partial || has_keys);
    let q = match (&db.strong, has_rec) {
        (Some((_, q, _)), true) => *q,
        _ => fake_exponent::<D>(secret, user),
    };
    let (s, m) = match r {
        Err(e) => {
            cover("server refuses the blinded point");
            ensures("C15,C18|the server refuses only when the salt point is neutral", (blinded * q).is_identity());
            ensures("C15,C18|illegal-point error (blinded point)", e == Error::IllegalPointError);
            return;
        }
        Ok(x) => x,
    };
    ensures("C15,C18|the server refuses a neutral salt point", !(blinded * q).is_identity());
    let (group, x_pub, salt, params) = match m {
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => (group, x_pub, blinded_salt, pbkdf_params),
        _ => dead("C17,C18|the server answers with strong augmentation info"),
    };
    ensures("C18|same group for everybody (strong)", group == "ristretto255");
    ensures("C13,C18|blinded salt = blinded * q, with the stored q or the fixed function of secret and name", salt == blinded * q);
    let x = if !partial {
        let x = Scalar::random(&mut draws);
        ensures("C17,C18,C21|augmentation key = G x for a fresh x (strong)", x_pub == spec::base(&x));
        Some(x)
    } else if let (true, Some((x, k))) = (known, db.keys) {
        ensures("C13,C17|augmentation key = the stored key (strong)", x_pub == k);
        Some(x)
    } else {
        ensures("C18,C21|unknown user: fresh random augmentation key (strong)", x_pub == RistrettoPoint::random(&mut draws));
        None
    };
    let prs = match (x, known, &db.strong) {
        (Some(x), true, Some((w, _, p))) => {
            cover("known user (strong)");
            ensures("C17|known user: stored parameters (strong)", params == *p);
            spec::enc(&(w * x))
        }
        _ => {
            cover("unknown user (strong)");
            ensures("C18|unknown user: default parameters (strong)", params == ParamsString::default());
            nonce(&mut draws)
        }
    };
    finish_server(explicit, s, &ssid, &prs, ci, client_pub, auth, &mut draws)
}

/// C14 to C18, C21: a server and one login, plain.
pub fn server_login<D, R, const K1: usize>(
    explicit: bool, has_rec: bool, user: &[u8], name: &[u8], w: RistrettoPoint, salt: &SaltString, params: &ParamsString,
    client_nonce: [u8; K1], ci: &[u8], client_pub: RistrettoPoint, auth: [u8; 64], rs: R, rl: R,
) where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let mut sdraws = rs.clone();
    let mut server = AuCPaceServer::<D, R, K1>::new(rs);
    let secret = sdraws.next_u64();
    let db = Db { name, rec: if has_rec { Some((w, salt.clone(), params.clone())) } else { None }, strong: None, keys: None };
    login(false, explicit, &mut server, &mut sdraws, secret, user, &db, client_nonce, ci, client_pub, auth, rl)
}
/// the same with partial augmentation
pub fn server_login_partial<D, R, const K1: usize>(
    explicit: bool, has_rec: bool, has_keys: bool, user: &[u8], name: &[u8], w: RistrettoPoint, salt: &SaltString, params: &ParamsString,
    x: Scalar, x_pub: RistrettoPoint, client_nonce: [u8; K1], ci: &[u8], client_pub: RistrettoPoint, auth: [u8; 64], rs: R, rl: R,
) where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let mut sdraws = rs.clone();
    let mut server = AuCPaceServer::<D, R, K1>::new(rs);
    let secret = sdraws.next_u64();
    let db = Db {
        name,
        rec: if has_rec { Some((w, salt.clone(), params.clone())) } else { None },
        strong: None,
        keys: if has_keys { Some((x, x_pub)) } else { None },
    };
    login(true, explicit, &mut server, &mut sdraws, secret, user, &db, client_nonce, ci, client_pub, auth, rl)
}
/// strong
pub fn server_login_strong<D, R, const K1: usize>(
    explicit: bool, has_rec: bool, user: &[u8], name: &[u8], w: RistrettoPoint, q: Scalar, params: &ParamsString, blinded: RistrettoPoint,
    client_nonce: [u8; K1], ci: &[u8], client_pub: RistrettoPoint, auth: [u8; 64], rs: R, rl: R,
) where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let mut sdraws = rs.clone();
    let mut server = AuCPaceServer::<D, R, K1>::new(rs);
    let secret = sdraws.next_u64();
    let db = Db { name, rec: None, strong: if has_rec { Some((w, q, params.clone())) } else { None }, keys: None };
    login_strong(false, explicit, &mut server, &mut sdraws, secret, user, blinded, &db, client_nonce, ci, client_pub, auth, rl)
}
/// strong with partial augmentation
pub fn server_login_partial_strong<D, R, const K1: usize>(
    explicit: bool, has_rec: bool, has_keys: bool, user: &[u8], name: &[u8], w: RistrettoPoint, q: Scalar, params: &ParamsString,
    x: Scalar, x_pub: RistrettoPoint, blinded: RistrettoPoint, client_nonce: [u8; K1], ci: &[u8], client_pub: RistrettoPoint, auth: [u8; 64], rs: R, rl: R,
) where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let mut sdraws = rs.clone();
    let mut server = AuCPaceServer::<D, R, K1>::new(rs);
    let secret = sdraws.next_u64();
    let db = Db {
        name,
        rec: None,
        strong: if has_rec { Some((w, q, params.clone())) } else { None },
        keys: if has_keys { Some((x, x_pub)) } else { None },
    };
    login_strong(true, explicit, &mut server, &mut sdraws, secret, user, blinded, &db, client_nonce, ci, client_pub, auth, rl)
}

/// C18, C21: a second attempt for an unknown user, on the same server, in any variant.
pub fn server_unknown_twice<D, R, const K1: usize>(
    user: &[u8], other: &[u8], client_nonce: [u8; K1], ci: &[u8], client_pub: RistrettoPoint, auth: [u8; 64], blinded: RistrettoPoint, rs: R, r1: R, r2: R,
) where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    requires(user != other);
    let mut sdraws = rs.clone();
    let mut server = AuCPaceServer::<D, R, K1>::new(rs);
    let secret = sdraws.next_u64();
    let db = Db { name: other, rec: None, strong: None, keys: None };
    login(false, false, &mut server, &mut sdraws, secret, user, &db, client_nonce, ci, client_pub, auth, r1.clone());
    login(true, false, &mut server, &mut sdraws, secret, user, &db, client_nonce, ci, client_pub, auth, r2.clone());
    login_strong(false, false, &mut server, &mut sdraws, secret, user, blinded, &db, client_nonce, ci, client_pub, auth, r1);
    login_strong(true, false, &mut server, &mut sdraws, secret, user, blinded, &db, client_nonce, ci, client_pub, auth, r2);
}

/// C14: pre-established SSIDs on the server.
pub fn server_ssid<D, R, const K1: usize>(user: &[u8], ssid: &[u8], ci: &[u8], rs: R, rl: R)
where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let mut server = AuCPaceServer::<D, R, K1>::new(rs);
    match server.begin_prestablished_ssid(ssid) {
        Err(e) => {
            cover("short SSID");
            ensures("C14|the server refuses only short SSIDs", ssid.len() < 16);
            ensures("C14|insecure-SSID error (server)", e == Error::InsecureSsid);
        }
        Ok(s) => {
            ensures("C14|the server refuses every short SSID", ssid.len() >= 16);
            let mut draws = rl.clone();
            let db = Db { name: b"", rec: None, strong: None, keys: None };
            let (s, _) = s.generate_client_info(user, &db, rl);
            let _ = Scalar::random(&mut draws);
            let prs: [u8; 32] = nonce(&mut draws);
            let (_, m) = s.generate_public_key(ci);
            let y = Scalar::random(&mut draws);
            if let ServerMessage::PublicKey(p) = m {
                cover("server SSID used");
                let id = spec::h::<D>(0, &[ssid]);
                ensures("C14|sub-session id = H0(SSID) (server)", p == spec::generator::<D>(&id, &prs, ci) * y);
            }
        }
    }
}

/// C13, C21: long-term key pairs are fresh and consistent.
pub fn server_long_term<D, R, const K1: usize>(rs: R)
where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let mut sdraws = rs.clone();
    let mut server = AuCPaceServer::<D, R, K1>::new(rs);
    let _ = sdraws.next_u64();
    for x in [Scalar::random(&mut sdraws), Scalar::random(&mut sdraws)] {
        let (k, p) = server.generate_long_term_keypair();
        ensures("C13,C21|long-term private key is a fresh draw", k == x);
        ensures("C13|long-term public key = G x", p == spec::base(&x));
    }
    let (a, b): ([u8; K1], [u8; K1]) = (nonce(&mut sdraws), nonce(&mut sdraws));
    for n in [a, b] {
        match server.begin().1 {
            ServerMessage::Nonce(t) => ensures("C21|each session of a server draws its own nonce", t == n),
            _ => dead("C21|the server announces a nonce"),
        }
    }
    cover("long term");
}
