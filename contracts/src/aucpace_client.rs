//! Contracts of the AuCPace client against an arbitrary peer: SSID rules, password hashing, neutral points,
//! key schedule, authenticators, registration, fresh draws.
use crate::aucpace_spec as spec;
use crate::ghost::*;
use aucpace::{client::*, AuCPaceClient, ClientMessage, Error};
use curve25519_dalek::{digest::consts::U64, digest::Digest, ristretto::RistrettoPoint, scalar::Scalar, traits::IsIdentity};
use password_hash::{ParamsString, PasswordHasher, SaltString};
use rand_core::CryptoRngCore;
use std::convert::TryInto;

fn nonce<R: CryptoRngCore, const K1: usize>(r: &mut R) -> [u8; K1] {
    let mut n = [0u8; K1];
    r.fill_bytes(&mut n);
    n
}

/// C17, C16, C15, C21: from a pairing secret to keys and authenticators.
fn finish_client<D, R, const K1: usize>(
    explicit: bool, c: AuCPaceClientCPaceSubstep<D, K1>, ssid: &[u8], prs: &[u8], ci: &[u8], server_pub: RistrettoPoint, auth: [u8; 64], rng: &mut R,
) where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let mut draws = rng.clone();
    let (c, m) = c.generate_public_key(ci, rng);
    let y = Scalar::random(&mut draws);
    match m {
        ClientMessage::PublicKey(p) => ensures("C14,C17,C19,C21|client public key = map(H1(ssid, prs, ci)) * fresh scalar", p == spec::generator::<D>(ssid, prs, ci) * y),
        _ => dead("C17|the client announces a public key"),
    }
    let sk1 = spec::sk1::<D>(ssid, &y, &server_pub);
    let sk = spec::h::<D>(5, &[ssid, &sk1]);
    if explicit {
        match c.receive_server_pubkey(server_pub) {
            Err(e) => {
                cover("client refuses the public key");
                ensures("C15|the client refuses only a neutral public key (explicit)", server_pub.is_identity());
                ensures("C15|illegal-point error (explicit)", e == Error::IllegalPointError);
            }
            Ok((c, m)) => {
                ensures("C15|the client refuses a neutral public key (explicit)", !server_pub.is_identity());
                match m {
                    ClientMessage::Authenticator(t) => ensures("C16,C17|client authenticator = H4(ssid, sk1)", t[..] == spec::h::<D>(4, &[ssid, &sk1])[..]),
                    _ => dead("C16|the client sends its authenticator"),
                }
                let expect = spec::h::<D>(3, &[ssid, &sk1]);
                hint("auth", &expect);
                ct_begin("C23|the verification step shows only whether the server's authenticator is right", &expect, &auth, &[&sk1]);
                let r = c.receive_server_authenticator(auth);
                ct_end();
                match r {
                    Ok(k) => {
                        cover("client accepts the authenticator");
                        ensures("C16|the client accepts only H3(ssid, sk1)", auth[..] == expect[..]);
                        ensures("C17|session key = H5(ssid, sk1) (explicit)", k == sk);
                    }
                    Err(e) => {
                        cover("client refuses the authenticator");
                        ensures("C16|the client accepts H3(ssid, sk1)", auth[..] != expect[..]);
                        ensures("C16|mutual-authentication error", e == Error::MutualAuthFail);
                    }
                }
            }
        }
    } else {
        match c.implicit_auth(server_pub) {
            Err(e) => {
                cover("client refuses the public key (implicit)");
                ensures("C15|the client refuses only a neutral public key (implicit)", server_pub.is_identity());
                ensures("C15|illegal-point error (implicit)", e == Error::IllegalPointError);
            }
            Ok(k) => {
                cover("client completes (implicit)");
                ensures("C15|the client refuses a neutral public key (implicit)", !server_pub.is_identity());
                ensures("C17|session key = H5(ssid, sk1) (implicit)", k == sk);
            }
        }
    }
}

/// C14, C15, C16, C17, C19, C21: plain login.
pub fn client_login<D, H, R, const K1: usize, const BUF: usize>(
    heap: bool, explicit: bool, user: &[u8], pass: &[u8], server_nonce: [u8; K1], ci: &[u8], salt: &SaltString,
    params: H::Params, hasher: H, x_pub: RistrettoPoint, server_pub: RistrettoPoint, auth: [u8; 64], rc: R, mut rk: R,
) where
    D: Digest<OutputSize = U64> + Default,
    H: PasswordHasher + Clone,
    R: CryptoRngCore + Clone,
{
    let mut draws = rc.clone();
    let mut client = AuCPaceClient::<D, H, R, K1>::new(rc);
    let (c, m) = client.begin();
    let n: [u8; K1] = nonce(&mut draws);
    match m {
        ClientMessage::Nonce(t) => ensures("C21,C17|client nonce is a fresh full-width draw", t == n),
        _ => dead("C17|the client announces a nonce"),
    }
    let c = c.agree_ssid(server_nonce);
    let ssid = spec::h::<D>(0, &[&server_nonce, &n]);
    let (c, m) = c.start_augmentation(user, pass);
    match m {
        ClientMessage::Username(u) => ensures("C17|the client sends its username", u == user),
        _ => dead("C17|the client sends its username"),
    }
    let w = spec::w(user, pass, salt.as_salt(), params.clone(), &hasher);
    let r = if heap { c.generate_cpace_alloc(x_pub, salt, params, hasher) } else { c.generate_cpace::<_, BUF>(x_pub, salt, params, hasher) };
    match r {
        Err(e) => {
            cover("client stops");
            if x_pub.is_identity() {
                ensures("C15|neutral augmentation key: illegal-point error", e == Error::IllegalPointError);
            } else if !heap && !spec::fits(user, pass, BUF) {
                ensures("C19|too long for the buffer: its own error", e == Error::UsernameOrPasswordTooLong);
            } else {
                match w {
                    Ok(_) => dead("C15,C19|no other reason to stop"),
                    Err(want) => ensures("C15,C19|hashing failures keep their own error", e == want),
                }
            }
        }
        Ok(c) => {
            ensures("C15|the client refuses a neutral augmentation key", !x_pub.is_identity());
            ensures("C19|the client refuses what does not fit", heap || spec::fits(user, pass, BUF));
            match w {
                Ok(w) => finish_client(explicit, c, &ssid, &spec::enc(&(x_pub * w)), ci, server_pub, auth, &mut rk),
                Err(_) => dead("C19|a failed hash stops the login"),
            }
        }
    }
}

/// C15, C17, C19, C21 for strong AuCPace.
pub fn client_login_strong<D, H, R, const K1: usize, const BUF: usize>(
    heap: bool, explicit: bool, user: &[u8], pass: &[u8], server_nonce: [u8; K1], ci: &[u8], blinded_salt: RistrettoPoint,
    params: H::Params, hasher: H, x_pub: RistrettoPoint, server_pub: RistrettoPoint, auth: [u8; 64], rc: R, mut rb: R, mut rk: R,
) where
    D: Digest<OutputSize = U64> + Default,
    H: PasswordHasher + Clone,
    R: CryptoRngCore + Clone,
{
    let mut draws = rc.clone();
    let mut client = AuCPaceClient::<D, H, R, K1>::new(rc);
    let (c, _) = client.begin();
    let n: [u8; K1] = nonce(&mut draws);
    let c = c.agree_ssid(server_nonce);
    let ssid = spec::h::<D>(0, &[&server_nonce, &n]);
    let mut bdraws = rb.clone();
    let r = Scalar::random(&mut bdraws);
    requires(r != Scalar::ZERO);
    let (c, m) = c.start_augmentation_strong(user, pass, &mut rb);
    match m {
        ClientMessage::StrongUsername { username, blinded } => {
            ensures("C17|the client sends its username (strong)", username == user);
            ensures("C13,C17,C21|blinded point = map(H1(username, password)) * fresh non-zero scalar", blinded == spec::z::<D>(user, pass) * r);
        }
        _ => dead("C17|the client sends its username and the blinded point"),
    }
    let salt_point = blinded_salt * r.invert();
    let salt = SaltString::encode_b64(&spec::enc(&salt_point)).unwrap();
    let w = spec::w(user, pass, salt.as_salt(), params.clone(), &hasher);
    let res = if heap { c.generate_cpace_alloc(x_pub, blinded_salt, params, hasher) } else { c.generate_cpace::<BUF>(x_pub, blinded_salt, params, hasher) };
    match res {
        Err(e) => {
            cover("strong client stops");
            if x_pub.is_identity() || salt_point.is_identity() {
                ensures("C15|neutral augmentation key or salt point: illegal-point error", e == Error::IllegalPointError);
            } else if !heap && !spec::fits(user, pass, BUF) {
                ensures("C19|too long for the buffer: its own error", e == Error::UsernameOrPasswordTooLong);
            } else {
                match w {
                    Ok(_) => dead("C15,C19|no other reason to stop"),
                    Err(want) => ensures("C15,C19|hashing failures keep their own error", e == want),
                }
            }
        }
        Ok(c) => {
            ensures("C15|the client refuses a neutral augmentation key (strong)", !x_pub.is_identity());
            ensures("C15|the client refuses a neutral salt point", !salt_point.is_identity());
            ensures("C19|the client refuses what does not fit", heap || spec::fits(user, pass, BUF));
            match w {
                Ok(w) => finish_client(explicit, c, &ssid, &spec::enc(&(x_pub * w)), ci, server_pub, auth, &mut rk),
                Err(_) => dead("C19|a failed hash stops the login"),
            }
        }
    }
}

/// C21: the blinding value is never zero, however often the generator yields zero first.
pub fn client_blinding_nonzero<D, H, R, const K1: usize>(user: &[u8], pass: &[u8], ssid: &[u8], rc: R, mut rb: R)
where
    D: Digest<OutputSize = U64> + Default,
    H: PasswordHasher,
    R: CryptoRngCore + Clone,
{
    let mut client = AuCPaceClient::<D, H, R, K1>::new(rc);
    if let Ok(c) = client.begin_prestablished_ssid(ssid) {
        let (_, m) = c.start_augmentation_strong(user, pass, &mut rb);
        if let ClientMessage::StrongUsername { blinded, .. } = m {
            cover("blinded");
            ensures("C21|a zero blinding value is never used", !blinded.is_identity() || spec::z::<D>(user, pass).is_identity());
        }
    }
}

/// C14: pre-established SSIDs on the client.
pub fn client_ssid<D, H, R, const K1: usize>(
    user: &[u8], pass: &[u8], ssid: &[u8], ci: &[u8], salt: &SaltString, params: H::Params, hasher: H, x_pub: RistrettoPoint, rc: R, mut rk: R,
) where
    D: Digest<OutputSize = U64> + Default,
    H: PasswordHasher + Clone,
    R: CryptoRngCore + Clone,
{
    let mut client = AuCPaceClient::<D, H, R, K1>::new(rc);
    match client.begin_prestablished_ssid(ssid) {
        Err(e) => {
            cover("short SSID");
            ensures("C14|the client refuses only short SSIDs", ssid.len() < 16);
            ensures("C14|insecure-SSID error (client)", e == Error::InsecureSsid);
        }
        Ok(c) => {
            ensures("C14|the client refuses every short SSID", ssid.len() >= 16);
            let (c, _) = c.start_augmentation(user, pass);
            let w = spec::w(user, pass, salt.as_salt(), params.clone(), &hasher);
            if let (Ok(c), Ok(w)) = (c.generate_cpace_alloc(x_pub, salt, params, hasher), w) {
                let mut draws = rk.clone();
                let (_, m) = c.generate_public_key(ci, &mut rk);
                let y = Scalar::random(&mut draws);
                if let ClientMessage::PublicKey(p) = m {
                    cover("client SSID used");
                    let id = spec::h::<D>(0, &[ssid]);
                    ensures("C14|sub-session id = H0(SSID) (client)", p == spec::generator::<D>(&id, &spec::enc(&(x_pub * w)), ci) * y);
                }
            }
        }
    }
}

/// C19, C20, C21: registration, plain.
pub fn client_register<D, H, R, const K1: usize, const BUF: usize>(heap: bool, user: &[u8], pass: &[u8], params: H::Params, hasher: H, rc: R)
where
    D: Digest<OutputSize = U64> + Default,
    H: PasswordHasher + Clone,
    R: CryptoRngCore + Clone,
{
    let mut draws = rc.clone();
    let mut client = AuCPaceClient::<D, H, R, K1>::new(rc);
    let want_salt = SaltString::generate(&mut draws);
    let w = spec::w(user, pass, want_salt.as_salt(), params.clone(), &hasher);
    let p: std::result::Result<ParamsString, _> = params.clone().try_into();
    let r = if heap { client.register_alloc(user, pass, params, hasher) } else { client.register::<_, BUF>(user, pass, params, hasher) };
    match r {
        Ok(ClientMessage::Registration { username, salt, params, verifier }) => {
            cover("registers");
            ensures("C20|the registration names the user", username == user);
            ensures("C20,C21|salt is the fresh salt", salt == want_salt);
            match p {
                Ok(p) => ensures("C20|the registration carries the parameters used", params == p),
                Err(_) => dead("C20|unprintable parameters stop the registration"),
            }
            match w {
                Ok(w) => ensures("C19,C20|verifier = G w", verifier == spec::base(&w)),
                Err(_) => dead("C19,C20|a failed hash stops the registration"),
            }
            ensures("C19|registration refuses what does not fit", heap || spec::fits(user, pass, BUF));
        }
        Ok(_) => dead("C20|registration yields a registration message"),
        Err(e) => {
            cover("registration stops");
            if !heap && !spec::fits(user, pass, BUF) {
                ensures("C19|registration: too long for the buffer", e == Error::UsernameOrPasswordTooLong);
            } else {
                match (w, p) {
                    (Ok(_), Ok(_)) => dead("C19,C20|no other reason to stop"),
                    (Err(want), _) => ensures("C19|registration: hashing failures keep their own error", e == want),
                    (_, Err(pe)) => ensures("C19|registration: unprintable parameters", e == Error::PasswordHashing(pe)),
                }
            }
        }
    }
}

/// C19, C20, C21: registration, strong.
pub fn client_register_strong<D, H, R, const K1: usize, const BUF: usize>(heap: bool, user: &[u8], pass: &[u8], params: H::Params, hasher: H, rc: R)
where
    D: Digest<OutputSize = U64> + Default,
    H: PasswordHasher + Clone,
    R: CryptoRngCore + Clone,
{
    let mut draws = rc.clone();
    let mut client = AuCPaceClient::<D, H, R, K1>::new(rc);
    let q = Scalar::random(&mut draws);
    let salt = SaltString::encode_b64(&spec::enc(&(spec::z::<D>(user, pass) * q))).unwrap();
    let w = spec::w(user, pass, salt.as_salt(), params.clone(), &hasher);
    let p: std::result::Result<ParamsString, _> = params.clone().try_into();
    let r = if heap { client.register_alloc_strong(user, pass, params, hasher) } else { client.register_strong::<_, BUF>(user, pass, params, hasher) };
    match r {
        Ok(ClientMessage::StrongRegistration { username, secret_exponent, params, verifier }) => {
            cover("registers (strong)");
            ensures("C20|the strong registration names the user", username == user);
            ensures("C20,C21|secret exponent is a fresh draw", secret_exponent == q);
            match p {
                Ok(p) => ensures("C20|the strong registration carries the parameters used", params == p),
                Err(_) => dead("C20|unprintable parameters stop the registration"),
            }
            match w {
                Ok(w) => ensures("C19,C20|verifier = G w (strong)", verifier == spec::base(&w)),
                Err(_) => dead("C19,C20|a failed hash stops the registration"),
            }
            ensures("C19|strong registration refuses what does not fit", heap || spec::fits(user, pass, BUF));
        }
        Ok(_) => dead("C20|strong registration yields a strong registration message"),
        Err(e) => {
            cover("strong registration stops");
            if !heap && !spec::fits(user, pass, BUF) {
                ensures("C19|strong registration: too long for the buffer", e == Error::UsernameOrPasswordTooLong);
            } else {
                match (w, p) {
                    (Ok(_), Ok(_)) => dead("C19,C20|no other reason to stop"),
                    (Err(want), _) => ensures("C19|strong registration: hashing failures keep their own error", e == want),
                    (_, Err(pe)) => ensures("C19|strong registration: unprintable parameters", e == Error::PasswordHashing(pe)),
                }
            }
        }
    }
}

/// C21: two sessions of one client use different draws.
pub fn client_two_sessions<D, H, R, const K1: usize>(rc: R)
where
    D: Digest<OutputSize = U64> + Default,
    H: PasswordHasher,
    R: CryptoRngCore + Clone,
{
    let mut draws = rc.clone();
    let mut client = AuCPaceClient::<D, H, R, K1>::new(rc);
    let (n1, n2): ([u8; K1], [u8; K1]) = (nonce(&mut draws), nonce(&mut draws));
    for n in [n1, n2] {
        match client.begin().1 {
            ClientMessage::Nonce(t) => ensures("C21|each session of a client draws its own nonce", t == n),
            _ => dead("C21|the client announces a nonce"),
        }
    }
    cover("two sessions");
}
