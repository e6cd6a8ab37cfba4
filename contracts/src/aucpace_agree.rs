//! C12, C13: registration followed by login, every variant.
use crate::aucpace_spec::{self as spec, Db};
use crate::ghost::*;
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Error, ServerMessage};
use curve25519_dalek::{digest::consts::U64, digest::Digest, digest::Output, ristretto::RistrettoPoint, traits::IsIdentity};
use password_hash::PasswordHasher;
use rand_core::CryptoRngCore;

type CCp<D, const K1: usize> = aucpace::client::AuCPaceClientCPaceSubstep<D, K1>;
type SCp<D, R, const K1: usize> = aucpace::server::AuCPaceServerCPaceSubstep<D, R, K1>;

/// the CPace half, common to all variants: from equal pairing secrets to equal keys
fn cpace<D, R, const K1: usize>(explicit: bool, ci: &[u8], c: CCp<D, K1>, s: SCp<D, R, K1>, rng: &mut R)
where
    D: Digest<OutputSize = U64> + Default,
    R: CryptoRngCore + Clone,
{
    let (c, mc) = c.generate_public_key(ci, rng);
    let (s, ms) = s.generate_public_key(ci);
    let (pc, ps) = match (mc, ms) {
        (ClientMessage::PublicKey(pc), ServerMessage::PublicKey(ps)) => (pc, ps),
        _ => dead("C12,C13|public keys are announced as public keys"),
    };
    if explicit {
        let rc = c.receive_server_pubkey(ps);
        let rs = s.receive_client_pubkey(pc);
        ensures("C12,C13|the client stops only at a neutral public key", rc.is_ok() || ps.is_identity());
        ensures("C12,C13|the server stops only at a neutral public key", rs.is_ok() || pc.is_identity());
        if let (Ok((c, mc)), Ok(s)) = (rc, rs) {
            let ta = match mc {
                ClientMessage::Authenticator(t) => t,
                _ => dead("C12,C13|the client sends its authenticator"),
            };
            match s.receive_client_authenticator(ta) {
                Ok((sk, ServerMessage::Authenticator(tb))) => match c.receive_server_authenticator(tb) {
                    Ok(k) => {
                        cover("explicit login completes");
                        ensures("C12,C13|explicit: same key", k == sk);
                    }
                    Err(_) => dead("C12,C13|the client accepts the server's authenticator"),
                },
                _ => dead("C12,C13|the server accepts the client's authenticator"),
            }
        }
    } else {
        let rc: Result<Output<D>, Error> = c.implicit_auth(ps);
        let rs = s.implicit_auth(pc);
        ensures("C12,C13|the client stops only at a neutral public key", rc.is_ok() || ps.is_identity());
        ensures("C12,C13|the server stops only at a neutral public key", rs.is_ok() || pc.is_identity());
        if let (Ok(k), Ok(sk)) = (rc, rs) {
            cover("implicit login completes");
            ensures("C12,C13|implicit: same key", k == sk);
        }
    }
}

/// establishing the sub-session id, by nonces or from a given SSID
fn establish<D, H, R, const K1: usize>(
    preset: bool, ssid: &[u8], client: &mut AuCPaceClient<D, H, R, K1>, server: &mut AuCPaceServer<D, R, K1>,
) -> Option<(aucpace::client::AuCPaceClientPreAug<D, H, K1>, aucpace::server::AuCPaceServerAugLayer<D, K1>)>
where
    D: Digest<OutputSize = U64> + Default,
    H: PasswordHasher,
    R: CryptoRngCore,
{
    if preset {
        let c = client.begin_prestablished_ssid(ssid);
        let s = server.begin_prestablished_ssid(ssid);
        ensures("C12,C13,C14|both sides accept the same SSIDs", c.is_ok() == s.is_ok());
        match (c, s) {
            (Ok(c), Ok(s)) => Some((c, s)),
            _ => {
                ensures("C12,C13,C14|only short SSIDs are refused", ssid.len() < 16);
                None
            }
        }
    } else {
        let (c, mc) = client.begin();
        let (s, ms) = server.begin();
        match (mc, ms) {
            (ClientMessage::Nonce(nc), ServerMessage::Nonce(ns)) => Some((c.agree_ssid(ns), s.agree_ssid(nc))),
            _ => dead("C12,C13|nonces are announced as nonces"),
        }
    }
}

/// C12 (and C13 with `partial`): plain salt.
fn plain<D, H, R, const K1: usize, const BUF: usize>(
    partial: bool, reg_heap: bool, login_heap: bool, explicit: bool, preset: bool,
    user: &[u8], pass: &[u8], ssid: &[u8], ci: &[u8], params: H::Params, hasher: H, rc: R, rs: R, rl: R, mut rk: R,
) where
    D: Digest<OutputSize = U64> + Default,
    H: PasswordHasher + Clone,
    R: CryptoRngCore + Clone,
{
    let mut client = AuCPaceClient::<D, H, R, K1>::new(rc);
    let mut server = AuCPaceServer::<D, R, K1>::new(rs);
    let reg = if reg_heap {
        client.register_alloc(user, pass, params.clone(), hasher.clone())
    } else {
        client.register::<_, BUF>(user, pass, params.clone(), hasher.clone())
    };
    let (name, rec) = match reg {
        Ok(ClientMessage::Registration { username, salt, params, verifier }) => (username, (verifier, salt, params)),
        Ok(_) => dead("C12,C13,C20|registration yields a registration message"),
        Err(_) => return,
    };
    let keys = if partial { Some(server.generate_long_term_keypair()) } else { None };
    let db = Db { name, rec: Some(rec), strong: None, keys };
    let (c, s) = match establish(preset, ssid, &mut client, &mut server) {
        Some(x) => x,
        None => return,
    };
    let (c, m) = c.start_augmentation(user, pass);
    let uname = match m {
        ClientMessage::Username(u) => u,
        _ => dead("C12,C13|the client names the user"),
    };
    let (s, m) = if partial {
        s.generate_client_info_partial_aug(uname, &db, rl)
    } else {
        s.generate_client_info(uname, &db, rl)
    };
    let (x_pub, salt) = match m {
        ServerMessage::AugmentationInfo { x_pub, salt, .. } => (x_pub, salt),
        _ => dead("C12,C13|the server sends augmentation info"),
    };
    let c = if login_heap {
        c.generate_cpace_alloc(x_pub, &salt, params, hasher)
    } else {
        c.generate_cpace::<_, BUF>(x_pub, &salt, params, hasher)
    };
    match c {
        Ok(c) => cpace(explicit, ci, c, s, &mut rk),
        Err(e) => ensures(
            "C12,C13|login stops only at a neutral public key (or where the buffer is too small)",
            x_pub.is_identity() || (!login_heap && reg_heap && !spec::fits(user, pass, BUF)) && e == Error::UsernameOrPasswordTooLong,
        ),
    }
}

/// C13: strong, with or without stored key pair.
fn strong<D, H, R, const K1: usize, const BUF: usize>(
    partial: bool, reg_heap: bool, login_heap: bool, explicit: bool, preset: bool,
    user: &[u8], pass: &[u8], ssid: &[u8], ci: &[u8], params: H::Params, hasher: H, rc: R, rs: R, rl: R, mut rk: R,
) where
    D: Digest<OutputSize = U64> + Default,
    H: PasswordHasher + Clone,
    R: CryptoRngCore + Clone,
{
    let mut client = AuCPaceClient::<D, H, R, K1>::new(rc);
    let mut server = AuCPaceServer::<D, R, K1>::new(rs);
    let reg = if reg_heap {
        client.register_alloc_strong(user, pass, params.clone(), hasher.clone())
    } else {
        client.register_strong::<_, BUF>(user, pass, params.clone(), hasher.clone())
    };
    let (name, rec) = match reg {
        Ok(ClientMessage::StrongRegistration { username, secret_exponent, params, verifier }) => (username, (verifier, secret_exponent, params)),
        Ok(_) => dead("C13,C20|registration yields a strong registration message"),
        Err(_) => return,
    };
    let q = rec.1;
    let keys = if partial { Some(server.generate_long_term_keypair()) } else { None };
    let db = Db { name, rec: None, strong: Some(rec), keys };
    let (c, s) = match establish(preset, ssid, &mut client, &mut server) {
        Some(x) => x,
        None => return,
    };
    let (c, m) = c.start_augmentation_strong(user, pass, &mut rk);
    let (uname, blinded) = match m {
        ClientMessage::StrongUsername { username, blinded } => (username, blinded),
        _ => dead("C13|the client names the user and sends the blinded point"),
    };
    let r = if partial {
        s.generate_client_info_partial_strong(uname, blinded, &db, rl)
    } else {
        s.generate_client_info_strong(uname, blinded, &db, rl)
    };
    let neutral_salt = (spec::z::<D>(user, pass) * q).is_identity();
    let (s, m) = match r {
        Ok(x) => x,
        Err(_) => {
            ensures("C13|the server stops only at a neutral point", neutral_salt);
            return;
        }
    };
    let (x_pub, blinded_salt): (RistrettoPoint, RistrettoPoint) = match m {
        ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, .. } => (x_pub, blinded_salt),
        _ => dead("C13|the server sends strong augmentation info"),
    };
    let c = if login_heap {
        c.generate_cpace_alloc(x_pub, blinded_salt, params, hasher)
    } else {
        c.generate_cpace::<BUF>(x_pub, blinded_salt, params, hasher)
    };
    match c {
        Ok(c) => cpace(explicit, ci, c, s, &mut rk),
        Err(e) => ensures(
            "C13|login stops only at a neutral point (or where the buffer is too small)",
            x_pub.is_identity() || neutral_salt || (!login_heap && reg_heap && !spec::fits(user, pass, BUF)) && e == Error::UsernameOrPasswordTooLong,
        ),
    }
}

macro_rules! agreement {
    ($name:ident, $f:ident, $partial:expr) => {
        pub fn $name<D, H, R, const K1: usize, const BUF: usize>(
            reg_heap: bool, login_heap: bool, explicit: bool, preset: bool,
            user: &[u8], pass: &[u8], ssid: &[u8], ci: &[u8], params: H::Params, hasher: H, rc: R, rs: R, rl: R, rk: R,
        ) where
            D: Digest<OutputSize = U64> + Default,
            H: PasswordHasher + Clone,
            R: CryptoRngCore + Clone,
        {
            $f::<D, H, R, K1, BUF>($partial, reg_heap, login_heap, explicit, preset, user, pass, ssid, ci, params, hasher, rc, rs, rl, rk)
        }
    };
}
agreement!(aucpace_agreement, plain, false);
agreement!(aucpace_agreement_partial, plain, true);
agreement!(aucpace_agreement_strong, strong, false);
agreement!(aucpace_agreement_partial_strong, strong, true);
