//! C22: messages survive serialisation; malformed ones are refused.
use crate::ghost::*;
use crate::{binary, hostile, tokens};
use aucpace::{ClientMessage, ServerMessage};
use curve25519_dalek::{ristretto::RistrettoPoint, scalar::Scalar};
use password_hash::{ParamsString, SaltString};
use rand_core::CryptoRngCore;

/// what came out of a format is the message that went in
macro_rules! survives {
    ($what:literal, $ty:ty, $m:expr, $write:path, $read:path, $same:expr) => {{
        let w = match $write($m, None) {
            Ok(w) => w,
            Err(_) => dead(concat!("C22|", $what, " can be written")),
        };
        match $read(&w) {
            Ok(r) => {
                let r: $ty = r;
                cover(concat!($what, " is read back"));
                ensures(concat!("C22|", $what, " is read as it was written"), $same(r));
            }
            Err(_) => dead(concat!("C22|", $what, " that was written can be read")),
        }
    }};
}

/// a compact format (bincode, postcard)
pub fn aucpace_client_message_binary<const K1: usize>(
    which: u8, nonce: [u8; K1], username: &[u8], point: RistrettoPoint, auth: [u8; 64], salt: SaltString, params: ParamsString, exponent: Scalar, verifier: RistrettoPoint,
) {
    type M<'a, const K1: usize> = ClientMessage<'a, K1>;
    match which {
        0 => survives!("a client nonce message (binary)", M<'_, K1>, &M::<K1>::Nonce(nonce), binary::write, binary::read, |r| matches!(r, M::<K1>::Nonce(n) if n == nonce)),
        1 => survives!("a username message (binary)", M<'_, K1>, &M::<K1>::Username(username), binary::write, binary::read, |r| matches!(r, M::<K1>::Username(u) if u == username)),
        2 => survives!("a strong username message (binary)", M<'_, K1>, &M::<K1>::StrongUsername { username, blinded: point }, binary::write, binary::read,
            |r| matches!(r, M::<K1>::StrongUsername { username: u, blinded } if u == username && blinded == point)),
        3 => survives!("a client public key message (binary)", M<'_, K1>, &M::<K1>::PublicKey(point), binary::write, binary::read, |r| matches!(r, M::<K1>::PublicKey(p) if p == point)),
        4 => survives!("a client authenticator message (binary)", M<'_, K1>, &M::<K1>::Authenticator(auth), binary::write, binary::read, |r| matches!(r, M::<K1>::Authenticator(a) if a == auth)),
        5 => survives!("a registration message (binary)", M<'_, K1>, &M::<K1>::Registration { username, salt: salt.clone(), params: params.clone(), verifier }, binary::write, binary::read,
            |r| matches!(r, M::<K1>::Registration { username: u, salt: s, params: p, verifier: v } if u == username && s == salt && p == params && v == verifier)),
        _ => survives!("a strong registration message (binary)", M<'_, K1>, &M::<K1>::StrongRegistration { username, secret_exponent: exponent, params: params.clone(), verifier }, binary::write, binary::read,
            |r| matches!(r, M::<K1>::StrongRegistration { username: u, secret_exponent: e, params: p, verifier: v } if u == username && e == exponent && p == params && v == verifier)),
    }
}

pub fn aucpace_server_message_binary<const K1: usize>(
    which: u8, nonce: [u8; K1], group: &str, point: RistrettoPoint, auth: [u8; 64], salt: SaltString, params: ParamsString, blinded: RistrettoPoint,
) {
    type M<'a, const K1: usize> = ServerMessage<'a, K1>;
    match which {
        0 => survives!("a server nonce message (binary)", M<'_, K1>, &M::<K1>::Nonce(nonce), binary::write, binary::read, |r| matches!(r, M::<K1>::Nonce(n) if n == nonce)),
        1 => survives!("an augmentation message (binary)", M<'_, K1>, &M::<K1>::AugmentationInfo { group, x_pub: point, salt: salt.clone(), pbkdf_params: params.clone() }, binary::write, binary::read,
            |r| matches!(r, M::<K1>::AugmentationInfo { group: g, x_pub, salt: s, pbkdf_params: p } if g == group && x_pub == point && s == salt && p == params)),
        2 => survives!("a strong augmentation message (binary)", M<'_, K1>, &M::<K1>::StrongAugmentationInfo { group, x_pub: point, blinded_salt: blinded, pbkdf_params: params.clone() }, binary::write, binary::read,
            |r| matches!(r, M::<K1>::StrongAugmentationInfo { group: g, x_pub, blinded_salt: b, pbkdf_params: p } if g == group && x_pub == point && b == blinded && p == params)),
        3 => survives!("a server public key message (binary)", M<'_, K1>, &M::<K1>::PublicKey(point), binary::write, binary::read, |r| matches!(r, M::<K1>::PublicKey(p) if p == point)),
        _ => survives!("a server authenticator message (binary)", M<'_, K1>, &M::<K1>::Authenticator(auth), binary::write, binary::read, |r| matches!(r, M::<K1>::Authenticator(a) if a == auth)),
    }
}

/// a format with names (JSON, CBOR); there a borrowed byte string is not read back, so user names are left out
pub fn aucpace_messages_named<const K1: usize>(
    which: u8, nonce: [u8; K1], group: &str, point: RistrettoPoint, auth: [u8; 64], salt: SaltString, params: ParamsString, blinded: RistrettoPoint,
) {
    type C<'a, const K1: usize> = ClientMessage<'a, K1>;
    type S<'a, const K1: usize> = ServerMessage<'a, K1>;
    match which {
        0 => survives!("a server nonce message (named)", S<'_, K1>, &S::<K1>::Nonce(nonce), tokens::write, tokens::read, |r| matches!(r, S::<K1>::Nonce(n) if n == nonce)),
        1 => survives!("an augmentation message (named)", S<'_, K1>, &S::<K1>::AugmentationInfo { group, x_pub: point, salt: salt.clone(), pbkdf_params: params.clone() }, tokens::write, tokens::read,
            |r| matches!(r, S::<K1>::AugmentationInfo { group: g, x_pub, salt: s, pbkdf_params: p } if g == group && x_pub == point && s == salt && p == params)),
        2 => survives!("a strong augmentation message (named)", S<'_, K1>, &S::<K1>::StrongAugmentationInfo { group, x_pub: point, blinded_salt: blinded, pbkdf_params: params.clone() }, tokens::write, tokens::read,
            |r| matches!(r, S::<K1>::StrongAugmentationInfo { group: g, x_pub, blinded_salt: b, pbkdf_params: p } if g == group && x_pub == point && b == blinded && p == params)),
        3 => survives!("a server public key message (named)", S<'_, K1>, &S::<K1>::PublicKey(point), tokens::write, tokens::read, |r| matches!(r, S::<K1>::PublicKey(p) if p == point)),
        4 => survives!("a server authenticator message (named)", S<'_, K1>, &S::<K1>::Authenticator(auth), tokens::write, tokens::read, |r| matches!(r, S::<K1>::Authenticator(a) if a == auth)),
        5 => survives!("a client nonce message (named)", C<'_, K1>, &C::<K1>::Nonce(nonce), tokens::write, tokens::read, |r| matches!(r, C::<K1>::Nonce(n) if n == nonce)),
        6 => survives!("a client public key message (named)", C<'_, K1>, &C::<K1>::PublicKey(point), tokens::write, tokens::read, |r| matches!(r, C::<K1>::PublicKey(p) if p == point)),
        _ => survives!("a client authenticator message (named)", C<'_, K1>, &C::<K1>::Authenticator(auth), tokens::write, tokens::read, |r| matches!(r, C::<K1>::Authenticator(a) if a == auth)),
    }
}

/// the messages with user names in such a format: a known finding (known-findings.json), as serde writes a borrowed byte
/// string as a sequence of numbers but reads it only as one borrowed byte string
pub fn aucpace_user_names_named<const K1: usize>(which: u8, name: [u8; 3], point: RistrettoPoint, salt: SaltString, params: ParamsString, exponent: Scalar) {
    let username = &name[..];
    type M<'a, const K1: usize> = ClientMessage<'a, K1>;
    let m = match which {
        0 => M::<K1>::Username(username),
        1 => M::<K1>::StrongUsername { username, blinded: point },
        2 => M::<K1>::Registration { username, salt: salt.clone(), params: params.clone(), verifier: point },
        _ => M::<K1>::StrongRegistration { username, secret_exponent: exponent, params: params.clone(), verifier: point },
    };
    match tokens::write(&m, None) {
        Ok(w) => ensures("C22|a message with a user name, written by a format with names, can be read again", tokens::read::<M<'_, K1>>(&w).is_ok()),
        Err(_) => dead("C22|a message with a user name can be written"),
    }
}

/// salt and parameter strings are checked when a message is read
pub fn aucpace_malformed_strings(which: u8, text: &str, point: RistrettoPoint, salt: SaltString, params: ParamsString) {
    type C<'a> = ClientMessage<'a, 16>;
    type S<'a> = ServerMessage<'a, 16>;
    let is_salt = which % 2 == 0;
    let want = if is_salt { SaltString::from_b64(text).is_ok() } else { text.parse::<ParamsString>().is_ok() };
    let got = if which < 2 {
        let m = S::AugmentationInfo { group: "", x_pub: point, salt: salt.clone(), pbkdf_params: params.clone() };
        match binary::write(&m, Some((if is_salt { "salt" } else { "pbkdf_params" }, text))) {
            Ok(w) => binary::read::<S<'_>>(&w).is_ok(),
            Err(_) => dead("C22|a message can be written"),
        }
    } else if which < 4 {
        let m = S::AugmentationInfo { group: "", x_pub: point, salt: salt.clone(), pbkdf_params: params.clone() };
        match tokens::write(&m, Some((if is_salt { "salt" } else { "pbkdf_params" }, text))) {
            Ok(w) => tokens::read::<S<'_>>(&w).is_ok(),
            Err(_) => dead("C22|a message can be written"),
        }
    } else {
        let m = C::Registration { username: b"", salt: salt.clone(), params: params.clone(), verifier: point };
        match binary::write(&m, Some((if is_salt { "salt" } else { "params" }, text))) {
            Ok(w) => binary::read::<C<'_>>(&w).is_ok(),
            Err(_) => dead("C22|a message can be written"),
        }
    };
    if is_salt {
        ensures("C22|malformed salts are refused, well-formed ones read", got == want);
    } else {
        ensures("C22|malformed parameters are refused, well-formed ones read", got == want);
    }
}

/// no answer of any format makes reading a message panic
pub fn aucpace_any_answers_as_message<R: CryptoRngCore, const K1: usize>(server: bool, texts: [&str; 4], raw: &[u8], by: u8, stop: u64, end: bool, mut any: R) {
    let mut w = hostile::World { any: &mut any, texts, raw, by, stop, end, answers: 0, used: 0 };
    if server {
        if hostile::read::<ServerMessage<'_, K1>, R>(&mut w).is_ok() {
            cover("some answers make a server message");
        }
    } else if hostile::read::<ClientMessage<'_, K1>, R>(&mut w).is_ok() {
        cover("some answers make a client message");
    }
}
