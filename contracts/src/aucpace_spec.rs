//! AuCPace (draft-haase-aucpace) over ristretto255 as the crate documents it.
use aucpace::{Database, Error, PartialAugDatabase, Result, StrongDatabase};
use curve25519_dalek::{
    constants::RISTRETTO_BASEPOINT_POINT, digest::consts::U64, digest::Digest, digest::Output, ristretto::RistrettoPoint, scalar::Scalar,
};
use password_hash::{ParamsString, PasswordHasher, Salt, SaltString};

/// H_n(parts) = D(n as 4 little-endian bytes | parts)
pub fn h<D: Digest<OutputSize = U64> + Default>(n: u8, parts: &[&[u8]]) -> Output<D> {
    hash_of::<D>(n, parts).finalize()
}
fn hash_of<D: Digest<OutputSize = U64> + Default>(n: u8, parts: &[&[u8]]) -> D {
    let mut d = D::default();
    d.update([n, 0, 0, 0]);
    for p in parts {
        d.update(p);
    }
    d
}
pub fn hash_point<D: Digest<OutputSize = U64> + Default>(n: u8, parts: &[&[u8]]) -> RistrettoPoint {
    RistrettoPoint::from_hash(hash_of::<D>(n, parts))
}
pub fn enc(p: &RistrettoPoint) -> [u8; 32] {
    p.compress().to_bytes()
}
pub fn base(s: &Scalar) -> RistrettoPoint {
    RISTRETTO_BASEPOINT_POINT * s
}
/// sk1 = H2(ssid, enc(peer * priv))
pub fn sk1<D: Digest<OutputSize = U64> + Default>(ssid: &[u8], private: &Scalar, peer: &RistrettoPoint) -> Output<D> {
    h::<D>(2, &[ssid, &enc(&(peer * private))])
}
/// g = map(H1(ssid, prs, ci))
pub fn generator<D: Digest<OutputSize = U64> + Default>(ssid: &[u8], prs: &[u8], ci: &[u8]) -> RistrettoPoint {
    hash_point::<D>(1, &[ssid, prs, ci])
}
/// Z = map(H1(username, password))
pub fn z<D: Digest<OutputSize = U64> + Default>(user: &[u8], pass: &[u8]) -> RistrettoPoint {
    hash_point::<D>(1, &[user, pass])
}
/// the scalar w of the password, or the error that is due
pub fn w<H: PasswordHasher>(user: &[u8], pass: &[u8], salt: Salt<'_>, params: H::Params, hasher: &H) -> Result<Scalar> {
    let mut input = user.to_vec();
    input.push(b':');
    input.extend_from_slice(pass);
    let hash = match hasher.hash_password_customized(&input, None, None, params, salt) {
        Ok(h) => h,
        Err(e) => return Err(Error::PasswordHashing(e)),
    };
    let out = match hash.hash {
        Some(o) => o,
        None => return Err(Error::HashEmpty),
    };
    let b = out.as_bytes();
    if b.len() == 32 {
        let mut a = [0u8; 32];
        a.copy_from_slice(b);
        Ok(Scalar::from_bytes_mod_order(a))
    } else if b.len() == 64 {
        let mut a = [0u8; 64];
        a.copy_from_slice(b);
        Ok(Scalar::from_bytes_mod_order_wide(&a))
    } else {
        Err(Error::HashSizeInvalid)
    }
}
/// a neutral generator (all Diffie-Hellman values neutral) is excluded where completion is promised
pub fn fits(user: &[u8], pass: &[u8], buf: usize) -> bool {
    user.len() + pass.len() < buf
}

/// A database with at most one user, who may or may not have each kind of record.
pub struct Db<'a> {
    pub name: &'a [u8],
    pub rec: Option<(RistrettoPoint, SaltString, ParamsString)>,
    pub strong: Option<(RistrettoPoint, Scalar, ParamsString)>,
    pub keys: Option<(Scalar, RistrettoPoint)>,
}
impl Database for Db<'_> {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, username: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> {
        if username == self.name {
            self.rec.clone()
        } else {
            None
        }
    }
    fn store_verifier(&mut self, _: &[u8], _: SaltString, _: Option<&[u8]>, _: RistrettoPoint, _: ParamsString) {}
}
impl StrongDatabase for Db<'_> {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, username: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> {
        if username == self.name {
            self.strong.clone()
        } else {
            None
        }
    }
    fn store_verifier_strong(&mut self, _: &[u8], _: Option<&[u8]>, _: RistrettoPoint, _: Scalar, _: ParamsString) {}
}
impl PartialAugDatabase for Db<'_> {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, username: &[u8]) -> Option<(Scalar, RistrettoPoint)> {
        if username == self.name {
            self.keys
        } else {
            None
        }
    }
    fn store_long_term_keypair(&mut self, _: &[u8], _: Scalar, _: RistrettoPoint) -> Result<()> {
        Ok(())
    }
}
