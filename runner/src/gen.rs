//! Deterministic input generation: everything a case uses is a function of its 64-bit seed.
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT, ristretto::{CompressedRistretto, RistrettoPoint}, scalar::Scalar, traits::Identity};
use digest::{FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use num_bigint::BigUint;
use password_hash::{Decimal, Error, Ident, ParamsString, PasswordHash, PasswordHasher, Result, Salt, SaltString};
use rand_core::{CryptoRng, RngCore};
use sha2::{Digest, Sha512};
use std::collections::HashMap;

pub struct Dict {
    pub ints: Vec<u64>,
    pub bytes: Vec<Vec<u8>>,
}

pub struct G<'a> {
    s: u64,
    pub log: Vec<(String, String)>,
    pub dict: &'a Dict,
    pub hints: HashMap<&'static str, Vec<u8>>,
    /// use hints as they are
    pub forced: bool,
    pub long: bool,
    pool: Vec<Vec<u8>>,
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(96).map(|x| format!("{x:02x}")).collect();
    if b.len() > 96 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

impl<'a> G<'a> {
    pub fn new(seed: u64, dict: &'a Dict) -> Self {
        G { s: seed ^ 0x9e37_79b9_7f4a_7c15, log: vec![], dict, hints: HashMap::new(), forced: false, pool: vec![], long: true }
    }
    pub fn u(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u() % n.max(1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn flag(&mut self, name: &str) -> bool {
        let b = self.chance(50);
        self.note(name, format!("{b}"));
        b
    }
    pub fn note(&mut self, name: &str, v: String) {
        self.log.push((name.into(), v));
    }
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u() as u8).collect()
    }
    pub fn len(&mut self) -> usize {
        const L: [usize; 32] = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 24, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 66, 99, 100, 127, 128, 129, 255, 256, 300];
        if !self.dict.ints.is_empty() && self.chance(25) {
            let v = self.dict.ints[self.below(self.dict.ints.len() as u64) as usize];
            if v <= 5000 {
                return (v as i64 + self.below(3) as i64 - 1).max(0) as usize;
            }
        }
        // lengths that do not fit into 16 bits, now and then
        if self.long && self.below(500) == 0 {
            return 65536 + self.below(130) as usize;
        }
        if self.chance(60) {
            self.below(14) as usize
        } else {
            L[self.below(32) as usize]
        }
    }
    fn content(&mut self, n: usize) -> Vec<u8> {
        match self.below(10) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let mut v = self.fill(n);
                let k = self.below(n as u64 + 1) as usize;
                v[..k].iter_mut().for_each(|x| *x = 0);
                v
            }
            3 | 4 => (0..n).map(|_| b"abAB01:, \n"[self.below(10) as usize]).collect(),
            5 => {
                let mut v = self.fill(n);
                let k = self.below(n as u64 + 1) as usize;
                v[k..].iter_mut().for_each(|x| *x = 0);
                v
            }
            _ => self.fill(n),
        }
    }
    fn pick(&mut self) -> Vec<u8> {
        let i = self.below(self.pool.len() as u64) as usize;
        self.pool[i].clone()
    }
    /// an arbitrary byte string, related to the earlier ones now and then
    pub fn raw(&mut self) -> Vec<u8> {
        let v = match self.below(20) {
            0 | 1 if !self.pool.is_empty() => self.pick(),
            2 if !self.pool.is_empty() => {
                let mut v = self.pick();
                self.mutate(&mut v);
                v
            }
            3 | 4 if !self.dict.bytes.is_empty() => {
                let mut v = self.dict.bytes[self.below(self.dict.bytes.len() as u64) as usize].clone();
                match self.below(4) {
                    0 => {}
                    1 => { let k = self.len(); v.extend(self.fill(k)); }
                    2 => { let k = self.len(); let mut p = self.fill(k); p.extend(v); v = p; }
                    _ => self.mutate(&mut v),
                }
                v
            }
            _ => {
                let n = self.len();
                let mut v = self.content(n);
                if !self.dict.ints.is_empty() && !v.is_empty() && self.chance(15) {
                    let b = self.dict.ints[self.below(self.dict.ints.len() as u64) as usize] as u8;
                    let i = match self.below(3) { 0 => 0, 1 => v.len() - 1, _ => self.below(v.len() as u64) as usize };
                    v[i] = b;
                }
                v
            }
        };
        self.pool.push(v.clone());
        v
    }
    pub fn bytes(&mut self, name: &str) -> Vec<u8> {
        let v = self.raw();
        self.note(name, hex(&v));
        v
    }
    pub fn mutate(&mut self, v: &mut Vec<u8>) {
        match self.below(9) {
            0 => { v.push(self.u() as u8); }
            1 => { v.pop(); }
            2 => { v.insert(0, 0); }
            3 => { if !v.is_empty() { v.remove(0); } }
            4 => { v.clear(); }
            5 => { v.reverse(); }
            6 => { let n = v.len() / 2; v.truncate(n); }
            _ => {
                if !v.is_empty() {
                    let i = match self.below(4) { 0 => 0, 1 => v.len() - 1, _ => self.below(v.len() as u64) as usize };
                    let k = self.below(8);
                    v[i] ^= 1 << k;
                }
            }
        }
    }
    /// the hinted value of a reply: exact, mutated, or unrelated
    pub fn reply(&mut self, name: &'static str) -> Vec<u8> {
        // draws a fixed amount from the main stream, so that both runs of a case agree on the other inputs
        let back = self.u();
        let (s, n) = (std::mem::replace(&mut self.s, back), self.pool.len());
        let v = match self.hints.get(name).cloned() {
            Some(h) if self.forced => h,
            Some(mut h) => match self.below(4) {
                0 | 1 => h,
                _ => {
                    self.mutate(&mut h);
                    h
                }
            },
            None => self.raw(),
        };
        self.s = s;
        self.pool.truncate(n);
        self.note(name, hex(&v));
        v
    }
    pub fn ssid(&mut self) -> Vec<u8> {
        let mut v = self.raw();
        if v.len() < 16 && self.chance(65) {
            let k = 16 + self.below(20) as usize;
            v = self.content(k);
        }
        self.note("ssid", hex(&v));
        v
    }
    pub fn arr<const N: usize>(&mut self, name: &str) -> [u8; N] {
        let v = self.content(N);
        self.note(name, hex(&v));
        v.try_into().unwrap()
    }
    pub fn reply_arr<const N: usize>(&mut self, name: &'static str) -> [u8; N] {
        let v = self.reply(name);
        let mut a = [0u8; N];
        let n = v.len().min(N);
        a[..n].copy_from_slice(&v[..n]);
        a
    }
    pub fn scalar(&mut self, name: &str) -> Scalar {
        let s = match self.below(8) {
            0 => Scalar::ZERO,
            1 => Scalar::ONE,
            2 => -Scalar::ONE,
            3 => Scalar::from(self.below(300)),
            _ => {
                let v: [u8; 64] = self.fill(64).try_into().unwrap();
                Scalar::from_bytes_mod_order_wide(&v)
            }
        };
        self.note(name, hex(s.as_bytes()));
        s
    }
    pub fn point(&mut self, name: &str) -> RistrettoPoint {
        let p = match self.below(10) {
            0 | 1 => RistrettoPoint::identity(),
            2 => RISTRETTO_BASEPOINT_POINT,
            3 => {
                let mut r = None;
                for b in self.dict.bytes.iter().filter(|b| b.len() == 32) {
                    if let Some(q) = CompressedRistretto::from_slice(b).ok().and_then(|c| c.decompress()) {
                        r = Some(q)
                    }
                }
                r.unwrap_or_else(RistrettoPoint::identity)
            }
            _ => RISTRETTO_BASEPOINT_POINT * Scalar::from_bytes_mod_order_wide(&self.fill(64).try_into().unwrap()),
        };
        self.note(name, hex(p.compress().as_bytes()));
        p
    }
    pub fn rng(&mut self, name: &str) -> Det {
        let seed = self.u();
        let zeros = if self.chance(12) { 1 + self.below(3) } else { 0 };
        let which = if self.chance(50) { 64 } else { 0 };
        let small = match self.below(4) {
            0 if zeros > 0 => self.below(4),
            1 if zeros > 0 && !self.dict.ints.is_empty() => self.dict.ints[self.below(self.dict.ints.len() as u64) as usize] as u64,
            _ => 0,
        };
        self.note(name, format!("seed {seed:#x}, first {zeros} draws of length {which} (0 = any) are {small}"));
        Det { seed, zeros, which, small, used: HashMap::new() }
    }
    pub fn plain_rng(&mut self, name: &str) -> Det {
        let mut r = self.rng(name);
        r.zeros = 0;
        self.note(name, "no zero draws".into());
        r
    }
    pub fn hasher(&mut self) -> TestHasher {
        const LENS: [usize; 9] = [32, 64, 32, 64, 10, 31, 33, 63, 48];
        let mode = if self.chance(80) { LENS[self.below(4) as usize] } else { match self.below(10) { 0 | 1 => 0, 2 | 3 => 1, _ => LENS[4 + self.below(5) as usize] } };
        self.note("password hasher (0: fails, 1: no output, else output length)", mode.to_string());
        TestHasher { mode }
    }
    pub fn params(&mut self) -> TestParams {
        let p = TestParams { tag: self.below(1000) as u32, bad: self.chance(6) };
        self.note("params", format!("{p:?}"));
        p
    }
    pub fn salt(&mut self, name: &str) -> SaltString {
        let n = match self.below(8) { 0 => 4, 1 => 64, 2 => 48 + self.below(17) as usize, _ => 4 + self.below(44) as usize };
        let any = self.chance(50);
        let mut s: String = self.fill(n).iter().map(|b| if any { b"abcxyzABCXYZ0189+/"[*b as usize % 18] } else { b'a' + b % 26 } as char).collect();
        if SaltString::from_b64(&s).is_err() {
            // the last character carries unused bits
            s.pop();
            s.push('A');
        }
        self.note(name, s.clone());
        SaltString::from_b64(&s).unwrap()
    }
    pub fn choice(&mut self, name: &str, n: u64) -> u8 {
        let v = self.below(n) as u8;
        self.note(name, v.to_string());
        v
    }
    /// names of variants and fields, salts, parameters, and things that are none of these
    pub fn text(&mut self, name: &str) -> String {
        const WORDS: [&str; 24] = [
            "Nonce", "Username", "StrongUsername", "PublicKey", "Authenticator", "Registration", "StrongRegistration", "AugmentationInfo", "StrongAugmentationInfo",
            "username", "blinded", "salt", "params", "verifier", "secret_exponent", "group", "x_pub", "pbkdf_params", "blinded_salt",
            "ristretto255", "", "c2FsdHNhbHQ", "ln=17,r=8", "a=1",
        ];
        let mut t: String = match self.below(8) {
            0 | 1 => WORDS[self.below(24) as usize].into(),
            2 => self.salt("salt").as_str().into(),
            3 => self.params_string("params").as_str().into(),
            4 | 5 => {
                let n = self.below(12) as usize;
                (0..n).map(|_| b"abzAZ019+/=,. -_$\n"[self.below(18) as usize] as char).collect()
            }
            6 => String::from_utf8_lossy(&self.raw()).into_owned(),
            _ => {
                let n = self.below(80) as usize;
                (0..n).map(|_| char::from_u32(self.below(0x300) as u32).unwrap_or('?')).collect()
            }
        };
        if self.chance(20) {
            match self.below(4) {
                0 => t.push(['=', ' ', '\n', '\0'][self.below(4) as usize]),
                1 => { t.pop(); }
                2 => t.insert(0, ['=', ' ', '\u{e9}', 'x'][self.below(4) as usize]),
                _ => t = t.repeat(2),
            }
        }
        self.note(name, format!("{t:?}"));
        t
    }
    pub fn params_string(&mut self, name: &str) -> ParamsString {
        let mut p = ParamsString::new();
        let many = self.chance(35);
        for k in ["a", "b", "ln", "m", "t", "keyid", "data", "memory-cost", "parallelism-and-lanes", "z"].iter().take(if many { 10 } else { 3 }) {
            if self.chance(50) {
                if self.chance(30) {
                    let n = 1 + self.below(30) as usize;
                    let v: String = self.fill(n).iter().map(|b| b"abzABZ019+/-."[*b as usize % 13] as char).collect();
                    if let Ok(v) = password_hash::Value::new(&v) {
                        let _ = p.add_str(*k, v);
                    }
                } else {
                    let v = self.below(1 << 30) as u32;
                    let _ = p.add_decimal(*k, v);
                }
            }
        }
        self.note(name, p.as_str().to_string());
        p
    }
    /// an integer of a group, as bytes
    pub fn int(&mut self, name: &str, n: &BigUint) -> Vec<u8> {
        let rnd = BigUint::from_bytes_be(&{ let k = 1 + self.below(40) as usize; self.fill(k) });
        let v = match self.below(12) {
            0 => BigUint::default(),
            1 => BigUint::from(1u8),
            2 => n.clone(),
            3 => n * BigUint::from(self.below(9)),
            4 => n + 1u8,
            5 => if *n > BigUint::default() { n - 1u8 } else { n.clone() },
            6 | 7 => rnd,
            8 => BigUint::from_bytes_be(&self.raw()),
            _ => &rnd % n,
        };
        let mut b = if v == BigUint::default() && self.chance(50) { vec![] } else { v.to_bytes_be() };
        if self.chance(20) {
            let mut z = vec![0u8; 1 + self.below(3) as usize];
            z.extend(b);
            b = z;
        }
        self.note(name, hex(&b));
        self.pool.push(b.clone());
        b
    }
    pub fn group(&mut self) -> srp::types::SrpGroup {
        use srp::groups::*;
        self.long = false; // exponents that long take seconds
        let mut n = match self.below(100) {
            0..=54 => BigUint::from(1 + self.below(60)),
            55..=69 => BigUint::from(1 + self.below(70000)),
            70..=90 => BigUint::from_bytes_be(&{ let k = 1 + self.below(20) as usize; self.fill(k) }),
            91..=96 => (&*G_1024).n.clone(),
            97 => (&*G_1536).n.clone(),
            _ => (&*G_2048).n.clone(),
        };
        if n == BigUint::default() {
            n = BigUint::from(23u8);
        }
        let l = n.to_bytes_be().len();
        let k = 1 + self.below(l.min(3) as u64) as usize;
        let g = match self.below(4) {
            0 => BigUint::from(2u8),
            1 => BigUint::from(5u8),
            2 => BigUint::from_bytes_be(&self.fill(k)),
            _ => &BigUint::from_bytes_be(&self.fill(l)) % &n,
        };
        self.note("N", n.to_string());
        self.note("g", g.to_string());
        srp::types::SrpGroup { n, g }
    }
}

/// A generator whose every draw is a function of its seed, the requested length and how many requests of
/// that length came before.
#[derive(Clone)]
pub struct Det {
    seed: u64,
    zeros: u64,
    which: usize,
    small: u64,
    used: HashMap<usize, u64>,
}
impl RngCore for Det {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let c = self.used.entry(dest.len()).or_insert(0);
        if *c < self.zeros && (self.which == 0 || self.which == dest.len()) {
            dest.fill(0);
            dest.iter_mut().zip(self.small.to_le_bytes()).for_each(|(d, s)| *d = s);
        } else {
            for (i, chunk) in dest.chunks_mut(64).enumerate() {
                let mut h = Sha512::new();
                Digest::update(&mut h, self.seed.to_le_bytes());
                Digest::update(&mut h, (chunk.len() as u64).to_le_bytes());
                Digest::update(&mut h, c.to_le_bytes());
                Digest::update(&mut h, (i as u64).to_le_bytes());
                let o = h.finalize();
                chunk.copy_from_slice(&o[..chunk.len()]);
            }
        }
        *c += 1;
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> std::result::Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Det {}

#[derive(Clone)]
pub struct TestHasher {
    mode: usize,
}
#[derive(Clone, Debug, Default)]
pub struct TestParams {
    tag: u32,
    bad: bool,
}
impl TryFrom<&PasswordHash<'_>> for TestParams {
    type Error = Error;
    fn try_from(_: &PasswordHash<'_>) -> Result<Self> {
        Err(Error::ParamNameInvalid)
    }
}
impl TryFrom<TestParams> for ParamsString {
    type Error = Error;
    fn try_from(p: TestParams) -> Result<ParamsString> {
        if p.bad {
            return Err(Error::ParamNameDuplicated);
        }
        let mut s = ParamsString::new();
        s.add_decimal("t", p.tag)?;
        Ok(s)
    }
}
impl PasswordHasher for TestHasher {
    type Params = TestParams;
    fn hash_password_customized<'a>(
        &self, password: &[u8], alg: Option<Ident<'a>>, version: Option<Decimal>, params: TestParams, salt: impl Into<Salt<'a>>,
    ) -> Result<PasswordHash<'a>> {
        let salt: Salt<'a> = salt.into();
        if self.mode == 0 {
            return Err(Error::Password);
        }
        let mut h = Sha512::new();
        Digest::update(&mut h, (password.len() as u64).to_le_bytes());
        Digest::update(&mut h, password);
        Digest::update(&mut h, salt.as_str());
        Digest::update(&mut h, format!("{:?}{:?}{:?}", params, alg.map(|a| a.as_str().to_string()), version));
        let o = h.finalize();
        Ok(PasswordHash {
            algorithm: Ident::new("test")?,
            version: None,
            params: ParamsString::new(),
            salt: Some(salt),
            hash: if self.mode == 1 { None } else { Some(password_hash::Output::new(&o[..self.mode])?) },
        })
    }
}

/// Digests with outputs that ordinary ones have too rarely: leading zeros, all zeros, one byte.
macro_rules! odd_digest {
    ($name:ident, $inner:ty, $f:expr) => {
        #[derive(Clone, Default)]
        pub struct $name($inner);
        impl OutputSizeUser for $name {
            type OutputSize = <$inner as OutputSizeUser>::OutputSize;
        }
        impl HashMarker for $name {}
        impl Update for $name {
            fn update(&mut self, d: &[u8]) {
                Update::update(&mut self.0, d)
            }
        }
        impl FixedOutput for $name {
            fn finalize_into(self, out: &mut Output<Self>) {
                let o = self.0.finalize_fixed();
                out.copy_from_slice(&o);
                let f: fn(&mut [u8]) = $f;
                f(out)
            }
        }
    };
}
odd_digest!(Lead, sha2::Sha256, |o| match o[31] % 8 {
    0 | 1 => o[0] = 0,
    2 => o[..2].fill(0),
    3 => o[..31].fill(0),
    4 => o.fill(0),
    _ => {}
});
odd_digest!(Zeroes, sha2::Sha512, |o| if o[63] % 4 == 0 {
    o.fill(0)
});

/// arbitrary answers of a format: numbers, mostly small
#[derive(Clone)]
pub struct Answers(pub Det, pub bool);
impl RngCore for Answers {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.0.next_u64();
        if self.1 { v >> 8 & [0, 1, 7, 255][v as usize & 3] } else { v }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), rand_core::Error> {
        self.0.try_fill_bytes(d)
    }
}
impl CryptoRng for Answers {}
