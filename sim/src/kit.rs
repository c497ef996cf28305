//! Password hashers behind the `PasswordHasher` seam: a fast simulated one that can fail in
//! every way the trait allows, and the real scrypt.
use password_hash::{Decimal, Error, Ident, Output, ParamsString, PasswordHash, PasswordHasher, Result, Salt, Value};
use hmac::{Hmac, Mac};
use serde::{Deserialize, Serialize};
use sha2::{digest, Digest, Sha512};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum HFault {
    Err(u8),
    NoHash,
    Len(u8),
    /// only meaningful for registration: the parameters cannot be rendered
    BadParams,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct PSpec {
    pub c: u32,
    pub len: u8,
}

pub trait Kit: 'static {
    type H: PasswordHasher<Params = Self::P>;
    type P: Clone;
    fn hasher(f: &Option<HFault>) -> Self::H;
    fn params(p: &PSpec, f: &Option<HFault>) -> Self::P;
    /// what those parameters look like as a string
    fn render(p: &PSpec) -> String;
    /// application glue: parameters received from the server
    fn parse(p: &ParamsString) -> Self::P;
    /// canonical form of the effective parameters of a rendered string
    fn canon(p: &str) -> String;
    /// independent computation of the hash
    fn ref_hash(pw: &[u8], salt: &str, params: &str) -> Vec<u8>;
    /// passwords the hash function itself cannot tell apart are mapped to one value
    fn norm(pw: &[u8]) -> Vec<u8>;
    const FAULTS: bool;
}

pub fn pherr(v: u8) -> Error {
    match v % 6 {
        0 => Error::Algorithm,
        1 => Error::Crypto,
        2 => Error::Password,
        3 => Error::PhcStringField,
        4 => Error::OutputSize { provided: core::cmp::Ordering::Less, expected: 32 },
        _ => Error::SaltInvalid(password_hash::errors::InvalidValue::TooShort),
    }
}

// ------------------------------------------------------------------ simulated hasher

#[derive(Clone, Debug)]
pub struct SimParams {
    pub c: u32,
    pub len: u8,
    pub bad: bool,
}
impl Default for SimParams {
    fn default() -> Self {
        SimParams { c: 1, len: 32, bad: false }
    }
}
impl TryFrom<&PasswordHash<'_>> for SimParams {
    type Error = Error;
    fn try_from(h: &PasswordHash<'_>) -> Result<Self> {
        Ok(SimParams {
            c: h.params.get_decimal("c").unwrap_or(1),
            len: h.params.get_decimal("l").unwrap_or(32) as u8,
            bad: false,
        })
    }
}
impl TryFrom<SimParams> for ParamsString {
    type Error = Error;
    fn try_from(p: SimParams) -> Result<ParamsString> {
        if p.bad {
            return Err(Error::ParamNameInvalid);
        }
        let mut s = ParamsString::new();
        s.add_decimal("c", p.c)?;
        s.add_decimal("l", p.len as u32)?;
        if p.c > 60_000 {
            // near the longest parameter string there can be
            s.add_str("note", Value::new(&"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[..(p.c % 60) as usize + 1])?)?;
        }
        Ok(s)
    }
}

thread_local! {
    /// everything the simulated hasher returned in this run
    pub static HASHES: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(Vec::new()) };
}

pub struct SimHasher {
    f: Option<HFault>,
}

fn sim_hash(pw: &[u8], salt: &str, c: u32, len: u8) -> Vec<u8> {
    let mut m = <Hmac<Sha512> as Mac>::new_from_slice(salt.as_bytes()).unwrap();
    m.update(&c.to_be_bytes());
    m.update(&[len]);
    m.update(&(pw.len() as u64).to_be_bytes());
    m.update(pw);
    m.finalize().into_bytes()[..(len as usize).clamp(10, 64)].to_vec()
}

impl PasswordHasher for SimHasher {
    type Params = SimParams;
    fn hash_password_customized<'a>(
        &self,
        password: &[u8],
        _alg: Option<Ident<'a>>,
        _version: Option<Decimal>,
        params: SimParams,
        salt: impl Into<Salt<'a>>,
    ) -> Result<PasswordHash<'a>> {
        let salt = salt.into();
        if let Some(HFault::Err(v)) = self.f {
            return Err(pherr(v));
        }
        let len = match self.f {
            // a valid size is no fault
            Some(HFault::Len(n)) if !matches!(n.clamp(10, 64), 32 | 64) => n,
            _ => params.len,
        };
        let h = sim_hash(password, salt.as_str(), params.c, params.len);
        // a hash of another size: cut or padded with further digest bytes
        let mut long = h.clone();
        long.extend_from_slice(&Sha512::digest(&h));
        let n = (len as usize).clamp(10, 64);
        HASHES.with(|l| l.borrow_mut().push(long[..n].to_vec()));
        let hash = match self.f {
            Some(HFault::NoHash) => None,
            _ => Some(Output::new(&long[..n])?),
        };
        let mut ps = ParamsString::new();
        let _ = ps.add_decimal("c", params.c);
        let _ = ps.add_decimal("l", params.len as u32);
        Ok(PasswordHash { algorithm: Ident::new_unwrap("sim"), version: None, params: ps, salt: Some(salt), hash })
    }
}

pub struct SimKit;
impl Kit for SimKit {
    type H = SimHasher;
    type P = SimParams;
    const FAULTS: bool = true;
    fn hasher(f: &Option<HFault>) -> SimHasher {
        SimHasher { f: f.clone() }
    }
    fn params(p: &PSpec, f: &Option<HFault>) -> SimParams {
        SimParams { c: p.c, len: p.len.clamp(10, 64), bad: *f == Some(HFault::BadParams) }
    }
    fn render(p: &PSpec) -> String {
        ParamsString::try_from(Self::params(p, &None)).map(|s| s.as_str().to_string()).unwrap_or_default()
    }
    fn parse(p: &ParamsString) -> SimParams {
        let c = p.get_decimal("c").unwrap_or(1);
        let l = p.get_decimal("l").unwrap_or(32).clamp(10, 64);
        SimParams { c, len: l as u8, bad: false }
    }
    fn canon(p: &str) -> String {
        let q = Self::parse(&p.parse().unwrap_or_default());
        format!("{}/{}", q.c, q.len)
    }
    fn ref_hash(pw: &[u8], salt: &str, params: &str) -> Vec<u8> {
        let q = Self::parse(&params.parse().unwrap_or_default());
        sim_hash(pw, salt, q.c, q.len)
    }
    fn norm(pw: &[u8]) -> Vec<u8> {
        pw.to_vec()
    }
}

// ------------------------------------------------------------------ scrypt

pub struct ScryptKit;
impl ScryptKit {
    fn small(ln: u32, r: u32, p: u32) -> scrypt::Params {
        scrypt::Params::new(ln.clamp(1, 6) as u8, r.clamp(1, 8), p.clamp(1, 3), 32).unwrap()
    }
}
impl Kit for ScryptKit {
    type H = scrypt::Scrypt;
    type P = scrypt::Params;
    const FAULTS: bool = false;
    fn hasher(_: &Option<HFault>) -> scrypt::Scrypt {
        scrypt::Scrypt
    }
    fn params(p: &PSpec, _: &Option<HFault>) -> scrypt::Params {
        Self::small(1 + p.c % 4, 1 + p.c / 4 % 3, 1 + p.c / 16 % 2)
    }
    fn render(p: &PSpec) -> String {
        ParamsString::try_from(Self::params(p, &None)).map(|s| s.as_str().to_string()).unwrap_or_default()
    }
    fn parse(p: &ParamsString) -> scrypt::Params {
        // bounded, so that an attacker-chosen cost cannot stall the simulation
        Self::small(p.get_decimal("ln").unwrap_or(2), p.get_decimal("r").unwrap_or(1), p.get_decimal("p").unwrap_or(1))
    }
    fn canon(p: &str) -> String {
        let q = Self::parse(&p.parse().unwrap_or_default());
        format!("{}/{}/{}", q.log_n(), q.r(), q.p())
    }
    fn ref_hash(pw: &[u8], salt: &str, params: &str) -> Vec<u8> {
        let q = Self::parse(&params.parse().unwrap_or_default());
        let raw = crate::util::unb64(salt).unwrap_or_default();
        let mut out = [0u8; 32];
        scrypt::scrypt(pw, &raw, &q, &mut out).unwrap();
        out.to_vec()
    }
    fn norm(pw: &[u8]) -> Vec<u8> {
        // scrypt keys HMAC-SHA256 with the password: long keys are hashed, short ones zero-padded
        let mut v = if pw.len() > 64 { sha2::Sha256::digest(pw).to_vec() } else { pw.to_vec() };
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
}

// ------------------------------------------------------------------------------- digest

thread_local! {
    static ALT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Which digest [`SimD`] is on this thread, until the guard is dropped.
pub fn use_digest(alt: bool) -> impl Drop {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            ALT.with(|a| a.set(false));
        }
    }
    ALT.with(|a| a.set(alt));
    Reset
}

/// The digest parameter of the AuCPace parties: SHA-512, or (per plan) another 64-byte digest,
/// so that a digest fixed inside the library instead of the parameter would show.
#[derive(Clone)]
pub struct SimD(Sha512);

impl Default for SimD {
    fn default() -> Self {
        let mut d = Sha512::default();
        if ALT.with(|a| a.get()) {
            Digest::update(&mut d, b"another digest");
        }
        SimD(d)
    }
}
impl digest::OutputSizeUser for SimD {
    type OutputSize = digest::consts::U64;
}
impl digest::Update for SimD {
    fn update(&mut self, data: &[u8]) {
        digest::Update::update(&mut self.0, data);
    }
}
impl digest::FixedOutput for SimD {
    fn finalize_into(self, out: &mut digest::Output<Self>) {
        digest::FixedOutput::finalize_into(self.0, out);
    }
}
impl digest::HashMarker for SimD {}
