//! Independent implementations of the documented protocols, written from the documentation
//! (AuCPace crate docs / paper, python-spake2, RFC 5054), used as peers and oracles.
use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT, RISTRETTO_BASEPOINT_TABLE};
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use hmac::{Hmac, Mac};
use num_bigint::BigUint;
use sha2::{Digest, Sha256, Sha512};

// ---------------------------------------------------------------- AuCPace

pub fn hn(n: u32, parts: &[&[u8]]) -> [u8; 64] {
    let mut buf = n.to_le_bytes().to_vec();
    for p in parts {
        buf.extend_from_slice(p);
    }
    crate::kit::SimD::digest(&buf).into()
}

pub fn w_scalar(hash: &[u8]) -> Option<Scalar> {
    match hash.len() {
        32 => {
            let mut w = [0u8; 64];
            w[..32].copy_from_slice(hash);
            Some(Scalar::from_bytes_mod_order_wide(&w))
        }
        64 => {
            let mut w = [0u8; 64];
            w.copy_from_slice(hash);
            Some(Scalar::from_bytes_mod_order_wide(&w))
        }
        _ => None,
    }
}

pub fn cred_string(user: &[u8], pw: &[u8]) -> Vec<u8> {
    [user, b":", pw].concat()
}

pub fn z_point(user: &[u8], pw: &[u8]) -> RistrettoPoint {
    RistrettoPoint::from_uniform_bytes(&hn(1, &[user, pw]))
}

pub fn generator(ssid: &[u8; 64], prs: &[u8; 32], ci: &[u8]) -> RistrettoPoint {
    RistrettoPoint::from_uniform_bytes(&hn(1, &[ssid, prs, ci]))
}

pub struct Keys {
    pub sk1: [u8; 64],
    pub ta: [u8; 64],
    pub tb: [u8; 64],
    pub sk: [u8; 64],
}

pub fn keys(ssid: &[u8; 64], y: &Scalar, peer: &RistrettoPoint) -> Keys {
    let k = (peer * y).compress().to_bytes();
    let sk1 = hn(2, &[ssid, &k]);
    Keys { ta: hn(3, &[ssid, &sk1]), tb: hn(4, &[ssid, &sk1]), sk: hn(5, &[ssid, &sk1]), sk1 }
}

pub fn base(s: &Scalar) -> RistrettoPoint {
    RISTRETTO_BASEPOINT_TABLE * s
}

// ---------------------------------------------------------------- SPAKE2

const M: &str = "15cfd18e385952982b6a8f8c7854963b58e34388c8e6dae891db756481a02312";
const N: &str = "f04f2e7eb734b2a8f8b472eaf9c3c632576ac64aea650b496a8a20ff00e583c3";
const S: &str = "6f00dae87c1be1a73b5922ef431cd8f57879569c222d22b1cd71e8546ab8e6f1";

fn pt(h: &str) -> EdwardsPoint {
    let b: [u8; 32] = crate::util::unhex(h).unwrap().try_into().unwrap();
    CompressedEdwardsY(b).decompress().unwrap()
}

fn hmac256(k: &[u8], m: &[u8]) -> [u8; 32] {
    let mut h = <Hmac<Sha256> as Mac>::new_from_slice(k).unwrap();
    h.update(m);
    h.finalize().into_bytes().into()
}

pub fn spake_pw_scalar(pw: &[u8]) -> Scalar {
    // HKDF-SHA256(salt="", ikm=pw, info="SPAKE2 pw", 48 bytes), big-endian integer mod q
    let prk = hmac256(&[], pw);
    let mut info = b"SPAKE2 pw".to_vec();
    info.push(1);
    let t1 = hmac256(&prk, &info);
    let mut second = t1.to_vec();
    second.extend_from_slice(b"SPAKE2 pw");
    second.push(2);
    let t2 = hmac256(&prk, &second);
    let okm = [&t1[..], &t2[..16]].concat();
    let n = BigUint::from_bytes_be(&okm);
    let mut le = n.to_bytes_le();
    le.resize(64, 0);
    Scalar::from_bytes_mod_order_wide(&le.try_into().unwrap())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SpRole {
    A,
    B,
    S,
}
impl SpRole {
    pub fn marker(self) -> u8 {
        match self {
            SpRole::A => 0x41,
            SpRole::B => 0x42,
            SpRole::S => 0x53,
        }
    }
    pub fn peer_marker(self) -> u8 {
        match self {
            SpRole::A => 0x42,
            SpRole::B => 0x41,
            SpRole::S => 0x53,
        }
    }
}

/// (own blinding, peer blinding)
fn blinds(r: SpRole) -> (EdwardsPoint, EdwardsPoint) {
    match r {
        SpRole::A => (pt(M), pt(N)),
        SpRole::B => (pt(N), pt(M)),
        SpRole::S => (pt(S), pt(S)),
    }
}

pub fn spake_consts() -> [EdwardsPoint; 3] {
    [pt(M), pt(N), pt(S)]
}
pub fn spake_msg(r: SpRole, pw: &[u8], x: &Scalar) -> Vec<u8> {
    let (own, _) = blinds(r);
    let e = ED25519_BASEPOINT_POINT * x + own * spake_pw_scalar(pw);
    let mut v = vec![r.marker()];
    v.extend_from_slice(e.compress().as_bytes());
    v
}

/// `None`: peer element is not a curve point.
pub fn spake_key(r: SpRole, pw: &[u8], ida: &[u8], idb: &[u8], x: &Scalar, own: &[u8; 32], peer: &[u8; 32]) -> Option<[u8; 32]> {
    let (_, pb) = blinds(r);
    let e = CompressedEdwardsY(*peer).decompress()?;
    let k = ((e - pb * spake_pw_scalar(pw)) * x).compress().to_bytes();
    let h = |b: &[u8]| -> [u8; 32] { Sha256::digest(b).into() };
    let t = match r {
        SpRole::A => [&h(pw)[..], &h(ida), &h(idb), own, peer, &k].concat(),
        SpRole::B => [&h(pw)[..], &h(ida), &h(idb), peer, own, &k].concat(),
        SpRole::S => {
            let (lo, hi) = if own <= peer { (own, peer) } else { (peer, own) };
            [&h(pw)[..], &h(ida), lo, hi, &k].concat()
        }
    };
    Some(h(&t))
}

// ---------------------------------------------------------------- SRP

#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub enum Hash {
    Sha1,
    Sha256,
    Sha512,
}
impl Hash {
    pub fn h(self, parts: &[&[u8]]) -> Vec<u8> {
        let b = parts.concat();
        match self {
            Hash::Sha1 => sha1::Sha1::digest(&b).to_vec(),
            Hash::Sha256 => Sha256::digest(&b).to_vec(),
            Hash::Sha512 => Sha512::digest(&b).to_vec(),
        }
    }
}

#[derive(Clone)]
pub struct SrpRef {
    pub n: BigUint,
    pub g: BigUint,
    pub h: Hash,
    /// RFC 5054: hash inputs of u padded to the length of N
    pub pad_u: bool,
}

fn pad(x: &BigUint, n: &BigUint) -> Vec<u8> {
    let l = n.to_bytes_be().len();
    let b = x.to_bytes_be();
    let mut v = vec![0u8; l.saturating_sub(b.len())];
    v.extend_from_slice(&b);
    v
}
fn be(x: &BigUint) -> Vec<u8> {
    x.to_bytes_be()
}
fn int(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}

impl SrpRef {
    pub fn k(&self) -> BigUint {
        int(&self.h.h(&[&be(&self.n), &pad(&self.g, &self.n)]))
    }
    pub fn x(&self, user: &[u8], pw: &[u8], salt: &[u8]) -> BigUint {
        int(&self.h.h(&[salt, &self.h.h(&[user, b":", pw])]))
    }
    pub fn v(&self, user: &[u8], pw: &[u8], salt: &[u8]) -> BigUint {
        self.g.modpow(&self.x(user, pw, salt), &self.n)
    }
    pub fn a_pub(&self, a: &BigUint) -> BigUint {
        self.g.modpow(a, &self.n)
    }
    pub fn b_pub(&self, b: &BigUint, v: &BigUint) -> BigUint {
        (self.k() * v + self.g.modpow(b, &self.n)) % &self.n
    }
    pub fn u(&self, ap: &BigUint, bp: &BigUint) -> BigUint {
        if self.pad_u {
            int(&self.h.h(&[&pad(ap, &self.n), &pad(bp, &self.n)]))
        } else {
            int(&self.h.h(&[&be(ap), &be(bp)]))
        }
    }
    pub fn s_client(&self, a: &BigUint, x: &BigUint, bp: &BigUint) -> BigUint {
        let ap = self.a_pub(a);
        let u = self.u(&ap, bp);
        let kv = (self.k() * self.g.modpow(x, &self.n)) % &self.n;
        let base = ((bp % &self.n) + &self.n - kv) % &self.n;
        base.modpow(&(a + u * x), &self.n)
    }
    pub fn s_server(&self, b: &BigUint, v: &BigUint, ap: &BigUint) -> BigUint {
        let bp = self.b_pub(b, v);
        let u = self.u(ap, &bp);
        ((ap * v.modpow(&u, &self.n)) % &self.n).modpow(b, &self.n)
    }
    pub fn m1(&self, ap: &BigUint, bp: &BigUint, s: &BigUint) -> Vec<u8> {
        self.h.h(&[&be(ap), &be(bp), &be(s)])
    }
    pub fn m2(&self, ap: &BigUint, m1: &[u8], s: &BigUint) -> Vec<u8> {
        self.h.h(&[&be(ap), m1, &be(s)])
    }
}
