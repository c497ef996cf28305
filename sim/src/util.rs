//! Small helpers: hex, hashing of byte strings, needle search, near-miss generators.
use crate::rng::Prng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

/// Byte string stored as hex in plans ("x:..." ), so that the shrinker can handle it.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Debug)]
pub struct Hx(pub Vec<u8>);
impl Serialize for Hx {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("x:{}", hex(&self.0)))
    }
}
impl<'de> Deserialize<'de> for Hx {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let r = s.strip_prefix("x:").ok_or_else(|| serde::de::Error::custom("hex prefix"))?;
        unhex(r).map(Hx).ok_or_else(|| serde::de::Error::custom("hex"))
    }
}
impl From<Vec<u8>> for Hx {
    fn from(v: Vec<u8>) -> Self {
        Hx(v)
    }
}
impl From<&[u8]> for Hx {
    fn from(v: &[u8]) -> Self {
        Hx(v.to_vec())
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = crate::rng::mix(&[h, u64::from_le_bytes(w)]);
    }
    h
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/// Unpadded base64 (the PHC "B64" flavour).
pub fn b64(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        let n = c.len() + 1;
        for i in 0..n {
            o.push(B64[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    o
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut acc = 0u32;
    let mut n = 0;
    for c in s.bytes() {
        let v = B64.iter().position(|x| *x == c)? as u32;
        acc = acc << 6 | v;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    Some(out)
}

pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    if needle.len() < 5 || hay.len() < needle.len() {
        return false;
    }
    let (a, b) = (needle[0], needle[1]);
    let last = hay.len() - needle.len();
    (0..=last).any(|i| hay[i] == a && hay[i + 1] == b && &hay[i..i + needle.len()] == needle)
}

/// Does `hay` reveal `needle` in raw, reversed, hex, base64 or decimal-list form?
pub fn reveals(hay: &[u8], needle: &[u8]) -> Option<&'static str> {
    if contains(hay, needle) {
        return Some("raw");
    }
    let mut rev = needle.to_vec();
    rev.reverse();
    if needle.len() >= 16 && contains(hay, &rev) {
        return Some("reversed");
    }
    let h = hex(needle);
    if contains(hay, h.as_bytes()) || contains(hay, h.to_uppercase().as_bytes()) {
        return Some("hex");
    }
    let hu: String = needle.iter().map(|b| format!("{b:x}")).collect();
    if needle.len() >= 8 && contains(hay, hu.as_bytes()) {
        return Some("hex-unpadded");
    }
    let b = b64(needle);
    // the last character may carry padding bits of following data
    if b.len() > 8 && contains(hay, b[..b.len() - 1].as_bytes()) {
        return Some("base64");
    }
    for sep in [", ", ",", " "] {
        let d: Vec<String> = needle.iter().map(|x| x.to_string()).collect();
        if contains(hay, d.join(sep).as_bytes()) {
            return Some("decimal");
        }
    }
    None
}

/// All textual forms in which a 16-byte-or-longer fragment of a secret counts as revealed.
pub fn reveals_frag(hay: &[u8], secret: &[u8]) -> Option<&'static str> {
    if secret.len() <= 16 {
        return reveals(hay, secret);
    }
    for w in [&secret[..16], &secret[secret.len() - 16..], &secret[(secret.len() - 16) / 2..(secret.len() - 16) / 2 + 16]] {
        if let Some(r) = reveals(hay, w) {
            return Some(r);
        }
    }
    None
}

/// Interesting byte-string lengths.
pub fn gen_len(r: &mut Prng, max: usize) -> usize {
    if max > 400 && r.chance(50) {
        return (*r.pick(&[300usize, 400, 511, 512, 513, 767, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10_000, 16_385, 32_768, 65_535, 65_536, 65_537, 70_000])).min(max);
    }
    let l = match r.below(10) {
        0 => r.us(3),
        1..=4 => r.us(20),
        5 => *r.pick(&[7usize, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33]),
        6 => *r.pick(&[63usize, 64, 65, 71, 72, 73, 127, 128, 129]),
        7 => r.us(80),
        8 => *r.pick(&[255usize, 256, 257, 300]),
        _ => r.us(12),
    };
    l.min(max)
}

/// A byte string as users and attackers choose them: text, binary, awkward bytes.
pub fn gen_str(r: &mut Prng, max: usize) -> Vec<u8> {
    let n = gen_len(r, max);
    let mut v: Vec<u8> = match r.below(8) {
        0 => r.bytes(n),
        1 => vec![*r.pick(&[0u8, b'a', 0xff, b':', b' ', b'\n']); n],
        2 => (0..n).map(|i| b'0' + (i % 10) as u8).collect(),
        3 => {
            let s = "pässwörd-日本語-🔑-";
            s.bytes().cycle().take(n).collect()
        }
        _ => (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.@ !")).collect(),
    };
    if r.chance(15) && !v.is_empty() {
        let i = if r.chance(50) { v.len() - 1 } else { r.us(v.len()) };
        v[i] = *r.pick(&[0u8, b'\n', b'\r', b':', b' ', b'\t', 0x7f, 0x80, 0xff, b'%', b'\\', b'\'']);
    }
    v
}

/// A string that differs from `s` in the smallest realistic ways. Always different from `s`.
pub fn near_miss(r: &mut Prng, s: &[u8]) -> Vec<u8> {
    for _ in 0..20 {
        let mut v = s.to_vec();
        match r.below(16) {
            0 => v.push(0),
            1 => v.push(b'\n'),
            2 => v.push(b' '),
            3 => v.insert(0, b' '),
            4 => {
                v.pop();
            }
            5 => {
                if !v.is_empty() {
                    v.remove(0);
                }
            }
            6 => {
                for b in v.iter_mut() {
                    *b = if b.is_ascii_lowercase() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() };
                }
            }
            7 => {
                if !v.is_empty() {
                    let i = r.us(v.len());
                    v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
                }
            }
            8 | 9 => {
                if !v.is_empty() {
                    let i = r.us(v.len());
                    v[i] ^= 1 << r.below(8);
                }
            }
            10 => {
                if !v.is_empty() {
                    let i = v.len() - 1;
                    v[i] ^= 1 << r.below(8);
                }
            }
            11 => {
                // truncation at customary limits
                let l = *r.pick(&[8usize, 16, 20, 24, 31, 32, 48, 63, 64, 72, 127, 128, 255, 256]);
                v.truncate(l);
            }
            12 => {
                // differ only beyond a customary limit
                let l = *r.pick(&[8usize, 16, 20, 32, 64, 72, 128, 255]);
                if v.len() > l {
                    let i = l + r.us(v.len() - l);
                    v[i] ^= 0x20;
                }
            }
            13 => {
                if v.len() >= 2 {
                    let i = r.us(v.len() - 1);
                    v.swap(i, i + 1);
                }
            }
            14 => {
                let z = v.clone();
                v.extend_from_slice(&z);
            }
            _ => {
                if let Some(i) = v.iter().position(|b| *b == 0) {
                    v.truncate(i);
                } else {
                    v = vec![];
                }
            }
        }
        if v != s {
            return v;
        }
    }
    let mut v = s.to_vec();
    v.push(b'x');
    v
}

/// Finds 8-byte pieces of secrets in messages and renderings, in any customary encoding.
#[derive(Default)]
pub struct Scanner {
    win: std::collections::HashMap<[u8; 8], &'static str>,
}

impl Scanner {
    pub fn add(&mut self, what: &'static str, secret: &[u8]) {
        let mut rev = secret.to_vec();
        rev.reverse();
        for s in [secret, &rev[..]] {
            for w in s.windows(8) {
                let w: [u8; 8] = w.try_into().unwrap();
                let mut d = w.to_vec();
                d.sort_unstable();
                d.dedup();
                // short repetitive pieces mean nothing
                if d.len() >= 5 {
                    self.win.entry(w).or_insert(what);
                }
            }
        }
    }
    /// Forget pieces that are legitimately public.
    pub fn public(&mut self, b: &[u8]) {
        for w in b.windows(8) {
            let mut w: [u8; 8] = w.try_into().unwrap();
            self.win.remove(&w);
            w.reverse();
            self.win.remove(&w);
        }
    }
    fn stream(&self, b: &[u8]) -> Option<&'static str> {
        b.windows(8).find_map(|w| self.win.get(w).copied())
    }
    /// The kind of secret and the encoding it was found in.
    pub fn scan(&self, hay: &[u8]) -> Option<(&'static str, &'static str)> {
        if let Some(w) = self.stream(hay) {
            return Some((w, "raw"));
        }
        // numbers separated by anything that is not alphanumeric
        let (mut dec, mut hx, mut words) = (vec![], vec![], vec![]);
        for t in hay.split(|b| !b.is_ascii_alphanumeric()).filter(|t| !t.is_empty()) {
            let s = std::str::from_utf8(t).unwrap();
            match s.parse::<u8>() {
                Ok(v) if s.len() <= 3 => dec.push(v),
                _ => {
                    if let Some(w) = self.stream(&dec) {
                        return Some((w, "decimal list"));
                    }
                    dec.clear();
                    if let Ok(v) = s.parse::<u64>() {
                        words.extend_from_slice(&v.to_le_bytes());
                    }
                }
            }
            let h = s.strip_prefix("0x").or(s.strip_prefix("0X")).unwrap_or(s);
            match u8::from_str_radix(h, 16) {
                Ok(v) if h.len() <= 2 => hx.push(v),
                _ => {
                    if let Some(w) = self.stream(&hx) {
                        return Some((w, "hex list"));
                    }
                    hx.clear();
                }
            }
        }
        for (b, n) in [(&dec, "decimal list"), (&hx, "hex list"), (&words, "word list")] {
            if let Some(w) = self.stream(b) {
                return Some((w, n));
            }
        }
        // runs of hex digits and of base64 characters
        for t in hay.split(|b| !b.is_ascii_hexdigit()).filter(|t| t.len() >= 16) {
            for off in 0..2 {
                let b: Vec<u8> = t[off..].chunks_exact(2).map(|c| (c[0] as char).to_digit(16).unwrap() as u8 * 16 + (c[1] as char).to_digit(16).unwrap() as u8).collect();
                if let Some(w) = self.stream(&b) {
                    return Some((w, "hex"));
                }
            }
        }
        for url in [false, true] {
            for t in hay.split(|b| !(b.is_ascii_alphanumeric() || if url { matches!(b, b'-' | b'_') } else { matches!(b, b'+' | b'/') })).filter(|t| t.len() >= 11) {
                for off in 0..4.min(t.len()) {
                    let s: String = t[off..].iter().map(|c| match c { b'-' => '+', b'_' => '/', c => *c as char }).collect();
                    if let Some(w) = unb64(&s).and_then(|b| self.stream(&b)) {
                        return Some((w, "base64"));
                    }
                }
            }
        }
        None
    }
}

pub const RECODINGS: u64 = 12;
/// The same bytes in a form some transport or application might put them.
pub fn recode(v: &[u8], how: u64) -> Vec<u8> {
    let pad = |mut s: String| {
        while s.len() % 4 != 0 {
            s.push('=');
        }
        s
    };
    match how % RECODINGS {
        0 => hex(v).into_bytes(),
        1 => hex(v).to_ascii_uppercase().into_bytes(),
        2 => b64(v).into_bytes(),
        3 => pad(b64(v)).into_bytes(),
        4 => pad(b64(v)).replace('+', "-").replace('/', "_").into_bytes(),
        5 => format!("0x{}", hex(v)).into_bytes(),
        6 => [v, b"\n"].concat(),
        7 => [&[v.len() as u8], v].concat(),
        8 => [&(v.len() as u32).to_be_bytes()[..], v].concat(),
        9 => [&(v.len() as u32).to_le_bytes()[..], v].concat(),
        10 => v.iter().map(|b| !b).collect(),
        _ => v.iter().rev().copied().collect(),
    }
}
