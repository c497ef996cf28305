//! All randomness of a run: keyed, stateless streams derived from one seed.
use rand_core::{CryptoRng, RngCore};
use std::cell::RefCell;
use std::rc::Rc;

fn sm(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Derive one 64-bit value from a list of parts (the key of a stream).
pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x243F_6A88_85A3_08D3u64;
    for p in parts {
        h = sm(h ^ sm(*p ^ 0x1319_8A2E_0370_7344)).rotate_left(23) ^ 0xA409_3822_299F_31D0;
    }
    sm(h)
}

/// FNV-1a of a label, to name streams.
pub fn tag(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// xoshiro256**
#[derive(Clone)]
pub struct Prng {
    s: [u64; 4],
}

impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0u64; 4];
        for (i, v) in s.iter_mut().enumerate() {
            *v = mix(&[seed, i as u64, 77]);
        }
        Prng { s }
    }
    pub fn keyed(parts: &[u64]) -> Self {
        Self::new(mix(parts))
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    /// inclusive range
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// The random source handed to the code under test. Byte `p` of the stream is a pure
/// function of (key, p), however the stream is cut into reads.
#[derive(Default)]
pub struct RngState {
    pub key: u64,
    pub pos: u64,
    /// xor masks at stream offsets (sensitivity probes)
    pub flips: Vec<(u64, u8)>,
    /// half-open ranges in which the source glitches to zero bytes
    pub zeros: Vec<(u64, u64)>,
    /// (offset, length) of every read
    pub reads: Vec<(u64, u32)>,
}

#[derive(Clone, Default)]
pub struct LibRng(pub Rc<RefCell<RngState>>);

impl LibRng {
    pub fn keyed(parts: &[u64]) -> Self {
        let r = LibRng::default();
        r.rekey(mix(parts));
        r
    }
    pub fn rekey(&self, key: u64) {
        let mut s = self.0.borrow_mut();
        *s = RngState { key, ..Default::default() };
    }
    pub fn pos(&self) -> u64 {
        self.0.borrow().pos
    }
    pub fn flip(&self, off: u64, m: u8) {
        self.0.borrow_mut().flips.push((off, m));
    }
    pub fn zero(&self, from: u64, to: u64) {
        self.0.borrow_mut().zeros.push((from, to));
    }
    /// Re-read stream bytes (as they were served, flips and glitches included).
    pub fn served(&self, from: u64, n: usize) -> Vec<u8> {
        let s = self.0.borrow();
        (0..n as u64).map(|i| s.at(from + i).0).collect()
    }
}

impl RngState {
    fn at(&self, p: u64) -> (u8, bool) {
        if self.zeros.iter().any(|(a, b)| p >= *a && p < *b) {
            return (0, true);
        }
        let w = mix(&[self.key, p / 8, 0x5eed]);
        let mut b = (w >> (8 * (p % 8))) as u8;
        for (o, m) in &self.flips {
            if *o == p {
                b ^= m;
            }
        }
        (b, false)
    }
}

impl RngCore for LibRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let mut s = self.0.borrow_mut();
        let p0 = s.pos;
        s.reads.push((p0, dest.len() as u32));
        for (i, d) in dest.iter_mut().enumerate() {
            let (b, _) = s.at(p0 + i as u64);
            *d = b;
        }
        s.pos += dest.len() as u64;
        if s.pos > 1 << 22 {
            drop(s);
            panic!("HARNESS-RNG-RUNAWAY: a caller drew more than 4 MiB of randomness");
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for LibRng {}
