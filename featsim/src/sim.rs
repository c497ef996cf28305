//! Event queue in virtual time, streams, faults, logs.
use rand_core::{CryptoRng, RngCore};
use std::cell::RefCell;
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x6A09_E667_F3BC_C908u64;
    for p in parts {
        h = (h ^ p).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        h ^= h >> 31;
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    }
    h ^ (h >> 29)
}

#[derive(Clone)]
pub struct Prng(u64, u64);
impl Prng {
    pub fn new(parts: &[u64]) -> Self {
        Prng(mix(parts), 0)
    }
    pub fn next(&mut self) -> u64 {
        self.1 += 1;
        mix(&[self.0, self.1])
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// lengths small and awkward
    pub fn blob(&mut self) -> Vec<u8> {
        let n = match self.below(8) {
            0 => 0,
            1 => 1,
            2 => 31 + self.below(3),
            3 => 63 + self.below(3),
            4 => 127 + self.below(70),
            _ => self.below(20),
        } as usize;
        if self.chance(60) { (0..n).map(|_| b"abcXYZ019 :_-.@"[self.below(15) as usize]).collect() } else { self.bytes(n) }
    }
}

/// The random source handed to the code under test.
#[derive(Clone, Default)]
pub struct Src(Rc<RefCell<(u64, u64, bool)>>);
impl Src {
    pub fn new(key: u64) -> Self {
        Src(Rc::new(RefCell::new((key, 0, false))))
    }
    pub fn rekey(&self, key: u64, stuck: bool) {
        *self.0.borrow_mut() = (key, 0, stuck);
    }
}
impl RngCore for Src {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        let mut s = self.0.borrow_mut();
        for x in d {
            let p = s.1;
            // a stuck source serves zeros for its first 128 bytes
            *x = if s.2 && p < 128 { 0 } else { (mix(&[s.0, p / 8, 5]) >> (8 * (p % 8))) as u8 };
            s.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Src {}

fn fnv(h: u64, s: &str) -> u64 {
    let mut h = h;
    for b in s.bytes().chain([10]) {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// What one session did.
#[derive(Clone)]
pub struct Log {
    pub main: u64,
    pub wire: Option<u64>,
    pub idx: Option<u64>,
    pub adj: Option<u64>,
    pub lines: Vec<String>,
}
impl Default for Log {
    fn default() -> Self {
        Log { main: 0xcbf2_9ce4_8422_2325, wire: None, idx: None, adj: None, lines: vec![] }
    }
}
impl Log {
    pub fn put(&mut self, s: String) {
        self.main = fnv(self.main, &s);
        self.lines.push(s);
    }
    /// encoded message: variant index, index as if no gated variant preceded it, the rest
    #[allow(dead_code)]
    pub fn wire(&mut self, idx: u32, adj: u32, rest: &[u8]) {
        self.wire = Some(fnv(self.wire.unwrap_or(1), &hex(rest)));
        self.idx = Some(fnv(self.idx.unwrap_or(1), &idx.to_string()));
        self.adj = Some(fnv(self.adj.unwrap_or(1), &adj.to_string()));
        self.lines.push(format!("wire {adj} {} index={idx}", hex(rest)));
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

#[derive(Default)]
pub struct Stats {
    pub now: u64,
    pub events: u64,
    pub sched: u64,
    pub faults: BTreeMap<&'static str, u64>,
}

pub struct World {
    pub st: Stats,
    queue: BinaryHeap<Reverse<(u64, u64, usize)>>,
    seq: u64,
}

/// One session's view of the simulation.
#[derive(Clone)]
pub struct Ctx {
    pub id: usize,
    pub w: Rc<RefCell<World>>,
    pub log: Rc<RefCell<Log>>,
    pub net: Rc<RefCell<Prng>>,
    pub off: u64,
    pub lossy: u64,
    pub crashy: u64,
    /// faults cease after this many attempts
    pub attempt: Rc<RefCell<u64>>,
}

pub struct Crash;

impl Ctx {
    pub fn put(&self, s: impl Into<String>) {
        self.log.borrow_mut().put(s.into());
    }
    pub fn fault(&self, k: &'static str) {
        *self.w.borrow_mut().st.faults.entry(k).or_insert(0) += 1;
    }
    pub async fn sleep(&self, us: u64) {
        {
            let mut w = self.w.borrow_mut();
            let (t, s) = (w.st.now + us, w.seq);
            w.seq += 1;
            w.queue.push(Reverse((t, s, self.id)));
        }
        Pause(false).await
    }
    /// One message crosses the network: delays, losses with retransmission, duplicates; the
    /// session may lose its process on the way.
    pub async fn cross(&self) -> Result<(), Crash> {
        let on = *self.attempt.borrow() < 3;
        loop {
            let (lost, dup, delay, crash) = {
                let mut n = self.net.borrow_mut();
                (n.chance(self.lossy), n.chance(self.lossy), n.below(40_000), n.chance(self.crashy))
            };
            if on && crash && self.off & 1 == 0 {
                self.fault("crash");
                self.sleep(delay * 4).await;
                return Err(Crash);
            }
            if on && lost && self.off & 2 == 0 {
                self.fault("loss");
                self.sleep(100_000).await;
                continue;
            }
            if dup && self.off & 2 == 0 {
                self.fault("duplicate");
            }
            self.sleep(delay).await;
            return Ok(());
        }
    }
}

struct Pause(bool);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            Poll::Pending
        }
    }
}

fn waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

/// Run the deployment of (seed, run). With `only`, other sessions do not take part.
pub fn deployment(seed: u64, run: u64, only: Option<usize>, off: u64) -> (Vec<Option<Log>>, Stats) {
    let base = mix(&[seed, run, 0xfea7]);
    let mut r = Prng::new(&[base, 1]);
    let n = 1 + r.below(7) as usize;
    let w = Rc::new(RefCell::new(World { st: Stats::default(), queue: BinaryHeap::new(), seq: 0 }));
    let shared = Rc::new(crate::auc::Shared::new(base));
    let mut logs = vec![];
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = bool>>>>> = vec![];
    for id in 0..n {
        let key = mix(&[base, 2, id as u64]);
        let mut p = Prng::new(&[key, 3]);
        let log = Rc::new(RefCell::new(Log::default()));
        let lossy = if p.chance(50) { p.below(40) } else { 0 };
        let crashy = if p.chance(30) { p.below(15) } else { 0 };
        let cx = Ctx { id, w: w.clone(), log: log.clone(), net: Rc::new(RefCell::new(Prng::new(&[key, 4]))), off, lossy, crashy, attempt: Rc::default() };
        logs.push(log);
        let fut: Option<Pin<Box<dyn Future<Output = bool>>>> = if only.is_some_and(|o| o != id) {
            None
        } else {
            Some(match p.below(10) {
                0 | 1 => Box::pin(crate::other::spake(cx, p, key)),
                2 | 3 => Box::pin(crate::other::srp(cx, p, key)),
                _ => Box::pin(crate::auc::session(cx, p, key, shared.clone())),
            })
        };
        let t = Prng::new(&[key, 5]).below(60_000);
        {
            let mut ww = w.borrow_mut();
            let s = ww.seq;
            ww.seq += 1;
            ww.queue.push(Reverse((t, s, id)));
        }
        futs.push(fut);
    }
    let wk = waker();
    let mut cx = Context::from_waker(&wk);
    let mut present = vec![false; n];
    loop {
        let Some(Reverse((t, _, id))) = w.borrow_mut().queue.pop() else { break };
        {
            let mut ww = w.borrow_mut();
            ww.st.now = t;
            ww.st.events += 1;
            ww.st.sched = mix(&[ww.st.sched, id as u64]);
        }
        if let Some(f) = &mut futs[id] {
            if let Poll::Ready(p) = f.as_mut().poll(&mut cx) {
                present[id] = p;
                futs[id] = None;
            }
        }
    }
    let st = std::mem::take(&mut w.borrow_mut().st);
    (logs.into_iter().zip(present).map(|(l, p)| p.then(|| l.borrow().clone())).collect(), st)
}
