//! Discrete-event simulator: nodes, sessions, an unreliable network with a reliable in-order
//! channel on top, crashes, restarts, stalls, skewed timers, an active attacker.
//! One plan is one exactly repeatable execution.
use crate::rng::{mix, Prng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BinaryHeap};
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, Default, Debug)]
pub struct Net {
    pub delay_min: u64,
    pub delay_max: u64,
    pub drop: u64,
    pub dup: u64,
    /// faults stop at this simulated time (ms)
    pub until: u64,
    /// (node a, node b, from ms, to ms): no frames between a and b
    pub parts: Vec<(u32, u32, u64, u64)>,
    /// (node, from ms, to ms): node processes nothing
    pub stalls: Vec<(u32, u64, u64)>,
    /// timer scale per node in percent
    pub skew: Vec<u64>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Crash {
    pub node: u32,
    /// either a time (ms) ...
    #[serde(default)]
    pub at: Option<u64>,
    /// ... or the moment the node handles payload `idx` of (sess, att)
    #[serde(default)]
    pub on: Option<(u32, u32, u32)>,
    /// 0 before processing, 1 after processing but before sending, 2 after sending
    pub phase: u8,
    pub down: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Tamper {
    pub sess: u32,
    pub att: u32,
    /// true: sent by the initiator
    pub from_i: bool,
    pub idx: u32,
    pub op: TOp,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum TOp {
    Flip(u64),
    Trunc(u32),
    Extend(String),
    Replace(String),
    Splice { sess: u32, att: u32, from_i: bool, idx: u32 },
    Field { f: String, op: String, arg: u64 },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Key {
    pub sess: u32,
    pub att: u32,
    pub epoch: u32,
    pub init: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Go,
    Done,
    Fail,
}
pub struct Step {
    pub out: Vec<Vec<u8>>,
    pub st: Status,
}
impl Step {
    pub fn go(out: Vec<Vec<u8>>) -> Self {
        Step { out, st: Status::Go }
    }
    pub fn done(out: Vec<Vec<u8>>) -> Self {
        Step { out, st: Status::Done }
    }
    pub fn fail() -> Self {
        Step { out: vec![], st: Status::Fail }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub class: String,
    pub msg: String,
}

/// Set in processes that only produce transcripts for comparison: histories are not judged there.
pub static TRANSCRIPTS_ONLY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn transcripts_only() -> bool {
    TRANSCRIPTS_ONLY.load(std::sync::atomic::Ordering::Relaxed)
}

/// What a run leaves behind.
#[derive(Default)]
pub struct Report {
    pub viols: Vec<Viol>,
    /// known-finding keys observed: (property, key, description)
    pub finds: Vec<(&'static str, &'static str, String)>,
    pub stats: BTreeMap<&'static str, u64>,
    /// schedule hash / full event digest
    pub sched: u64,
    pub digest: u64,
    pub events: u64,
    pub sim_us: u64,
    pub trace: Option<Vec<String>>,
    /// did the run exercise the property (counted as non-trivial)
    pub nontrivial: bool,
}

impl Report {
    pub fn viol(&mut self, props: &[&'static str], class: impl Into<String>, msg: impl Into<String>) {
        if self.viols.len() < 40 {
            self.viols.push(Viol { props: props.to_vec(), class: class.into(), msg: msg.into() });
        }
    }
    pub fn find(&mut self, prop: &'static str, key: &'static str, msg: impl Into<String>) {
        if !self.finds.iter().any(|f| f.0 == prop && f.1 == key) {
            self.finds.push((prop, key, msg.into()));
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn dig(&mut self, parts: &[u64]) {
        let d = self.digest;
        self.digest = mix(&[d, mix(parts)]);
    }
    pub fn dig_bytes(&mut self, b: &[u8]) {
        self.digest = mix(&[self.digest, crate::util::hash_bytes(b)]);
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                t.push(f());
            }
        }
    }
    pub fn merge_stats(&mut self, o: &Report) {
        for (k, v) in &o.stats {
            *self.stats.entry(k).or_insert(0) += v;
        }
        self.events += o.events;
        self.sim_us += o.sim_us;
    }
}

/// A payload as sent (and as delivered, if the attacker changed it).
#[derive(Clone)]
pub struct Rec {
    pub key: Key,
    pub idx: u32,
    pub sent: Rc<Vec<u8>>,
}

pub struct Cx {
    pub now: u64,
    pub seed: u64,
    pub rep: Report,
    pub hist: Vec<Rec>,
    /// operations the protocol asks the engine to schedule (delay us, op index)
    pub later: Vec<(u64, u32)>,
}

#[derive(Clone)]
pub struct SessCfg {
    pub inode: u32,
    pub anode: u32,
    pub start_ms: u64,
    pub max_att: u32,
    pub timeout_ms: u64,
}

pub trait Proto {
    /// Create an endpoint and return its first payloads.
    fn open(&mut self, cx: &mut Cx, k: Key) -> Step;
    fn deliver(&mut self, cx: &mut Cx, k: Key, idx: u32, payload: &[u8]) -> Step;
    /// Volatile state of a node is lost.
    fn crash(&mut self, cx: &mut Cx, node: u32);
    fn restart(&mut self, cx: &mut Cx, node: u32);
    /// An endpoint was abandoned (timeout, reset, crash).
    fn dropped(&mut self, cx: &mut Cx, k: Key);
    fn op(&mut self, cx: &mut Cx, i: u32);
    /// Attacker: returns replacement bytes for a payload.
    fn tamper(&mut self, cx: &mut Cx, k: Key, idx: u32, payload: &[u8]) -> Option<Vec<u8>>;
    /// After an attempt ended for the initiator: retry?
    fn want_retry(&mut self, cx: &mut Cx, sess: u32, att: u32, ok: bool) -> bool;
}

#[derive(Clone)]
enum Kind {
    Syn,
    SynAck,
    Data(u32, Rc<Vec<u8>>),
    Ack(u32),
    Rst,
}
#[derive(Clone)]
struct Frame {
    k: Key, // of the sender
    kind: Kind,
}

enum Ev {
    Start(u32),
    Arrive(Frame),
    Retx(Key, u32, u32),
    RetxSyn(Key, u32),
    Deadline(Key),
    Crash(usize),
    Restart(u32),
    Op(u32),
}

struct Item {
    t: u64,
    seq: u64,
    ev: Ev,
}
impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        (self.t, self.seq) == (o.t, o.seq)
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.t, o.seq).cmp(&(self.t, self.seq))
    }
}

struct Conn {
    peer_epoch: Option<u32>,
    out: Vec<Rc<Vec<u8>>>,
    acked: Vec<bool>,
    next_in: u32,
    buf: BTreeMap<u32, Rc<Vec<u8>>>,
    st: Status,
    /// initiator: counted as a finished attempt already
    closed: bool,
    frames: u32,
}

#[derive(Clone, Copy, Default)]
struct NodeSt {
    up: bool,
    epoch: u32,
}

pub struct Engine<P: Proto> {
    pub p: P,
    pub cx: Cx,
    net: Net,
    crashes: Vec<Crash>,
    crash_used: Vec<bool>,
    sess: Vec<SessCfg>,
    q: BinaryHeap<Item>,
    seq: u64,
    conns: BTreeMap<Key, Conn>,
    nodes: Vec<NodeSt>,
    cur: Vec<(u32, bool)>, // per session: current attempt, finished
    /// last event time at which each session finished
    pub fin_at: Vec<Option<u64>>,
    pub max_events: u64,
}

const RTO: u64 = 200_000;
const MAX_RETX: u32 = 400;

impl<P: Proto> Engine<P> {
    pub fn new(p: P, seed: u64, net: Net, crashes: Vec<Crash>, sess: Vec<SessCfg>, nodes: u32, trace: bool) -> Self {
        let n = sess.len();
        Engine {
            p,
            cx: Cx {
                now: 0,
                seed,
                rep: Report { trace: if trace { Some(vec![]) } else { None }, ..Default::default() },
                hist: vec![],
                later: vec![],
            },
            net,
            crash_used: vec![false; crashes.len()],
            crashes,
            sess,
            q: BinaryHeap::new(),
            seq: 0,
            conns: BTreeMap::new(),
            nodes: vec![NodeSt { up: true, epoch: 0 }; nodes as usize],
            cur: vec![(0, false); n],
            fin_at: vec![None; n],
            max_events: 60_000 + 1000 * n as u64,
        }
    }
    fn push(&mut self, t: u64, ev: Ev) {
        self.seq += 1;
        self.q.push(Item { t, seq: self.seq, ev });
    }
    pub fn schedule_op(&mut self, at_ms: u64, i: u32) {
        self.push(at_ms * 1000, Ev::Op(i));
    }
    fn node_of(&self, k: &Key) -> u32 {
        let s = &self.sess[k.sess as usize];
        if k.init {
            s.inode
        } else {
            s.anode
        }
    }
    fn timer(&self, node: u32, us: u64) -> u64 {
        let sc = self.net.skew.get(node as usize).copied().unwrap_or(100).clamp(10, 1000);
        us * sc / 100
    }

    fn transmit(&mut self, f: Frame, nth: u32) {
        let (kt, idx) = match &f.kind {
            Kind::Syn => (1, 0),
            Kind::SynAck => (2, 0),
            Kind::Data(i, _) => (3, *i),
            Kind::Ack(i) => (4, *i),
            Kind::Rst => (5, 0),
        };
        let k = f.k;
        let mut r = Prng::keyed(&[self.cx.seed, 0xbeef, k.sess as u64, k.att as u64, k.epoch as u64, k.init as u64, kt, idx as u64, nth as u64]);
        let faulty = self.cx.now < self.net.until * 1000;
        let lo = self.net.delay_min.max(1);
        let hi = self.net.delay_max.max(lo);
        if faulty {
            if r.chance(self.net.drop.min(90)) {
                self.cx.rep.count("frame_dropped");
                return;
            }
            let (a, b) = {
                let s = &self.sess[k.sess as usize];
                (s.inode, s.anode)
            };
            let ms = self.cx.now / 1000;
            if self.net.parts.iter().any(|p| ((p.0 == a && p.1 == b) || (p.0 == b && p.1 == a)) && ms >= p.2 && ms < p.3) {
                self.cx.rep.count("frame_lost_in_partition");
                return;
            }
            let d = r.range(lo, hi);
            if d > lo + (hi - lo) / 2 {
                self.cx.rep.count("frame_delayed");
            }
            let t = self.cx.now + d * 1000 + r.below(997);
            if r.chance(self.net.dup.min(90)) {
                self.cx.rep.count("frame_duplicated");
                let t2 = self.cx.now + r.range(lo, hi * 2) * 1000;
                self.push(t2, Ev::Arrive(f.clone()));
            }
            self.push(t, Ev::Arrive(f));
        } else {
            let t = self.cx.now + lo * 1000 + r.below(997);
            self.push(t, Ev::Arrive(f));
        }
    }

    fn send_out(&mut self, k: Key, outs: Vec<Vec<u8>>) {
        for o in outs {
            let idx = self.conns[&k].out.len() as u32;
            let sent = Rc::new(o);
            let wire = match self.p.tamper(&mut self.cx, k, idx, &sent) {
                Some(t) => {
                    if t != *sent {
                        self.cx.rep.count("payload_tampered");
                    }
                    Rc::new(t)
                }
                None => sent.clone(),
            };
            self.cx.rep.dig(&[11, k.sess as u64, k.att as u64, k.epoch as u64, k.init as u64, idx as u64]);
            let w = wire.clone();
            self.cx.rep.dig_bytes(&w);
            self.cx.rep.log(|| format!("  send s{} a{} e{} {} #{} {}", k.sess, k.att, k.epoch, if k.init { "I" } else { "A" }, idx, crate::util::hex(&w)));
            self.cx.hist.push(Rec { key: k, idx, sent });
            let c = self.conns.get_mut(&k).unwrap();
            c.out.push(wire);
            c.acked.push(false);
            self.send_data(k, idx, 0);
        }
    }
    fn send_data(&mut self, k: Key, idx: u32, nth: u32) {
        let c = &self.conns[&k];
        if k.init && c.peer_epoch.is_none() {
            return; // goes out when the connection is established
        }
        let pl = c.out[idx as usize].clone();
        if nth > 0 {
            self.cx.rep.count("retransmission");
        }
        let ke = if k.init { Key { epoch: c.peer_epoch.unwrap(), ..k } } else { k };
        self.transmit(Frame { k: ke, kind: Kind::Data(idx, pl) }, nth);
        let t = self.cx.now + self.timer(self.node_of(&k), RTO);
        self.push(t, Ev::Retx(k, idx, nth + 1));
    }

    /// Key of the initiator side connection (epoch 0 always).
    fn ikey(sess: u32, att: u32) -> Key {
        Key { sess, att, epoch: 0, init: true }
    }

    fn start_attempt(&mut self, s: u32) {
        let node = self.sess[s as usize].inode;
        if !self.nodes[node as usize].up || self.cur[s as usize].1 {
            return; // restarted by node restart
        }
        let att = self.cur[s as usize].0;
        let k = Self::ikey(s, att);
        if self.conns.contains_key(&k) {
            return;
        }
        self.cx.rep.count("attempts");
        self.cx.rep.log(|| format!("t={} start s{} a{}", self.cx.now, s, att));
        self.conns.insert(k, Conn { peer_epoch: None, out: vec![], acked: vec![], next_in: 0, buf: BTreeMap::new(), st: Status::Go, closed: false, frames: 0 });
        let step = self.p.open(&mut self.cx, k);
        let st = step.st;
        self.send_out(k, step.out);
        self.conns.get_mut(&k).unwrap().st = st;
        if st == Status::Fail {
            self.finish_attempt(k, false);
            return;
        }
        self.transmit(Frame { k, kind: Kind::Syn }, 0);
        let t = self.cx.now + self.timer(node, RTO);
        self.push(t, Ev::RetxSyn(k, 1));
        let dl = self.cx.now + self.timer(node, self.sess[s as usize].timeout_ms * 1000);
        self.push(dl, Ev::Deadline(k));
    }

    fn finish_attempt(&mut self, k: Key, ok: bool) {
        let s = k.sess as usize;
        if let Some(c) = self.conns.get_mut(&k) {
            if c.closed {
                return;
            }
            c.closed = true;
        }
        if self.cur[s].0 != k.att || self.cur[s].1 {
            return;
        }
        let now = self.cx.now;
        self.cx.rep.log(|| format!("t={} end s{} a{} ok={}", now, k.sess, k.att, ok));
        let retry = self.p.want_retry(&mut self.cx, k.sess, k.att, ok) && k.att + 1 < self.sess[s].max_att;
        if retry {
            self.cx.rep.count("retries");
            self.cur[s].0 += 1;
            let node = self.sess[s].inode;
            let back = 50_000 + mix(&[self.cx.seed, k.sess as u64, k.att as u64, 0xbac0]) % 400_000;
            let t = now + self.timer(node, back);
            self.push(t, Ev::Start(k.sess));
        } else {
            self.cur[s].1 = true;
            self.fin_at[s] = Some(now);
        }
    }

    fn drop_conn(&mut self, k: Key) {
        if let Some(c) = self.conns.get(&k) {
            if c.st == Status::Go {
                self.p.dropped(&mut self.cx, k);
            }
            let c = self.conns.get_mut(&k).unwrap();
            if c.st == Status::Go {
                c.st = Status::Fail;
            }
        }
    }

    fn do_crash(&mut self, node: u32, down: u64) {
        if !self.nodes[node as usize].up {
            return;
        }
        self.cx.rep.count("node_crash");
        let now = self.cx.now;
        self.cx.rep.log(|| format!("t={now} CRASH node {node}"));
        self.nodes[node as usize].up = false;
        self.nodes[node as usize].epoch += 1;
        let ks: Vec<Key> = self.conns.keys().copied().filter(|k| self.node_of(k) == node).collect();
        for k in ks {
            let live = { self.conns[&k].st == Status::Go };
            if live {
                self.cx.rep.count("session_in_flight_at_crash");
                self.p.dropped(&mut self.cx, k);
            }
            if k.init {
                // the attempt is lost; retried after restart
                let c = self.conns.get_mut(&k).unwrap();
                c.st = Status::Fail;
                c.out.clear();
                c.acked.clear();
                let was_closed = c.closed;
                c.closed = true;
                if !was_closed && self.cur[k.sess as usize].0 == k.att && !self.cur[k.sess as usize].1 {
                    let s = k.sess as usize;
                    let retry = self.p.want_retry(&mut self.cx, k.sess, k.att, false) && k.att + 1 < self.sess[s].max_att;
                    if retry {
                        self.cur[s].0 += 1;
                    } else {
                        self.cur[s].1 = true;
                        self.fin_at[s] = Some(now);
                    }
                }
            } else {
                self.conns.remove(&k);
            }
        }
        self.p.crash(&mut self.cx, node);
        self.push(now + down.max(1) * 1000, Ev::Restart(node));
    }

    fn crash_point(&mut self, node: u32, k: Key, idx: u32, phase: u8) -> bool {
        for i in 0..self.crashes.len() {
            let c = &self.crashes[i];
            if !self.crash_used[i] && c.node == node && c.phase == phase && c.on == Some((k.sess, k.att, idx)) {
                self.crash_used[i] = true;
                let d = c.down;
                match phase {
                    0 => self.cx.rep.count("crash_before_processing"),
                    1 => self.cx.rep.count("crash_after_processing_before_send"),
                    _ => self.cx.rep.count("crash_after_send"),
                }
                self.do_crash(node, d);
                return true;
            }
        }
        false
    }

    /// Counter per connection: a session's frames get the same fate however many others run.
    fn bump(&mut self, k: Key) -> u32 {
        self.conns.get_mut(&k).map_or(0, |c| {
            c.frames += 1;
            c.frames
        })
    }

    fn ack(&mut self, k: Key, idx: u32) {
        // acks are keyed by the receiver's own connection; epoch names the acceptor instance
        let ke = if k.init { Key { epoch: self.conns[&k].peer_epoch.unwrap_or(0), ..k } } else { k };
        let n = self.bump(k);
        self.transmit(Frame { k: ke, kind: Kind::Ack(idx) }, n);
    }

    fn pump(&mut self, k: Key) {
        loop {
            let node = self.node_of(&k);
            if !self.nodes[node as usize].up {
                return;
            }
            let (idx, pl, st) = {
                let Some(c) = self.conns.get_mut(&k) else { return };
                let idx = c.next_in;
                let Some(pl) = c.buf.remove(&idx) else { return };
                (idx, pl, c.st)
            };
            if st != Status::Go {
                // finished endpoints only acknowledge
                self.conns.get_mut(&k).unwrap().next_in += 1;
                self.ack(k, idx);
                continue;
            }
            if self.crash_point(node, k, idx, 0) {
                return;
            }
            self.conns.get_mut(&k).unwrap().next_in += 1;
            let now = self.cx.now;
            self.cx.rep.sched = mix(&[self.cx.rep.sched, k.sess as u64, k.att as u64, k.init as u64, idx as u64]);
            self.cx.rep.log(|| format!("t={} deliver s{} a{} e{} to {} #{}", now, k.sess, k.att, k.epoch, if k.init { "I" } else { "A" }, idx));
            self.cx.rep.dig(&[22, now, k.sess as u64, k.att as u64, k.init as u64, idx as u64]);
            self.cx.rep.count("payload_delivered");
            let step = self.p.deliver(&mut self.cx, k, idx, &pl);
            self.flush_later();
            if self.crash_point(node, k, idx, 1) {
                return;
            }
            self.conns.get_mut(&k).unwrap().st = step.st;
            self.send_out(k, step.out);
            self.ack(k, idx);
            if self.crash_point(node, k, idx, 2) {
                return;
            }
            if step.st == Status::Fail {
                let ke = if k.init { Key { epoch: self.conns[&k].peer_epoch.unwrap_or(0), ..k } } else { k };
                self.transmit(Frame { k: ke, kind: Kind::Rst }, idx);
                if k.init {
                    self.finish_attempt(k, false);
                }
            }
            self.check_complete(k);
        }
    }

    fn check_complete(&mut self, k: Key) {
        if k.init {
            let c = &self.conns[&k];
            if c.st == Status::Done && !c.closed && c.acked.iter().all(|x| *x) {
                self.finish_attempt(k, true);
            }
        }
    }

    fn flush_later(&mut self) {
        let l: Vec<_> = self.cx.later.drain(..).collect();
        for (d, i) in l {
            let t = self.cx.now + d;
            self.push(t, Ev::Op(i));
        }
    }

    fn arrive(&mut self, f: Frame) {
        let to_init = !f.k.init;
        let node = {
            let s = &self.sess[f.k.sess as usize];
            if to_init {
                s.inode
            } else {
                s.anode
            }
        };
        if !self.nodes[node as usize].up {
            self.cx.rep.count("frame_to_dead_node");
            return;
        }
        let ms = self.cx.now / 1000;
        if ms < self.net.until {
            if let Some(st) = self.net.stalls.iter().find(|s| s.0 == node && ms >= s.1 && ms < s.2) {
                let t = st.2 * 1000 + 1;
                self.cx.rep.count("frame_held_by_stall");
                self.push(t, Ev::Arrive(f));
                return;
            }
        }
        let kk = if to_init { Self::ikey(f.k.sess, f.k.att) } else { Key { sess: f.k.sess, att: f.k.att, epoch: f.k.epoch, init: false } };
        match f.kind {
            Kind::Syn => {
                let ep = self.nodes[node as usize].epoch;
                let k = Key { epoch: ep, ..kk };
                if !self.conns.contains_key(&k) {
                    self.conns.insert(k, Conn { peer_epoch: Some(0), out: vec![], acked: vec![], next_in: 0, buf: BTreeMap::new(), st: Status::Go, closed: false, frames: 0 });
                    let step = self.p.open(&mut self.cx, k);
                    self.transmit(Frame { k, kind: Kind::SynAck }, 0);
                    let st = step.st;
                    self.send_out(k, step.out);
                    self.conns.get_mut(&k).unwrap().st = st;
                    if st == Status::Fail {
                        self.transmit(Frame { k, kind: Kind::Rst }, 9999);
                    }
                    let dl = self.cx.now + self.timer(node, self.sess[k.sess as usize].timeout_ms * 2000);
                    self.push(dl, Ev::Deadline(k));
                } else {
                    let n = self.bump(k);
                    self.transmit(Frame { k, kind: Kind::SynAck }, 1 + n);
                }
            }
            Kind::SynAck => {
                let Some(c) = self.conns.get_mut(&kk) else { return };
                match c.peer_epoch {
                    None => {
                        c.peer_epoch = Some(f.k.epoch);
                        let n = c.out.len() as u32;
                        for i in 0..n {
                            self.send_data(kk, i, 0);
                        }
                    }
                    Some(e) if e != f.k.epoch && f.k.epoch > e => {
                        // the acceptor restarted
                        if c.st == Status::Go {
                            self.drop_conn(kk);
                        }
                        self.finish_attempt(kk, false);
                    }
                    _ => {}
                }
            }
            Kind::Data(idx, pl) => {
                if to_init {
                    let Some(c) = self.conns.get_mut(&kk) else {
                        return;
                    };
                    if c.closed && c.st == Status::Fail {
                        return;
                    }
                    if c.peer_epoch.is_none() {
                        // data overtook the SYNACK: establishes the connection too
                        c.peer_epoch = Some(f.k.epoch);
                        let n = c.out.len() as u32;
                        for i in 0..n {
                            self.send_data(kk, i, 0);
                        }
                    }
                    let c = self.conns.get_mut(&kk).unwrap();
                    if c.peer_epoch != Some(f.k.epoch) {
                        return;
                    }
                    if idx < c.next_in {
                        self.cx.rep.count("duplicate_payload_suppressed");
                        self.ack(kk, idx);
                        return;
                    }
                    if idx > c.next_in {
                        self.cx.rep.count("payload_out_of_order");
                    }
                    c.buf.insert(idx, pl);
                    self.pump(kk);
                } else {
                    match self.conns.get_mut(&kk) {
                        None => {
                            // unknown connection (crashed since): reset
                            self.cx.rep.count("reset_after_restart");
                            self.transmit(Frame { k: kk, kind: Kind::Rst }, 7000 + idx);
                        }
                        Some(c) => {
                            if idx < c.next_in {
                                self.cx.rep.count("duplicate_payload_suppressed");
                                self.ack(kk, idx);
                                return;
                            }
                            if idx > c.next_in {
                                self.cx.rep.count("payload_out_of_order");
                            }
                            c.buf.insert(idx, pl);
                            self.pump(kk);
                        }
                    }
                }
            }
            Kind::Ack(idx) => {
                if let Some(c) = self.conns.get_mut(&kk) {
                    if to_init && c.peer_epoch != Some(f.k.epoch) {
                        return;
                    }
                    if let Some(a) = c.acked.get_mut(idx as usize) {
                        *a = true;
                    }
                    self.check_complete(kk);
                }
            }
            Kind::Rst => {
                if let Some(c) = self.conns.get(&kk) {
                    if to_init && c.peer_epoch.is_some() && c.peer_epoch != Some(f.k.epoch) {
                        return;
                    }
                    if to_init {
                        self.drop_conn(kk);
                        self.finish_attempt(kk, false);
                    } else {
                        self.drop_conn(kk);
                    }
                }
            }
        }
    }

    /// Run to quiescence. Returns false if the event cap was hit.
    pub fn run(&mut self) -> bool {
        self.begin();
        while let Some(live) = self.step() {
            if !live {
                return false;
            }
        }
        true
    }

    /// Time of the next event.
    pub fn next_at(&self) -> Option<u64> {
        self.q.peek().map(|i| i.t)
    }

    pub fn begin(&mut self) {
        for s in 0..self.sess.len() {
            if self.sess[s].max_att == 0 {
                self.cur[s].1 = true;
                continue;
            }
            let t = self.sess[s].start_ms * 1000;
            self.push(t, Ev::Start(s as u32));
        }
        for i in 0..self.crashes.len() {
            if let Some(t) = self.crashes[i].at {
                self.push(t * 1000, Ev::Crash(i));
            }
        }
    }

    /// One event. None: quiescent; Some(false): event cap hit.
    pub fn step(&mut self) -> Option<bool> {
        let it = self.q.pop()?;
        {
            self.cx.now = it.t;
            self.cx.rep.events += 1;
            if self.cx.rep.events > self.max_events {
                return Some(false);
            }
            if matches!(it.ev, Ev::Start(_) | Ev::Arrive(_) | Ev::Crash(_) | Ev::Restart(_) | Ev::Op(_)) {
                self.cx.rep.sim_us = it.t;
            }
            match it.ev {
                Ev::Start(s) => self.start_attempt(s),
                Ev::Arrive(f) => self.arrive(f),
                Ev::RetxSyn(k, n) => {
                    if n < MAX_RETX && self.conns.get(&k).is_some_and(|c| c.peer_epoch.is_none() && c.st != Status::Fail && !c.closed) {
                        self.transmit(Frame { k, kind: Kind::Syn }, n);
                        let t = self.cx.now + self.timer(self.node_of(&k), RTO);
                        self.push(t, Ev::RetxSyn(k, n + 1));
                    }
                }
                Ev::Retx(k, idx, n) => {
                    if n < MAX_RETX && self.conns.get(&k).is_some_and(|c| c.st != Status::Fail && !c.acked.get(idx as usize).copied().unwrap_or(true)) {
                        // acceptors stop retransmitting to initiators that went away
                        let gone = !k.init && !self.conns.get(&Self::ikey(k.sess, k.att)).is_some_and(|c| !(c.closed && c.st == Status::Fail));
                        if !gone {
                            self.send_data(k, idx, n);
                        }
                    }
                }
                Ev::Deadline(k) => {
                    if let Some(c) = self.conns.get(&k) {
                        if c.st == Status::Go || (k.init && !c.closed) {
                            self.cx.rep.count("attempt_timeout");
                            self.drop_conn(k);
                            if k.init {
                                self.finish_attempt(k, false);
                            }
                        }
                    }
                }
                Ev::Crash(i) => {
                    if !self.crash_used[i] {
                        self.crash_used[i] = true;
                        let (n, d) = (self.crashes[i].node, self.crashes[i].down);
                        self.do_crash(n, d);
                    }
                }
                Ev::Restart(n) => {
                    self.nodes[n as usize].up = true;
                    let now = self.cx.now;
                    self.cx.rep.log(|| format!("t={now} RESTART node {n}"));
                    self.cx.rep.count("node_restart");
                    self.p.restart(&mut self.cx, n);
                    for s in 0..self.sess.len() {
                        if self.sess[s].inode == n && !self.cur[s].1 && self.sess[s].start_ms * 1000 <= now {
                            self.start_attempt(s as u32);
                        }
                    }
                }
                Ev::Op(i) => {
                    self.p.op(&mut self.cx, i);
                    self.flush_later();
                }
            }
        }
        Some(true)
    }
}
