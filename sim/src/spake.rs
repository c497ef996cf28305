//! SPAKE2 deployment in the simulator: pairs of parties exchanging one message each, an
//! active attacker, crashes with or without re-derivation from the same random stream.
use crate::auc_gen::{gen_crashes, gen_net};
use crate::engine::*;
use crate::osrng::with_os_rng;
use crate::reference as rf;
use crate::reference::SpRole;
use crate::rng::*;
use crate::util::*;
use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT, EIGHT_TORSION};
use curve25519_dalek::edwards::CompressedEdwardsY;
use curve25519_dalek::scalar::Scalar;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use spake2::{Ed25519Group, Error, Identity, Password, Spake2};
use std::collections::BTreeMap;

type Sp = Spake2<Ed25519Group>;

#[derive(Serialize, Deserialize, Clone)]
pub struct Party {
    /// 0 A, 1 B, 2 symmetric
    pub role: u8,
    pub pw: Hx,
    pub ida: Hx,
    pub idb: Hx,
    /// 0 real, 1 independent peer, 2 replays session `replay_of`
    pub kind: u8,
    pub replay_of: u32,
    /// started through the API that uses the operating system's random source
    pub os: bool,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sess {
    pub inode: u32,
    pub anode: u32,
    pub start_ms: u64,
    pub max_att: u32,
    pub timeout_ms: u64,
    pub i: Party,
    pub a: Party,
    /// state lost in a crash is derived again from the same random stream
    pub rebuild: bool,
    #[serde(default)]
    pub twin: Option<u32>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Probe {
    pub ep: u32,
    /// 0 the peer's message, 1 own message, 2 another session's message
    pub base: u8,
    pub op: TOp,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub seed: u64,
    pub prop: String,
    pub nodes: u32,
    pub net: Net,
    pub crashes: Vec<Crash>,
    pub tampers: Vec<Tamper>,
    pub sess: Vec<Sess>,
    pub probes: Vec<Probe>,
    #[serde(default)]
    pub salt: u64,
}

pub fn role(r: u8) -> SpRole {
    match r % 3 {
        0 => SpRole::A,
        1 => SpRole::B,
        _ => SpRole::S,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Pending,
    Key(Vec<u8>),
    Err(Error),
    App(&'static str),
}

pub struct Ep {
    pub key: Key,
    pub p: Party,
    pub sent: Vec<u8>,
    pub recv: Option<Vec<u8>>,
    pub out: Out,
    pub dropped: bool,
    rng: LibRng,
    st: Option<Sp>,
    x: Option<Scalar>,
    renders: Vec<Vec<u8>>,
}

pub struct World<'a> {
    pub plan: &'a Plan,
    pub eps: Vec<Ep>,
    idx: BTreeMap<Key, usize>,
}

pub fn start(p: &Party, rng: &LibRng) -> (Sp, Vec<u8>) {
    let pw = Password::new(&p.pw.0);
    let (ia, ib) = (Identity::new(&p.ida.0), Identity::new(&p.idb.0));
    match (role(p.role), p.os) {
        (SpRole::A, false) => Sp::start_a_with_rng(&pw, &ia, &ib, rng.clone()),
        (SpRole::B, false) => Sp::start_b_with_rng(&pw, &ia, &ib, rng.clone()),
        (SpRole::S, false) => Sp::start_symmetric_with_rng(&pw, &ia, rng.clone()),
        (SpRole::A, true) => with_os_rng(rng, || Sp::start_a(&pw, &ia, &ib)),
        (SpRole::B, true) => with_os_rng(rng, || Sp::start_b(&pw, &ia, &ib)),
        (SpRole::S, true) => with_os_rng(rng, || Sp::start_symmetric(&pw, &ia)),
    }
}

/// What `finish` must answer: an error or some 32-byte key.
fn expect(r: SpRole, m: &[u8]) -> Option<Error> {
    if m.len() != 33 {
        return Some(Error::WrongLength);
    }
    if m[0] != r.peer_marker() {
        return Some(Error::BadSide);
    }
    let b: [u8; 32] = m[1..].try_into().unwrap();
    if CompressedEdwardsY(b).decompress().is_none() {
        return Some(Error::CorruptMessage);
    }
    None
}

/// The secret scalar, if it comes from the stream in one of the usual ways.
fn find_scalar(p: &Party, rng: &LibRng, msg: &[u8]) -> Option<Scalar> {
    let reads = rng.0.borrow().reads.clone();
    let mut cands: Vec<u64> = vec![0];
    for (o, _) in &reads {
        if !cands.contains(o) {
            cands.push(*o);
        }
    }
    for o in cands.into_iter().take(8) {
        let w: [u8; 64] = rng.served(o, 64).try_into().unwrap();
        let n: [u8; 32] = w[..32].try_into().unwrap();
        for s in [Scalar::from_bytes_mod_order_wide(&w), Scalar::from_bytes_mod_order(n)] {
            if rf::spake_msg(role(p.role), &p.pw.0, &s) == msg {
                return Some(s);
            }
        }
    }
    None
}

fn b32(b: &[u8]) -> [u8; 32] {
    b.try_into().unwrap()
}

fn ref_key(p: &Party, x: &Scalar, sent: &[u8], recv: &[u8]) -> Option<Vec<u8>> {
    rf::spake_key(role(p.role), &p.pw.0, &p.ida.0, &p.idb.0, x, &b32(&sent[1..]), &b32(&recv[1..])).map(|k| k.to_vec())
}

const NONCANON: [[u8; 2]; 6] = [[0xed, 0x7f], [0xee, 0x7f], [0xed, 0xff], [0xee, 0xff], [0xf0, 0x7f], [0xff, 0x7f]];

fn field(m: &[u8], f: &str, arg: u64) -> Vec<u8> {
    let mut v = m.to_vec();
    match f {
        "marker" => {
            if let Some(b) = v.first_mut() {
                *b = arg as u8;
            }
            return v;
        }
        "len" => {
            let n = arg as usize % 300;
            while v.len() < n {
                let l = v.len();
                let b = v.get(l % 33).copied().unwrap_or(0);
                v.push(b);
            }
            v.truncate(n);
            return v;
        }
        "shift" => {
            v.insert(0, arg as u8);
            v.pop();
            return v;
        }
        "recode" => return recode(&v, arg),
        "endmarker" => {
            // marker last, or left out
            if !v.is_empty() {
                v.rotate_left(1);
                if arg % 2 == 1 {
                    v.pop();
                }
            }
            return v;
        }
        _ => {}
    }
    if v.len() != 33 {
        return v;
    }
    let body = b32(&v[1..]);
    let p = CompressedEdwardsY(body).decompress();
    let nb: [u8; 32] = match f {
        "lowpt" => EIGHT_TORSION[arg as usize % 8].compress().to_bytes(),
        "noncanon" => {
            let [lo, hi] = NONCANON[arg as usize % 6];
            let mut b = [0xff; 32];
            b[0] = lo;
            b[31] = hi;
            b
        }
        "torsion" => match p {
            Some(p) => (p + EIGHT_TORSION[1 + arg as usize % 7]).compress().to_bytes(),
            None => body,
        },
        "neg" => {
            let mut b = body;
            b[31] ^= 0x80;
            b
        }
        "addbase" => match p {
            Some(p) => (p + ED25519_BASEPOINT_POINT * Scalar::from(arg + 1)).compress().to_bytes(),
            None => body,
        },
        "nonpoint" => {
            let mut b = body;
            b[0] = b[0].wrapping_add(arg as u8);
            while CompressedEdwardsY(b).decompress().is_some() {
                b[0] = b[0].wrapping_add(1);
                b[7] = b[7].wrapping_mul(3).wrapping_add(1);
            }
            b
        }
        "fill" => [arg as u8; 32],
        // the constants of the construction, alone or with the base point
        "const" => {
            let c = rf::spake_consts()[arg as usize % 3];
            let t = match arg / 3 % 5 {
                0 => c,
                1 => -c,
                2 => c + ED25519_BASEPOINT_POINT,
                3 => ED25519_BASEPOINT_POINT,
                _ => -ED25519_BASEPOINT_POINT,
            };
            t.compress().to_bytes()
        }
        _ => body,
    };
    v[1..].copy_from_slice(&nb);
    v
}

/// A message made from a guess of the receiver's password: a small multiple of the base point
/// (none at all for 0) and possibly a low-order point, blinded with the guess.
fn craft(p: &Party, arg: u64) -> Vec<u8> {
    let peer = match role(p.role) {
        SpRole::A => SpRole::B,
        SpRole::B => SpRole::A,
        SpRole::S => SpRole::S,
    };
    let guess = match arg / 3 % 4 {
        0 | 1 => p.pw.0.clone(),
        2 => [&p.pw.0[..], b"~other"].concat(),
        _ => near_miss(&mut Prng::keyed(&[arg, 0xc4af]), &p.pw.0),
    };
    let m = rf::spake_msg(peer, &guess, &Scalar::from(arg % 3));
    if arg / 12 % 3 == 0 {
        return field(&m, "torsion", arg / 36);
    }
    if arg / 12 % 3 == 1 {
        return field(&m, "neg", 0);
    }
    m
}

fn splice(hist: &[Rec], sess: u32, from_i: bool) -> Option<Vec<u8>> {
    hist.iter().find(|r| r.key.sess == sess && r.key.init == from_i).map(|r| r.sent.to_vec())
}

fn apply(op: &TOp, m: &[u8], hist: &[Rec]) -> Option<Vec<u8>> {
    let mut v = m.to_vec();
    match op {
        TOp::Flip(b) => {
            if !v.is_empty() {
                let i = (*b / 8) as usize % v.len();
                v[i] ^= 1 << (b % 8);
            }
        }
        TOp::Trunc(n) => v.truncate(*n as usize),
        TOp::Extend(h) => v.extend_from_slice(&unhex(h.trim_start_matches("x:"))?),
        TOp::Replace(h) => v = unhex(h.trim_start_matches("x:"))?,
        TOp::Splice { sess, from_i, .. } => v = splice(hist, *sess, *from_i)?,
        TOp::Field { f, arg, .. } => v = field(m, f, *arg),
    }
    Some(v)
}

impl<'a> World<'a> {
    fn party(&self, k: &Key) -> Party {
        let s = &self.plan.sess[k.sess as usize];
        if k.init {
            s.i.clone()
        } else {
            s.a.clone()
        }
    }
    fn rng(&self, k: &Key) -> LibRng {
        let s = &self.plan.sess[k.sess as usize];
        let (a, e) = if s.rebuild { (0, 0) } else { (k.att as u64, k.epoch as u64) };
        LibRng::keyed(&[self.plan.seed, self.plan.salt, 0x5a4e, s.twin.unwrap_or(k.sess) as u64, k.init as u64, a, e])
    }
}

fn renders(st: &Sp) -> Vec<Vec<u8>> {
    vec![format!("{st:?}").into_bytes(), format!("{st:#?}").into_bytes()]
}

impl Proto for World<'_> {
    fn open(&mut self, cx: &mut Cx, k: Key) -> Step {
        let p = self.party(&k);
        let rng = self.rng(&k);
        let mut ep = Ep { key: k, p: p.clone(), sent: vec![], recv: None, out: Out::Pending, dropped: false, rng: rng.clone(), st: None, x: None, renders: vec![] };
        match p.kind {
            0 => {
                let (st, m) = start(&p, &rng);
                if m.len() != 33 || m[0] != role(p.role).marker() {
                    cx.rep.viol(&["S01", "S04"], "bad-outbound", format!("{k:?}: outbound message {} is not marker + 32 bytes", hex(&m)));
                }
                ep.renders = renders(&st);
                ep.sent = m;
                ep.st = Some(st);
                if p.os {
                    cx.rep.count("os_rng_session");
                    if rng.pos() == 0 {
                        cx.rep.viol(&["S05"], "no-entropy", format!("{k:?}: started without reading the operating system's random source"));
                    }
                }
            }
            1 => {
                let x = Scalar::from_bytes_mod_order_wide(&rng.served(0, 64).try_into().unwrap());
                ep.sent = rf::spake_msg(role(p.role), &p.pw.0, &x);
                ep.x = Some(x);
            }
            _ => {
                ep.sent = splice(&cx.hist, p.replay_of, k.init).unwrap_or_else(|| vec![role(p.role).marker(); 33]);
                cx.rep.count("replayed_message");
            }
        }
        let m = ep.sent.clone();
        self.idx.insert(k, self.eps.len());
        self.eps.push(ep);
        Step::go(vec![m])
    }

    fn deliver(&mut self, cx: &mut Cx, k: Key, idx: u32, m: &[u8]) -> Step {
        if idx != 0 {
            return Step::fail();
        }
        let ep = &mut self.eps[self.idx[&k]];
        ep.recv = Some(m.to_vec());
        let r = role(ep.p.role);
        match ep.p.kind {
            0 => {
                let st = ep.st.take().unwrap();
                ep.renders.extend(renders(&st));
                let want = expect(r, m);
                let res = st.finish(m);
                judge_finish(&mut cx.rep, &format!("{k:?} role {r:?}"), m, &want, &res);
                cx.rep.dig_bytes(format!("{res:?}").as_bytes());
                match res {
                    Ok(key) => {
                        ep.out = Out::Key(key);
                        Step::done(vec![])
                    }
                    Err(e) => {
                        cx.rep.count("finish_refused");
                        ep.renders.push(format!("{e:?}").into_bytes());
                        ep.renders.push(format!("{e}").into_bytes());
                        ep.out = Out::Err(e);
                        Step::fail()
                    }
                }
            }
            1 => {
                if let Some(e) = expect(r, m) {
                    ep.out = Out::Err(e);
                    return Step::fail();
                }
                match ref_key(&ep.p, &ep.x.unwrap(), &ep.sent, m) {
                    Some(key) => {
                        ep.out = Out::Key(key);
                        Step::done(vec![])
                    }
                    None => Step::fail(),
                }
            }
            _ => {
                ep.out = Out::App("replayer");
                Step::done(vec![])
            }
        }
    }

    fn crash(&mut self, _: &mut Cx, _: u32) {}
    fn restart(&mut self, _: &mut Cx, _: u32) {}
    fn dropped(&mut self, _: &mut Cx, k: Key) {
        if let Some(i) = self.idx.get(&k) {
            self.eps[*i].dropped = true;
        }
    }
    fn op(&mut self, _: &mut Cx, _: u32) {}
    fn tamper(&mut self, cx: &mut Cx, k: Key, idx: u32, m: &[u8]) -> Option<Vec<u8>> {
        let t = self.plan.tampers.iter().find(|t| t.sess == k.sess && t.att == k.att && t.from_i == k.init && t.idx == idx)?;
        let v = apply(&t.op, m, &cx.hist)?;
        if v != m {
            cx.rep.count(match t.op {
                TOp::Flip(_) => "tamper_flip",
                TOp::Trunc(_) => "tamper_truncate",
                TOp::Extend(_) => "tamper_extend",
                TOp::Replace(_) => "tamper_replace",
                TOp::Splice { .. } => "tamper_splice_or_reflect",
                TOp::Field { .. } => "tamper_field",
            });
        }
        Some(v)
    }
    fn want_retry(&mut self, _: &mut Cx, _: u32, _: u32, ok: bool) -> bool {
        !ok
    }
}

fn judge_finish(rep: &mut Report, who: &str, m: &[u8], want: &Option<Error>, res: &Result<Vec<u8>, Error>) {
    match (want, res) {
        (None, Ok(k)) => {
            if k.len() != 32 {
                rep.viol(&["S03", "S01"], "key-length", format!("{who}: key of {} bytes", k.len()));
            }
        }
        (Some(e), Err(f)) if e == f => {}
        (None, Err(f)) => rep.viol(&["S03", "S01"], "valid-refused", format!("{who}: valid message {} refused with {f:?}", hex(m))),
        (Some(e), Ok(_)) => rep.viol(&["S03", "S02"], "malformed-accepted", format!("{who}: message {} accepted, expected {e:?}", hex(m))),
        (Some(e), Err(f)) => rep.viol(&["S03"], "wrong-error", format!("{who}: message {} reported as {f:?}, expected {e:?}", hex(m))),
    }
}

type Ident = (u8, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>);
fn ident(e: &Ep) -> Ident {
    let s = role(e.p.role) == SpRole::S;
    (e.p.role % 3, e.p.pw.0.clone(), e.p.ida.0.clone(), if s { vec![] } else { e.p.idb.0.clone() }, e.sent.clone(), e.recv.clone().unwrap_or_default())
}
fn matches(a: &Ident, b: &Ident) -> bool {
    let compl = matches!((a.0, b.0), (0, 1) | (1, 0) | (2, 2));
    compl && a.1 == b.1 && a.2 == b.2 && a.3 == b.3 && a.4 == b.5 && a.5 == b.4
}

fn same_inputs(i: &Party, a: &Party) -> bool {
    let compl = matches!((i.role % 3, a.role % 3), (0, 1) | (1, 0) | (2, 2));
    compl && i.pw == a.pw && i.ida == a.ida && (i.role % 3 == 2 || i.idb == a.idb)
}

/// All textual forms of public message bytes, removed before comparing renderings of twins.
fn scrub(r: &[u8], m: &[u8]) -> String {
    let mut s = String::from_utf8_lossy(r).into_owned();
    for part in [m, &m[1..]] {
        let h = hex(part);
        let hu: String = part.iter().map(|b| format!("{b:x}")).collect();
        let d = part.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ");
        let dl = part.iter().map(|b| format!("{b},")).collect::<Vec<_>>();
        for f in [h.clone(), h.to_uppercase(), hu, d] {
            s = s.replace(&f, "<msg>");
        }
        // pretty-printed list
        let mut out = String::new();
        let toks: Vec<&str> = s.split_whitespace().collect();
        let mut i = 0;
        while i < toks.len() {
            if toks.len() - i >= dl.len() && (0..dl.len()).all(|j| toks[i + j] == dl[j]) {
                out.push_str("<msg> ");
                i += dl.len();
            } else {
                out.push_str(toks[i]);
                out.push(' ');
                i += 1;
            }
        }
        s = out;
    }
    s
}

fn oracle(w: &mut World<'_>, cx: &mut Cx) {
    if crate::engine::transcripts_only() {
        return;
    }
    let plan = w.plan;
    let prop = plan.prop.as_str();
    let rep = &mut cx.rep;
    let mut nt = false;

    // keys of matching endpoints agree, all others differ
    let done: Vec<(usize, Ident, &Vec<u8>)> = w.eps.iter().enumerate().filter_map(|(i, e)| if let Out::Key(k) = &e.out { Some((i, ident(e), k)) } else { None }).collect();
    for (x, (i, a, ka)) in done.iter().enumerate() {
        for (j, b, kb) in &done[x + 1..] {
            let (ea, eb) = (&w.eps[*i], &w.eps[*j]);
            if a == b {
                if ka != kb {
                    rep.viol(&["S01"], "rebuilt-key-differs", format!("{:?} and {:?} hold the same state and messages but different keys", ea.key, eb.key));
                } else {
                    rep.count("rebuilt_endpoint_same_key");
                }
            } else if matches(a, b) {
                let reals = ea.p.kind == 0 && eb.p.kind == 0;
                rep.count(if reals { "honest_pair_finished" } else { "interop_pair_finished" });
                nt |= (prop == "S01" && reals) || (prop == "S04" && !reals) || prop == "S05";
                if ka != kb {
                    let ps: &[&'static str] = if reals { &["S01"] } else { &["S04"] };
                    rep.viol(ps, "keys-differ", format!("{:?} ({:?}) and {:?} ({:?}) exchanged unmodified messages with equal inputs: {} vs {}", ea.key, role(ea.p.role), eb.key, role(eb.p.role), hex(ka), hex(kb)));
                }
            } else {
                rep.count("non_matching_keys_compared");
                nt |= prop == "S02";
                if ka != kb && ka.chunks_exact(8).zip(kb.chunks_exact(8)).any(|(x, y)| x == y) {
                    rep.viol(&["S02", "S05"], "keys-related", format!("the keys {} and {} of {:?} and {:?} share bytes although inputs or messages differ", hex(ka), hex(kb), ea.key, eb.key));
                }
                if ka == kb {
                    rep.viol(&["S02", "S05"], "keys-collide", format!("{:?} and {:?} derived the same key {} although inputs or messages differ", ea.key, eb.key, hex(ka)));
                }
            }
        }
    }

    // messages never repeat, except from re-derived state
    let mut seen: BTreeMap<&[u8], usize> = BTreeMap::new();
    for (i, e) in w.eps.iter().enumerate() {
        if e.p.kind == 2 {
            continue;
        }
        let body = &e.sent[1.min(e.sent.len())..];
        if let Some(j) = seen.insert(body, i) {
            let f = &w.eps[j];
            let again = f.key.sess == e.key.sess && f.key.init == e.key.init && plan.sess[e.key.sess as usize].rebuild;
            if !again {
                rep.viol(&["S05"], "message-repeats", format!("{:?} and {:?} sent the same element {}", f.key, e.key, hex(body)));
            }
        }
    }
    for e in &w.eps {
        let s = &plan.sess[e.key.sess as usize];
        if s.rebuild && e.p.kind == 0 {
            if let Some(f) = w.eps.iter().find(|f| f.key.sess == e.key.sess && f.key.init == e.key.init) {
                if f.sent != e.sent {
                    rep.viol(&["S01", "X02"], "rebuilt-message-differs", format!("{:?}: state derived again from the same stream sends another message", e.key));
                } else if f.key != e.key {
                    rep.count("endpoint_rebuilt");
                }
            }
        }
    }
    // the attempts of different endpoints with the same stream position share nothing
    if prop == "S05" && w.eps.len() > 2 {
        nt = true;
    }

    // the published construction
    for e in w.eps.iter_mut().filter(|e| e.p.kind == 0) {
        if e.x.is_none() {
            e.x = find_scalar(&e.p, &e.rng, &e.sent);
        }
        match (&e.x, &e.out, &e.recv) {
            (None, ..) => rep.count("scalar_not_located"),
            (Some(x), Out::Key(k), Some(m)) if m.len() == 33 => {
                rep.count("key_recomputed_independently");
                if let Some(want) = ref_key(&e.p, x, &e.sent, m) {
                    if want != *k {
                        rep.viol(&["S04"], "key-formula", format!("{:?} ({:?}): key {} but the published construction gives {}", e.key, role(e.p.role), hex(k), hex(&want)));
                    }
                }
            }
            _ => {}
        }
    }

    // liveness
    for (s, c) in plan.sess.iter().enumerate() {
        let touched = plan.tampers.iter().any(|t| t.sess == s as u32);
        if c.max_att >= 10 && c.timeout_ms >= 4000 && same_inputs(&c.i, &c.a) && c.i.kind < 2 && c.a.kind < 2 && !touched {
            let ok = w.eps.iter().any(|e| e.key.sess == s as u32 && e.key.init && matches!(e.out, Out::Key(_)));
            if !ok {
                let ps: &[&'static str] = if c.i.kind == 0 && c.a.kind == 0 { &["S01"] } else { &["S04"] };
                rep.viol(ps, "no-progress", format!("session {s}: no key although faults stopped and the parties match"));
            }
        }
    }

    // probes against fresh states with the same secrets
    let reals: Vec<usize> = (0..w.eps.len()).filter(|i| w.eps[*i].p.kind == 0).collect();
    for (pi, pr) in plan.probes.iter().enumerate() {
        if reals.is_empty() {
            break;
        }
        let e = &w.eps[reals[pr.ep as usize % reals.len()]];
        let peer = cx.hist.iter().find(|r| r.key.sess == e.key.sess && r.key.init != e.key.init).map(|r| r.sent.to_vec());
        let other = cx.hist.iter().find(|r| r.key.sess != e.key.sess && r.key.init != e.key.init).map(|r| r.sent.to_vec());
        let base = match pr.base {
            0 => peer.clone(),
            1 => Some(e.sent.clone()),
            _ => other,
        };
        let Some(base) = base else { continue };
        let m = match &pr.op {
            TOp::Field { f, arg, .. } if f == "craft" => craft(&e.p, *arg),
            op => match apply(op, &base, &cx.hist) {
                Some(m) => m,
                None => continue,
            },
        };
        let again = LibRng::default();
        again.0.borrow_mut().key = e.rng.0.borrow().key;
        let (st, m1) = start(&e.p, &again);
        if m1 != e.sent {
            rep.viol(&["X02"], "restart-differs", format!("{:?}: the same inputs and stream give another message", e.key));
            continue;
        }
        let r = role(e.p.role);
        let want = expect(r, &m);
        let res = st.finish(&m);
        rep.count("probe_delivered");
        nt |= prop == "S03";
        judge_finish(rep, &format!("probe {pi} at {:?} role {r:?}", e.key), &m, &want, &res);
        if let (Ok(k), Some(x)) = (&res, &e.x) {
            if want.is_none() && ref_key(&e.p, x, &e.sent, &m).is_some_and(|w| w != *k) {
                rep.viol(&["S04"], "key-formula", format!("probe {pi} at {:?}: key for message {} is not that of the published construction", e.key, hex(&m)));
            }
        }
        if let (Ok(k), Out::Key(k0), Some(m0)) = (&res, &e.out, &e.recv) {
            if *m0 != m && k == k0 {
                rep.viol(&["S02"], "key-ignores-message", format!("{:?}: messages {} and {} give the same key", e.key, hex(m0), hex(&m)));
            }
            if *m0 == m && k != k0 {
                rep.viol(&["S01", "X02"], "key-not-determined", format!("{:?}: the same state and message give another key", e.key));
            }
        }
        // key must also differ from the peer's unless it is the peer's exact message
        if let (Ok(k), Some(pm)) = (&res, &peer) {
            if *pm != m {
                for f in w.eps.iter().filter(|f| f.key.sess == e.key.sess && f.key.init != e.key.init) {
                    if matches!(&f.out, Out::Key(kf) if kf == k) {
                        rep.viol(&["S02"], "altered-message-same-key", format!("{:?}: altered message {} yields the peer's key", e.key, hex(&m)));
                    }
                }
            }
        }
        if prop == "S06" || pi % 4 == 0 {
            let mut tp = e.p.clone();
            tp.pw = Hx([&e.p.pw.0[..], b"~other"].concat());
            let again = LibRng::default();
            again.0.borrow_mut().key = e.rng.0.borrow().key;
            let (t, _) = start(&tp, &again);
            let tr = t.finish(&m);
            if tr.as_ref().err() != res.as_ref().err() {
                rep.viol(&["S06"], "error-depends-on-password", format!("{:?}: message {} gives {:?} or {:?} depending on the password", e.key, hex(&m), res.err(), tr.err()));
            }
        }
    }

    // nothing reveals the secrets
    let rep = &mut cx.rep;
    for e in w.eps.iter().filter(|e| e.p.kind == 0) {
        if prop != "S06" && plan.seed % 8 != 0 {
            break;
        }
        let mut tp = e.p.clone();
        tp.pw = Hx([&e.p.pw.0[..], b"+twin"].concat());
        if e.p.pw.0.len() > 2 && e.key.sess % 2 == 1 {
            // same length
            tp.pw = e.p.pw.clone();
            tp.pw.0[0] ^= 0x15;
        }
        let again = LibRng::default();
        again.0.borrow_mut().key = e.rng.0.borrow().key;
        let (t, tm) = start(&tp, &again);
        if tm == e.sent {
            rep.viol(&["S02", "S04"], "message-ignores-password", format!("{:?}: another password gives the same message", e.key));
        }
        let trs = renders(&t);
        for (a, b) in e.renders.iter().zip(&trs) {
            if tm.len() == 33 && e.sent.len() == 33 && scrub(a, &e.sent) != scrub(b, &tm) {
                rep.viol(&["S06"], "rendering-depends-on-password", format!("{:?}: {} vs {}", e.key, String::from_utf8_lossy(a), String::from_utf8_lossy(&b)));
            }
        }
        let mut secrets: Vec<(&str, Vec<u8>)> = vec![("password", e.p.pw.0.clone())];
        secrets.push(("password scalar", rf::spake_pw_scalar(&e.p.pw.0).to_bytes().to_vec()));
        if let Some(x) = &e.x {
            secrets.push(("secret scalar", x.to_bytes().to_vec()));
        }
        if let Out::Key(k) = &e.out {
            secrets.push(("key", k.clone()));
        }
        nt |= prop == "S06";
        rep.count("session_scanned");
        for (what, s) in &secrets {
            let hit = |h: &[u8]| if *what == "password" { reveals(h, s) } else { reveals_frag(h, s) };
            if let Some(f) = hit(&e.sent) {
                rep.viol(&["S06"], "secret-in-message", format!("{:?}: {what} ({f}) in the outbound message", e.key));
            }
            for r in &e.renders {
                // identities are printed by design; what they say is not a leak
                let own = format!("{:?}{:?}", String::from_utf8_lossy(&e.p.ida.0), String::from_utf8_lossy(&e.p.idb.0));
                let idhex: String = e.p.ida.0.iter().chain(&e.p.idb.0).map(|b| format!("{b:x}")).collect();
                let (ia, ib) = (&e.p.ida.0, &e.p.idb.0);
                if hit(own.as_bytes()).is_some() || hit(idhex.as_bytes()).is_some() || hit(ia).is_some() || hit(ib).is_some() {
                    continue;
                }
                // text that is there whatever the password is
                let fixed = b"BadSide CorruptMessage WrongLength bad side corrupt message invalid length";
                if *what == "password" && (hit(fixed).is_some() || trs.iter().any(|t| hit(t).is_some())) {
                    continue;
                }
                if let Some(f) = hit(r) {
                    rep.viol(&["S06"], "secret-in-rendering", format!("{:?}: {what} ({f}) in {}", e.key, String::from_utf8_lossy(r)));
                }
            }
        }
    }
    if prop == "S03" {
        nt |= w.eps.iter().any(|e| matches!(e.out, Out::Err(_)));
    }
    cx.rep.nontrivial = nt;
}

#[derive(Clone, PartialEq, Debug)]
pub struct Tr {
    pub key: Key,
    pub sent: Vec<u8>,
    pub recv: Option<Vec<u8>>,
    pub out: Out,
    pub dropped: bool,
}

pub fn validate(p: &Plan) -> Result<(), String> {
    if p.nodes == 0 || p.nodes > 64 || p.sess.len() > 1000 || p.probes.len() > 2000 {
        return Err("invalid plan: size".into());
    }
    for s in &p.sess {
        if s.inode >= p.nodes || s.anode >= p.nodes || s.max_att > 200 || s.timeout_ms < 100 {
            return Err("invalid plan: session".into());
        }
    }
    if p.crashes.iter().any(|c| c.node >= p.nodes) {
        return Err("invalid plan: crash".into());
    }
    Ok(())
}

pub fn build(plan: &Plan, trace: bool) -> Engine<World<'_>> {
    let w = World { plan, eps: vec![], idx: BTreeMap::new() };
    let sess = plan.sess.iter().map(|s| SessCfg { inode: s.inode, anode: s.anode, start_ms: s.start_ms, max_att: s.max_att, timeout_ms: s.timeout_ms }).collect();
    Engine::new(w, plan.seed, plan.net.clone(), plan.crashes.clone(), sess, plan.nodes, trace)
}

pub fn finish(e: Engine<World<'_>>) -> (Report, Vec<Tr>) {
    let (mut p, mut cx) = (e.p, e.cx);
    oracle(&mut p, &mut cx);
    let trs = p.eps.iter().map(|e| Tr { key: e.key, sent: e.sent.clone(), recv: e.recv.clone(), out: e.out.clone(), dropped: e.dropped }).collect();
    (cx.rep, trs)
}

pub fn run_plan(plan: &Plan, trace: bool) -> Result<(Report, Vec<Tr>), String> {
    validate(plan)?;
    let mut e = build(plan, trace);
    if !e.run() {
        e.cx.rep.count("event_cap_hit");
    }
    Ok(finish(e))
}

pub fn run(v: &Value, trace: bool) -> Result<Report, String> {
    let plan: Plan = serde_json::from_value(v.clone()).map_err(|e| format!("plan: {e}"))?;
    Ok(run_plan(&plan, trace)?.0)
}

// ------------------------------------------------------------------------------- generation

fn gen_op(r: &mut Prng, nsess: u64, weird: bool) -> TOp {
    match r.below(if weird { 23 } else { 12 }) {
        22 => TOp::Field { f: "const".into(), op: String::new(), arg: r.below(15) },
        20 => TOp::Field { f: "recode".into(), op: String::new(), arg: r.below(RECODINGS) },
        21 => TOp::Field { f: "endmarker".into(), op: String::new(), arg: r.below(2) },
        0..=2 => TOp::Flip(if r.chance(25) { 255 + 8 } else { r.below(264) }),
        3 => TOp::Splice { sess: r.below(nsess) as u32, att: 0, from_i: r.chance(50), idx: 0 },
        4 => TOp::Field { f: "torsion".into(), op: String::new(), arg: r.below(7) },
        5 => TOp::Field { f: "neg".into(), op: String::new(), arg: 0 },
        6 => TOp::Field { f: "addbase".into(), op: String::new(), arg: r.below(4) },
        7 => TOp::Field { f: "lowpt".into(), op: String::new(), arg: r.below(8) },
        8 => TOp::Field { f: "marker".into(), op: String::new(), arg: if r.chance(50) { *r.pick(&[0x41u64, 0x42, 0x53, 0x61, 0x62, 0x73, 0, 1, 0xc1, 0xc2]) } else { r.below(256) } },
        9 => TOp::Field { f: "noncanon".into(), op: String::new(), arg: r.below(6) },
        10 => TOp::Trunc(r.below(33) as u32),
        11 => TOp::Extend({
            let n = 1 + r.us(4);
            if r.chance(40) { "00".repeat(n) } else { hex(&r.bytes(n)) }
        }),
        12 | 13 => TOp::Field { f: "nonpoint".into(), op: String::new(), arg: r.below(256) },
        14 | 15 => TOp::Field { f: "len".into(), op: String::new(), arg: if r.chance(60) { *r.pick(&[0u64, 1, 2, 31, 32, 33, 34, 35, 64, 65, 66, 99, 255, 256, 289]) } else { r.below(300) } },
        16 => TOp::Field { f: "fill".into(), op: String::new(), arg: *r.pick(&[0u64, 1, 0xff, 0x7f, 0x80]) },
        17 => TOp::Field { f: "shift".into(), op: String::new(), arg: r.below(256) },
        18 => {
            let mut b = r.bytes(33);
            b[0] = *r.pick(&[0x41, 0x42, 0x53]);
            TOp::Replace(hex(&b))
        }
        _ => {
            let n = r.us(80);
            TOp::Replace(hex(&r.bytes(n)))
        }
    }
}

fn gen_pw(r: &mut Prng) -> Vec<u8> {
    match r.below(10) {
        0 => vec![],
        1 => {
            let n = *r.pick(&[31usize, 32, 33, 63, 64, 65, 66, 100, 128, 129, 300]);
            r.bytes(n)
        }
        2 if r.chance(20) => gen_str(r, 70_000),
        _ => gen_str(r, 300),
    }
}

fn gen_id(r: &mut Prng) -> Vec<u8> {
    let max = if r.chance(3) { 70_000 } else { 300 };
    gen_str(r, max)
}

pub fn gen(prop: &str, seed: u64, thorough: bool) -> Value {
    let mut r = Prng::keyed(&[seed, 0x5ba2]);
    let nodes = r.range(2, 4) as u32;
    let lvl = if prop == "S03" || prop == "S06" { r.below(2) } else { u64::from(r.chance(80)) };
    let net = gen_net(&mut r, nodes, lvl);
    let crowd = !matches!(prop, "S03" | "S06") && r.chance(1);
    let n = match prop {
        _ if crowd => r.range(70, 400),
        "S05" => r.range(3, 8),
        "S03" | "S06" => r.range(1, 3),
        _ => r.range(1, if thorough { 8 } else { 5 }),
    };
    let mut sess: Vec<Sess> = vec![];
    for i in 0..n {
        let honest = match prop {
            "S01" | "S04" => 92,
            "S05" => 85,
            "S02" => 40,
            _ => 70,
        };
        let (ri, ra) = *r.pick(&[(0u8, 1u8), (1, 0), (2, 2)]);
        let mut pi = Party { role: ri, pw: gen_pw(&mut r).into(), ida: gen_id(&mut r).into(), idb: gen_id(&mut r).into(), kind: 0, replay_of: 0, os: r.chance(25) };
        if r.chance(8) {
            pi.idb = pi.ida.clone();
        }
        if r.chance(5) {
            pi.ida = vec![].into();
        }
        if r.chance(5) {
            pi.idb = vec![].into();
        }
        // the same inputs again in another session
        if i > 0 && r.chance(if prop == "S05" { 75 } else { 35 }) {
            let q: &Sess = r.pick(&sess[..]);
            let keep = pi.role;
            pi = q.i.clone();
            pi.kind = 0;
            pi.os = r.chance(25);
            if r.chance(40) {
                pi.role = keep;
            } else if pi.role != keep {
                pi.role = q.i.role;
            }
        }
        let ra = match pi.role {
            0 => 1,
            1 => 0,
            2 => 2,
            _ => ra,
        };
        let mut pa = pi.clone();
        pa.role = ra;
        pa.os = r.chance(25);
        if !r.chance(honest) {
            match r.below(10) {
                0..=2 => pa.pw = near_miss(&mut r, &pi.pw.0).into(),
                3 => pa.ida = near_miss(&mut r, &pi.ida.0).into(),
                4 => pa.idb = near_miss(&mut r, &pi.idb.0).into(),
                5 => std::mem::swap(&mut pa.ida, &mut pa.idb),
                6 | 7 => {
                    // where one identity ends and the next begins
                    let all = [&pi.ida.0[..], &pi.idb.0[..]].concat();
                    let k = r.us(all.len() + 1);
                    pa.ida = all[..k].into();
                    pa.idb = all[k..].into();
                }
                8 => {
                    // password and identity exchanged
                    pa.pw = pi.ida.clone();
                    pa.ida = pi.pw.clone();
                }
                _ => pa.role = r.below(3) as u8,
            }
        }
        match prop {
            "S04" => {
                let k = r.chance(50);
                if k {
                    pi.kind = 1
                } else {
                    pa.kind = 1
                }
                if r.chance(15) {
                    pi.kind = 0;
                    pa.kind = 0;
                }
            }
            "S05" | "S02" => {
                if i > 0 && r.chance(25) {
                    let p = if r.chance(50) { &mut pi } else { &mut pa };
                    p.kind = 2;
                    p.replay_of = r.below(i) as u32;
                }
            }
            _ => {
                if r.chance(6) {
                    pa.kind = 1;
                }
            }
        }
        let inode = r.below(nodes as u64) as u32;
        let mut anode = r.below(nodes as u64) as u32;
        if r.chance(85) && anode == inode {
            anode = (inode + 1) % nodes;
        }
        sess.push(Sess {
            inode,
            anode,
            start_ms: {
                let w = if crowd { 20_000 } else if r.chance(50) { 40 } else { 1500 };
                r.below(w)
            },
            max_att: 12,
            timeout_ms: r.range(4000, 9000),
            i: pi,
            a: pa,
            rebuild: r.chance(if prop == "S01" { 40 } else { 15 }),
            twin: None,
        });
    }
    // re-derivation does not mix with replayers
    let crashes = if matches!(prop, "S01" | "S05") || r.chance(25) { gen_crashes(&mut r, nodes, n as u32, 3) } else { vec![] };
    for s in &mut sess {
        if s.i.kind == 2 || s.a.kind == 2 {
            s.rebuild = false;
            s.max_att = 2;
        }
    }
    let mut tampers = vec![];
    let tp = match prop {
        "S02" => 55,
        "S03" => 70,
        "S01" | "S04" => 6,
        _ => 20,
    };
    for s in 0..n as u32 {
        if r.chance(tp) {
            let both = r.chance(25);
            for from_i in [true, false] {
                if both || r.chance(50) {
                    tampers.push(Tamper { sess: s, att: 0, from_i, idx: 0, op: gen_op(&mut r, n, prop == "S03") });
                }
            }
        }
    }
    let np = match prop {
        "S03" => r.range(20, if thorough { 120 } else { 40 }),
        "S02" => r.range(3, 8),
        "S06" => 4,
        _ => r.below(3),
    };
    let probes = (0..np)
        .map(|_| {
            let op = if r.chance(if prop == "S06" { 50 } else { 8 }) { TOp::Field { f: "craft".into(), op: String::new(), arg: r.below(360) } } else { gen_op(&mut r, n, prop == "S03" || prop == "S06") };
            Probe { ep: r.below(64) as u32, base: *r.pick(&[0u8, 0, 0, 1, 2]), op }
        })
        .collect();
    serde_json::to_value(Plan { seed, prop: prop.into(), nodes, net, crashes, tampers, sess, probes, salt: 0 }).unwrap()
}
