//! SRP deployment in the simulator: client and server nodes, a durable verifier store, durable
//! session stores with crash/rebuild, an active attacker on the messages.
use crate::auc_gen::{gen_crashes, gen_net};
use crate::engine::*;
use crate::primes;
use crate::reference::{Hash, SrpRef};
use crate::rng::*;
use crate::util::*;
use num_bigint::BigUint;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use srp::client::{SrpClient, SrpClientVerifier};
use srp::groups as g;
use srp::server::{SrpServer, SrpServerVerifier};
use srp::types::{SrpAuthError, SrpGroup};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub struct User {
    pub name: Hx,
    pub pw: Hx,
    pub salt: Hx,
    /// 0..7 RFC 5054 groups, 10.. small custom groups
    pub group: u8,
    pub hash: Hash,
    /// not registered at all
    #[serde(default)]
    pub off: bool,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sess {
    pub client: u32,
    pub server: u32,
    pub start_ms: u64,
    pub max_att: u32,
    pub timeout_ms: u64,
    pub user: u32,
    /// what the person at the client types
    pub name: Hx,
    pub pw: Hx,
    /// explicit ephemeral secrets; empty: drawn from the stream
    pub a: Hx,
    pub b: Hx,
    pub alen: u32,
    pub blen: u32,
    /// 0 real, 1 independent peer, 2 replays session `replay_of`
    pub ck: u8,
    pub sk: u8,
    pub replay_of: u32,
    /// client remembers (a, salt, B) across attempts and crashes
    pub c_store: bool,
    /// 0 volatile, 1 durable (b, verifier), 2 durable b but the verifier is looked up again,
    /// 3 durable store restored from a stale backup after a crash
    pub s_store: u8,
    /// derive the verifier object again from the stored secrets for every message
    pub stateless: bool,
    #[serde(default)]
    pub twin: Option<u32>,
}

#[derive(Serialize, Deserialize, Clone)]
pub enum OpKind {
    ChangePw(Hx),
    ReSalt(Hx),
    /// torn write of the verifier: a bit flipped, a tail lost, zeroed or added
    Corrupt(u64),
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Op {
    pub user: u32,
    pub kind: OpKind,
    pub at: Option<u64>,
    /// just before the server handles payload `idx` of (sess, att)
    pub on: Option<(u32, u32, u32)>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Probe {
    pub ep: u32,
    pub op: TOp,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub seed: u64,
    pub prop: String,
    pub clients: u32,
    pub servers: u32,
    pub net: Net,
    pub crashes: Vec<Crash>,
    pub tampers: Vec<Tamper>,
    pub users: Vec<User>,
    pub sess: Vec<Sess>,
    pub ops: Vec<Op>,
    /// changed public values presented to re-derived parties
    pub probes: Vec<Probe>,
    /// damaged proofs presented around every verification
    pub damage: Vec<TOp>,
    #[serde(default)]
    pub salt: u64,
}

// ------------------------------------------------------------------------------- groups

fn hx(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}

/// The library's group object: its own constant, or a custom one. One per thread.
fn lib_group(i: u8) -> &'static SrpGroup {
    thread_local!(static GROUPS: std::cell::RefCell<BTreeMap<u8, &'static SrpGroup>> = Default::default());
    GROUPS.with(|m| *m.borrow_mut().entry(i).or_insert_with(|| Box::leak(Box::new(make_group(i)))))
}
fn make_group(i: u8) -> SrpGroup {
    match i {
        0 => g::G_1024.clone(),
        1 => g::G_1536.clone(),
        2 => g::G_2048.clone(),
        3 => g::G_3072.clone(),
        4 => g::G_4096.clone(),
        5 => g::G_6144.clone(),
        6 => g::G_8192.clone(),
        _ => {
            let (g, n) = primes::SMALL[(i as usize).saturating_sub(10) % primes::SMALL.len()];
            SrpGroup { n: hx(n), g: BigUint::from(g) }
        }
    }
}
fn ref_group(i: u8, h: Hash) -> SrpRef {
    let (gg, n) = if i < 7 {
        let (_, gg, n) = primes::RFC[i as usize];
        (gg, n)
    } else {
        primes::SMALL[(i as usize).saturating_sub(10) % primes::SMALL.len()]
    };
    SrpRef { n: hx(n), g: BigUint::from(gg), h, pad_u: true }
}

fn int(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}

// ------------------------------------------------------------------------------- parties

/// A party's state after the key exchange.
pub trait Ver {
    fn key(&self) -> Vec<u8>;
    fn proof(&self) -> Vec<u8>;
    fn verify(&self, b: &[u8]) -> Result<(), SrpAuthError>;
}
struct CV<D: sha2::Digest>(SrpClientVerifier<D>);
impl<D: sha2::Digest> Ver for CV<D> {
    fn key(&self) -> Vec<u8> {
        self.0.key().to_vec()
    }
    fn proof(&self) -> Vec<u8> {
        self.0.proof().to_vec()
    }
    fn verify(&self, b: &[u8]) -> Result<(), SrpAuthError> {
        self.0.verify_server(b)
    }
}
struct SV<D: sha2::Digest>(SrpServerVerifier<D>);
impl<D: sha2::Digest> Ver for SV<D> {
    fn key(&self) -> Vec<u8> {
        self.0.key().to_vec()
    }
    fn proof(&self) -> Vec<u8> {
        self.0.proof().to_vec()
    }
    fn verify(&self, b: &[u8]) -> Result<(), SrpAuthError> {
        self.0.verify_client(b)
    }
}
/// Independent peer.
struct RV {
    key: Vec<u8>,
    mine: Vec<u8>,
    theirs: Vec<u8>,
    who: &'static str,
}
impl Ver for RV {
    fn key(&self) -> Vec<u8> {
        self.key.clone()
    }
    fn proof(&self) -> Vec<u8> {
        self.mine.clone()
    }
    fn verify(&self, b: &[u8]) -> Result<(), SrpAuthError> {
        if b == self.theirs {
            Ok(())
        } else {
            Err(SrpAuthError::BadRecordMac(self.who.into()))
        }
    }
}

/// The library's objects for one user database entry: every session of the run goes through them.
struct Objs<D: sha2::Digest> {
    c: SrpClient<'static, D>,
    s: SrpServer<'static, D>,
}
enum Lib {
    Sha1(Objs<sha1::Sha1>),
    Sha256(Objs<sha2::Sha256>),
    Sha512(Objs<sha2::Sha512>),
}
impl Lib {
    fn new(g: &'static SrpGroup, h: Hash) -> Lib {
        match h {
            Hash::Sha1 => Lib::Sha1(Objs { c: SrpClient::new(g), s: SrpServer::new(g) }),
            Hash::Sha256 => Lib::Sha256(Objs { c: SrpClient::new(g), s: SrpServer::new(g) }),
            Hash::Sha512 => Lib::Sha512(Objs { c: SrpClient::new(g), s: SrpServer::new(g) }),
        }
    }
}
macro_rules! with_lib {
    ($l:expr, $o:ident => $e:expr) => {
        match $l {
            Lib::Sha1($o) => $e,
            Lib::Sha256($o) => $e,
            Lib::Sha512($o) => $e,
        }
    };
}

/// One user's group and hash, as the library and the independent peer see them.
pub struct Ctx {
    lib: Lib,
    pub rf: SrpRef,
    /// how the library hashes short public values (recorded finding): false = unpadded
    pad_u: bool,
    pub bits: u64,
}

type R<T> = Result<T, SrpAuthError>;

impl Ctx {
    fn new(group: u8, h: Hash) -> Ctx {
        let rf = ref_group(group, h);
        let bits = rf.n.bits();
        let mut c = Ctx { lib: Lib::new(lib_group(group), h), rf, pad_u: true, bits };
        // which dialect of u for short values?
        let small = ref_group(15, h);
        let lib = Lib::new(lib_group(15), h);
        let v = small.g.modpow(&BigUint::from(7u32), &small.n);
        let ap = BigUint::from(16u32);
        let b = BigUint::from(987_654_321_987_654_321u64);
        let un = SrpRef { pad_u: false, ..small.clone() };
        let s = with_lib!(&lib, o => o.s.process_reply(&b.to_bytes_be(), &v.to_bytes_be(), &ap.to_bytes_be()).map(|x| x.key().to_vec()));
        if let Ok(s) = s {
            if int(&s) == un.s_server(&b, &v, &ap) && int(&s) != small.s_server(&b, &v, &ap) {
                c.pad_u = false;
            }
        }
        c
    }
    pub fn verifier(&self, user: &[u8], pw: &[u8], salt: &[u8]) -> Vec<u8> {
        with_lib!(&self.lib, o => o.c.compute_verifier(user, pw, salt))
    }
    fn c_pub(&self, real: bool, a: &[u8]) -> Vec<u8> {
        if real {
            with_lib!(&self.lib, o => o.c.compute_public_ephemeral(a))
        } else {
            self.rf.a_pub(&int(a)).to_bytes_be()
        }
    }
    fn s_pub(&self, real: bool, b: &[u8], v: &[u8]) -> Vec<u8> {
        if real {
            with_lib!(&self.lib, o => o.s.compute_public_ephemeral(b, v))
        } else {
            self.rf.b_pub(&int(b), &int(v)).to_bytes_be()
        }
    }
    fn short(&self, x: &BigUint) -> bool {
        x.to_bytes_be().len() < self.rf.n.to_bytes_be().len()
    }
    fn dialect(&self, ap: &BigUint, bp: &BigUint) -> SrpRef {
        SrpRef { pad_u: self.pad_u || !(self.short(ap) || self.short(bp)), ..self.rf.clone() }
    }
    fn c_reply(&self, real: bool, a: &[u8], user: &[u8], pw: &[u8], salt: &[u8], bp: &[u8]) -> R<Box<dyn Ver>> {
        if real {
            return with_lib!(&self.lib, o => o.c.process_reply(a, user, pw, salt, bp).map(|v| Box::new(CV(v)) as Box<dyn Ver>));
        }
        let (a, bp) = (int(a), int(bp));
        if &bp % &self.rf.n == BigUint::default() {
            return Err(SrpAuthError::IllegalParameter("b_pub".into()));
        }
        let ap = self.rf.a_pub(&a);
        let rf = self.dialect(&ap, &bp);
        let s = rf.s_client(&a, &rf.x(user, pw, salt), &bp);
        let m1 = rf.m1(&ap, &bp, &s);
        let m2 = rf.m2(&ap, &m1, &s);
        Ok(Box::new(RV { key: s.to_bytes_be(), mine: m1, theirs: m2, who: "server" }))
    }
    fn s_reply(&self, real: bool, b: &[u8], v: &[u8], ap: &[u8]) -> R<Box<dyn Ver>> {
        if real {
            return with_lib!(&self.lib, o => o.s.process_reply(b, v, ap).map(|v| Box::new(SV(v)) as Box<dyn Ver>));
        }
        let (b, v, ap) = (int(b), int(v), int(ap));
        if &ap % &self.rf.n == BigUint::default() {
            return Err(SrpAuthError::IllegalParameter("a_pub".into()));
        }
        let bp = self.rf.b_pub(&b, &v);
        let rf = self.dialect(&ap, &bp);
        let s = rf.s_server(&b, &v, &ap);
        let m1 = rf.m1(&ap, &bp, &s);
        let m2 = rf.m2(&ap, &m1, &s);
        Ok(Box::new(RV { key: s.to_bytes_be(), mine: m2, theirs: m1, who: "client" }))
    }
}

// ------------------------------------------------------------------------------- payloads

fn pack(t: u8, fs: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![t];
    for f in fs {
        v.extend_from_slice(&(f.len() as u32).to_be_bytes());
        v.extend_from_slice(f);
    }
    v
}
fn unpack(b: &[u8]) -> Option<(u8, Vec<Vec<u8>>)> {
    let (t, mut r) = b.split_first()?;
    let mut fs = vec![];
    while !r.is_empty() {
        if r.len() < 4 {
            return None;
        }
        let n = u32::from_be_bytes([r[0], r[1], r[2], r[3]]) as usize;
        fs.push(r.get(4..n.checked_add(4)?)?.to_vec());
        r = &r[4 + n..];
    }
    Some((*t, fs))
}
const HELLO: u8 = 0; // user, A
const CHALLENGE: u8 = 1; // salt, B
const PROOF: u8 = 2; // M1
const CONFIRM: u8 = 3; // M2
const RESUME: u8 = 4; // user, A, M1

/// field names of each payload type
fn fields(t: u8) -> &'static [&'static str] {
    match t {
        HELLO => &["user", "A"],
        CHALLENGE => &["salt", "B"],
        PROOF => &["M1"],
        CONFIRM => &["M2"],
        RESUME => &["user", "A", "M1"],
        _ => &[],
    }
}

// ------------------------------------------------------------------------------- world

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Pending,
    Ok(Vec<u8>),
    Err(SrpAuthError),
    App(&'static str),
}

#[derive(Clone)]
struct Rec {
    v: Vec<u8>,
    salt: Vec<u8>,
    /// credential string it was made from; None: corrupted
    cred: Option<Vec<u8>>,
}

fn cred(user: &[u8], pw: &[u8]) -> Vec<u8> {
    [user, b":", pw].concat()
}

pub struct Ep {
    pub key: Key,
    pub real: bool,
    replay: bool,
    /// client's secret a, server's secret b
    sec: Vec<u8>,
    /// the client's credentials string; for a server the record used
    who: Vec<u8>,
    rec: Option<Rec>,
    salt: Vec<u8>,
    apub: Vec<u8>,
    bpub: Vec<u8>,
    ver: Option<Box<dyn Ver>>,
    pub kx: Option<Vec<u8>>,
    my_proof: Option<Vec<u8>>,
    pub accepted: bool,
    resumed: bool,
    pub sent: Vec<Vec<u8>>,
    pub out: Out,
    pub dropped: bool,
    user: usize,
    stage: u8,
}

/// A proof some party computed, with everything it stands for.
#[derive(Clone)]
struct Known {
    key: Key,
    user: usize,
    proof: Vec<u8>,
    a: BigUint,
    b: BigUint,
    /// (credential string, salt); None when the verifier was corrupted
    who: Option<(Vec<u8>, Vec<u8>)>,
}

#[derive(Clone)]
struct SStore {
    b: Vec<u8>,
    rec: Rec,
    apub: Vec<u8>,
}

pub struct World<'a> {
    pub plan: &'a Plan,
    ctx: Vec<Ctx>,
    recs: Vec<Vec<Rec>>,
    pub eps: Vec<Ep>,
    idx: BTreeMap<Key, usize>,
    client_proofs: Vec<Known>,
    server_proofs: Vec<Known>,
    cdur: BTreeMap<u32, (Vec<u8>, Option<(Vec<u8>, Vec<u8>)>)>,
    sdur: BTreeMap<(u32, u32), Vec<SStore>>,
    ops_done: Vec<bool>,
    nt: bool,
}

impl<'a> World<'a> {
    fn new(plan: &'a Plan) -> Self {
        World {
            plan,
            ctx: plan.users.iter().map(|u| Ctx::new(u.group, u.hash)).collect(),
            recs: vec![],
            eps: vec![],
            idx: BTreeMap::new(),
            client_proofs: vec![],
            server_proofs: vec![],
            cdur: BTreeMap::new(),
            sdur: BTreeMap::new(),
            ops_done: vec![false; plan.ops.len()],
            nt: false,
        }
    }
    fn setup(&mut self, cx: &mut Cx) {
        for (i, u) in self.plan.users.iter().enumerate() {
            if u.off {
                self.recs.push(vec![]);
                continue;
            }
            let c = &self.ctx[i];
            let v = c.verifier(&u.name.0, &u.pw.0, &u.salt.0);
            let want = c.rf.v(&u.name.0, &u.pw.0, &u.salt.0);
            if int(&v) != want {
                cx.rep.viol(&["R05"], "verifier-formula", format!("user {i}: verifier {} is not g^x of RFC 5054 ({want:x})", hex(&v)));
            }
            cx.rep.dig_bytes(&v);
            self.recs.push(vec![Rec { v, salt: u.salt.0.clone(), cred: Some(cred(&u.name.0, &u.pw.0)) }]);
        }
    }
    /// First verifier of every registered user.
    pub fn registered(&self) -> Vec<(usize, Vec<u8>)> {
        self.recs.iter().enumerate().filter_map(|(i, r)| r.first().map(|r| (i, r.v.clone()))).collect()
    }
    fn run_op(&mut self, cx: &mut Cx, i: usize) {
        if std::mem::replace(&mut self.ops_done[i], true) {
            return;
        }
        let o = &self.plan.ops[i];
        let ui = o.user as usize;
        let Some(u) = self.plan.users.get(ui) else { return };
        let Some(last) = self.recs[ui].last().cloned() else { return };
        let r = match &o.kind {
            OpKind::ChangePw(p) => {
                cx.rep.count("password_change");
                Rec { v: self.ctx[ui].verifier(&u.name.0, &p.0, &last.salt), salt: last.salt, cred: Some(cred(&u.name.0, &p.0)) }
            }
            OpKind::ReSalt(s) => {
                cx.rep.count("verifier_resalted");
                Rec { v: self.ctx[ui].verifier(&u.name.0, &u.pw.0, &s.0), salt: s.0.clone(), cred: Some(cred(&u.name.0, &u.pw.0)) }
            }
            OpKind::Corrupt(n) => {
                cx.rep.count("verifier_corrupted_on_disk");
                let mut v = last.v.clone();
                let l = v.len();
                match *n >> 12 {
                    // a write that left less, more or other bytes than it should have
                    1 if l >= 16 => v.truncate(l - 1 - *n as usize % (l / 2)),
                    2 if l >= 16 => v.extend(Prng::keyed(&[*n]).bytes(1 + *n as usize % 40)),
                    3 if l >= 16 => {
                        let k = 1 + *n as usize % (l / 2);
                        v[l - k..].fill(0);
                        v[l - k - 1] ^= 1;
                    }
                    _ => v[(*n / 8) as usize % l] ^= 1 << (n % 8),
                }
                Rec { v, salt: last.salt, cred: None }
            }
        };
        self.recs[ui].push(r);
    }
    fn rng(&self, k: &Key) -> LibRng {
        LibRng::keyed(&[self.plan.seed, self.plan.salt, 0x5e9, self.plan.sess[k.sess as usize].twin.unwrap_or(k.sess) as u64, k.init as u64, k.att as u64, k.epoch as u64])
    }
    fn draw(&self, k: &Key, given: &[u8], n: u32) -> Vec<u8> {
        if given.is_empty() {
            self.rng(k).served(0, (n as usize).clamp(1, 128))
        } else {
            given.to_vec()
        }
    }
    fn strong(&self, ui: usize) -> bool {
        self.ctx[ui].bits >= 120
    }
}

fn class(e: &SrpAuthError) -> String {
    format!("{e:?}")
}

/// Verify a proof, with damaged copies before and after. Returns the verdict on `m` itself.
fn verify(rep: &mut Report, who: &str, side: &'static str, v: &dyn Ver, m: &[u8], hist_own: &[u8], damage: &[TOp], big: bool) -> R<()> {
    let bad = SrpAuthError::BadRecordMac(side.into());
    let mut dam: Vec<Vec<u8>> = damage.iter().filter_map(|d| damaged(d, m, hist_own)).filter(|d| d != m).collect();
    dam.dedup();
    let pass = |rep: &mut Report| -> Vec<Vec<u8>> {
        let mut ok = vec![];
        for d in &dam {
            rep.count("damaged_proof_presented");
            match v.verify(d) {
                Ok(()) => ok.push(d.clone()),
                Err(e) if e == bad => {}
                Err(e) => rep.viol(&["R06"], "wrong-error", format!("{who}: damaged proof reported as {e:?}, expected {bad:?}")),
            }
        }
        ok
    };
    let ok1 = pass(rep);
    let r1 = v.verify(m);
    let ok2 = pass(rep);
    let r2 = v.verify(m);
    if let Err(e) = &r1 {
        if *e != bad {
            rep.viol(&["R06", "R02"], "wrong-error", format!("{who}: proof refused with {e:?}, expected {bad:?}"));
        }
    }
    if r1 != r2 {
        rep.viol(&["R06"], "verdict-changes", format!("{who}: the same proof gives {r1:?} and then {r2:?}"));
    }
    // at most one byte string is the proof
    let mut acc: Vec<Vec<u8>> = ok1.into_iter().chain(ok2).collect();
    if r1.is_ok() {
        acc.push(m.to_vec());
    }
    acc.sort();
    acc.dedup();
    if acc.len() > 1 && big {
        let l: Vec<String> = acc.iter().map(|a| hex(a)).collect();
        rep.viol(&["R06", "R02"], "damaged-proof-accepted", format!("{who}: accepts {} besides {}", l.join(" and "), hex(m)));
    }
    r1
}

fn damaged(op: &TOp, m: &[u8], own: &[u8]) -> Option<Vec<u8>> {
    let mut v = m.to_vec();
    match op {
        TOp::Flip(b) => {
            if v.is_empty() {
                return None;
            }
            let i = (*b / 8) as usize % v.len();
            v[i] ^= 1 << (b % 8);
        }
        TOp::Trunc(n) => v.truncate(*n as usize),
        TOp::Extend(h) => v.extend_from_slice(&unhex(h)?),
        TOp::Replace(h) => v = unhex(h)?,
        TOp::Field { f, arg, .. } => match f.as_str() {
            "shift" => {
                v.insert(0, *arg as u8);
                v.pop();
            }
            "prefix" => v.insert(0, *arg as u8),
            "drop_first" => {
                if !v.is_empty() {
                    v.remove(0);
                }
            }
            "append" => v.push(*arg as u8),
            "pop" => {
                v.pop();
            }
            "rot" => {
                let n = v.len();
                if n > 0 {
                    v.rotate_left(*arg as usize % n);
                }
            }
            "zero_tail" => {
                let n = v.len();
                let k = *arg as usize % (n + 1);
                v[n - k..].fill(0);
            }
            "zero" => v.fill(0),
            "repeat" => v = [&v[..], &v[..]].concat(),
            "own" => v = own.to_vec(),
            "rev" => v.reverse(),
            "recode" => v = recode(&v, *arg),
            "empty" => v.clear(),
            _ => return None,
        },
        TOp::Splice { .. } => return None,
    }
    Some(v)
}

/// A changed public value. `n`: the group prime.
fn change(op: &TOp, m: &[u8], n: &BigUint) -> Option<Vec<u8>> {
    if let TOp::Field { op: o, arg, .. } = op {
        let nn = || n.to_bytes_be();
        let z = |x: BigUint| x.to_bytes_be();
        return Some(match o.as_str() {
            "empty" => vec![],
            "zeros" => vec![0; *arg as usize % 600],
            "n" => nn(),
            "kn" => z(n * BigUint::from(arg + 2)),
            "n_lead" => [vec![0; 1 + *arg as usize % 40], nn()].concat(),
            "n_shl" => [nn(), vec![0; 1 + *arg as usize % 40]].concat(),
            "n_sq" => z(n * n),
            "n_pm" => z(n + BigUint::from(arg + 1)),
            "n_mp" => z(n - BigUint::from(1u32)),
            "kn_pm" => z(n * BigUint::from(arg / 7 + 2) + BigUint::from(arg % 7 + 1)),
            "kn_mm" => z(n * BigUint::from(arg + 2) - BigUint::from(1u32)),
            "one" => vec![1],
            "small" => z(BigUint::from(arg + 1)),
            "lead" => [vec![0; 1 + *arg as usize % 10], m.to_vec()].concat(),
            "plus_n" => z(int(m) + n),
            "neg" => z(n - int(m) % n),
            "inc" => z(int(m) + BigUint::from(1u32)),
            "double" => z((int(m) * BigUint::from(2u32)) % n),
            "square" => z((int(m) * int(m)) % n),
            "rand" => {
                let mut r = Prng::keyed(&[*arg, 0x7a4d]);
                let l = r.us(700);
                r.bytes(l)
            }
            "shift" => {
                let mut v = m.to_vec();
                v.push(0);
                v
            }
            _ => return damaged(op, m, m),
        });
    }
    damaged(op, m, m)
}

impl Proto for World<'_> {
    fn open(&mut self, cx: &mut Cx, k: Key) -> Step {
        let s = &self.plan.sess[k.sess as usize];
        let ui = s.user as usize;
        let kind = if k.init { s.ck } else { s.sk };
        let mut ep = Ep {
            key: k,
            real: kind == 0,
            replay: kind == 2,
            sec: vec![],
            who: vec![],
            rec: None,
            salt: vec![],
            apub: vec![],
            bpub: vec![],
            ver: None,
            kx: None,
            my_proof: None,
            accepted: false,
            resumed: false,
            sent: vec![],
            out: Out::Pending,
            dropped: false,
            user: ui,
            stage: 0,
        };
        let mut out = vec![];
        if k.init {
            ep.who = cred(&s.name.0, &s.pw.0);
            if kind == 2 {
                cx.rep.count("replayed_session");
                out = cx.hist.iter().filter(|r| r.key.sess == s.replay_of && r.key.init && r.key.att == 0).take(2).map(|r| r.sent.to_vec()).collect();
                if out.is_empty() {
                    out.push(pack(HELLO, &[&s.name.0, &[2]]));
                }
            } else {
                let c = &self.ctx[ui];
                let stored = if s.c_store { self.cdur.get(&k.sess).cloned() } else { None };
                match stored {
                    Some((a, ch)) => {
                        cx.rep.count("client_rebuilt_from_stored_secret");
                        if self.plan.prop == "R04" {
                            self.nt = true;
                        }
                        ep.sec = a;
                        ep.apub = c.c_pub(ep.real, &ep.sec);
                        match ch {
                            Some((salt, b)) => {
                                ep.resumed = true;
                                ep.salt = salt.clone();
                                ep.bpub = b.clone();
                                match c.c_reply(ep.real, &ep.sec, &s.name.0, &s.pw.0, &salt, &b) {
                                    Ok(v) => {
                                        let m1 = v.proof();
                                        out.push(pack(RESUME, &[&s.name.0, &ep.apub, &m1]));
                                        ep.kx = Some(v.key());
                                        ep.my_proof = Some(m1.clone());
                                        ep.ver = Some(v);
                                        ep.stage = 1;
                                        self.client_proofs.push(Known { key: k, user: ui, proof: m1, a: int(&ep.apub), b: int(&b), who: Some((ep.who.clone(), salt.clone())) });
                                        // a resumption is tried once
                                        let a = ep.sec.clone();
                                        self.cdur.insert(k.sess, (a, None));
                                    }
                                    Err(e) => {
                                        cx.rep.viol(&["R04"], "resume-refused", format!("{k:?}: stored values accepted before are refused now: {e:?}"));
                                        out.push(pack(HELLO, &[&s.name.0, &ep.apub]));
                                    }
                                }
                            }
                            None => {
                                out.push(pack(HELLO, &[&s.name.0, &ep.apub]));
                            }
                        }
                    }
                    None => {
                        ep.sec = self.draw(&k, &s.a.0, s.alen);
                        ep.apub = c.c_pub(ep.real, &ep.sec);
                        if s.c_store {
                            self.cdur.insert(k.sess, (ep.sec.clone(), None));
                        }
                        out.push(pack(HELLO, &[&s.name.0, &ep.apub]));
                    }
                }
            }
        }
        ep.sent = out.clone();
        self.idx.insert(k, self.eps.len());
        self.eps.push(ep);
        Step::go(out)
    }

    fn deliver(&mut self, cx: &mut Cx, k: Key, idx: u32, m: &[u8]) -> Step {
        for i in 0..self.plan.ops.len() {
            if !k.init && self.plan.ops[i].on == Some((k.sess, k.att, idx)) {
                self.run_op(cx, i);
            }
        }
        let i = self.idx[&k];
        let Some((t, fs)) = unpack(m) else {
            self.eps[i].out = Out::App("undecodable");
            return Step::fail();
        };
        if fs.len() != fields(t).len() {
            self.eps[i].out = Out::App("undecodable");
            return Step::fail();
        }
        let st = if k.init { self.client_msg(cx, i, t, fs) } else { self.server_msg(cx, i, t, fs) };
        let ep = &mut self.eps[i];
        ep.sent.extend(st.out.iter().cloned());
        let line = format!("{:?} {:?}", ep.key, ep.out);
        cx.rep.dig_bytes(line.as_bytes());
        st
    }

    fn crash(&mut self, cx: &mut Cx, node: u32) {
        // a server's session store is restored from a backup that misses the last writes
        for ((sess, srv), v) in self.sdur.iter_mut() {
            if *srv == node && self.plan.sess[*sess as usize].s_store == 3 {
                if let Some(last) = v.last_mut() {
                    cx.rep.count("session_store_rolled_back");
                    let mut o = last.clone();
                    o.b = LibRng::keyed(&[self.plan.seed, self.plan.salt, 0x01d, *sess as u64]).served(0, 32);
                    *last = o;
                }
            }
        }
    }
    fn restart(&mut self, _: &mut Cx, _: u32) {}
    fn dropped(&mut self, _: &mut Cx, k: Key) {
        if let Some(i) = self.idx.get(&k) {
            self.eps[*i].dropped = true;
        }
    }
    fn op(&mut self, cx: &mut Cx, i: u32) {
        self.run_op(cx, i as usize);
    }
    fn tamper(&mut self, cx: &mut Cx, k: Key, idx: u32, m: &[u8]) -> Option<Vec<u8>> {
        let t = self.plan.tampers.iter().find(|t| t.sess == k.sess && t.att == k.att && t.from_i == k.init && t.idx == idx)?;
        if let TOp::Splice { sess, att, from_i, idx } = &t.op {
            let v = cx.hist.iter().find(|r| r.key.sess == *sess && r.key.att == *att && r.key.init == *from_i && r.idx == *idx)?.sent.to_vec();
            // a spliced payload keeps the frame type of the original (reflection included)
            let (ty, fs) = unpack(m)?;
            let (_, gs) = unpack(&v)?;
            let n = fs.len();
            let fs: Vec<Vec<u8>> = fs.into_iter().enumerate().map(|(i, f)| if i + 1 == n { gs.last().cloned().unwrap_or(f) } else if gs.len() == n { gs[i].clone() } else { f }).collect();
            let r: Vec<&[u8]> = fs.iter().map(|f| &f[..]).collect();
            let v = pack(ty, &r);
            if v != m {
                cx.rep.count("tamper_splice_or_reflect");
            }
            return Some(v);
        }
        let (ty, mut fs) = unpack(m)?;
        let TOp::Field { f, op, .. } = &t.op else { return None };
        let names = fields(ty);
        let j = names.iter().position(|n| n == f).unwrap_or(names.len() - 1);
        let ui = self.plan.sess[k.sess as usize].user as usize;
        let nf = if matches!(names[j], "A" | "B") {
            change(&t.op, &fs[j], &self.ctx[ui].rf.n)?
        } else {
            let d = match &t.op {
                TOp::Field { arg, .. } => match op.as_str() {
                    "flip" | "neg" | "inc" | "double" | "square" => TOp::Flip(*arg),
                    o => TOp::Field { f: o.into(), op: String::new(), arg: *arg },
                },
                x => x.clone(),
            };
            damaged(&d, &fs[j], &[]).unwrap_or_else(|| {
                let mut v = fs[j].clone();
                v.push(b'!');
                v
            })
        };
        if nf.len() > 60000 {
            return None;
        }
        if nf != fs[j] {
            cx.rep.count(match names[j] {
                "A" => "tamper_A",
                "B" => "tamper_B",
                "salt" => "tamper_salt",
                "M1" => "tamper_M1",
                "M2" => "tamper_M2",
                _ => "tamper_user",
            });
        }
        fs[j] = nf;
        let r: Vec<&[u8]> = fs.iter().map(|f| &f[..]).collect();
        Some(pack(ty, &r))
    }
    fn want_retry(&mut self, _: &mut Cx, sess: u32, _: u32, ok: bool) -> bool {
        !ok && self.plan.sess[sess as usize].ck != 2
    }
}

impl World<'_> {
    fn app(&mut self, i: usize, e: &'static str) -> Step {
        self.eps[i].out = Out::App(e);
        Step::fail()
    }

    fn judge_value(&mut self, cx: &mut Cx, i: usize, name: &'static str, val: &[u8], res: &R<Box<dyn Ver>>) {
        let ep = &self.eps[i];
        if !ep.real {
            return;
        }
        let zero = int(val) % &self.ctx[ep.user].rf.n == BigUint::default();
        judge_value(&mut cx.rep, &format!("{:?}", ep.key), name, val, zero, res.as_ref().err());
        if zero {
            cx.rep.count("zero_congruent_value_delivered");
            if self.plan.prop == "R03" {
                self.nt = true;
            }
        }
    }

    fn client_msg(&mut self, cx: &mut Cx, i: usize, t: u8, fs: Vec<Vec<u8>>) -> Step {
        let k = self.eps[i].key;
        let s = &self.plan.sess[k.sess as usize];
        let ui = s.user as usize;
        if self.eps[i].replay {
            return Step::go(vec![]);
        }
        match (t, self.eps[i].stage) {
            (CHALLENGE, 0) => {
                let (salt, b) = (&fs[0], &fs[1]);
                let res = self.ctx[ui].c_reply(self.eps[i].real, &self.eps[i].sec, &s.name.0, &s.pw.0, salt, b);
                self.judge_value(cx, i, "b_pub", b, &res);
                let ep = &mut self.eps[i];
                ep.salt = salt.clone();
                ep.bpub = b.clone();
                match res {
                    Err(e) => {
                        ep.out = Out::Err(e);
                        Step::fail()
                    }
                    Ok(v) => {
                        let m1 = v.proof();
                        ep.kx = Some(v.key());
                        ep.my_proof = Some(m1.clone());
                        ep.ver = Some(v);
                        ep.stage = 1;
                        self.client_proofs.push(Known { key: k, user: ui, proof: m1.clone(), a: int(&ep.apub), b: int(b), who: Some((ep.who.clone(), salt.clone())) });
                        if s.c_store {
                            self.cdur.insert(k.sess, (ep.sec.clone(), Some((salt.clone(), b.clone()))));
                        }
                        Step::go(vec![pack(PROOF, &[&m1])])
                    }
                }
            }
            (CONFIRM, 1) => {
                let m2 = &fs[0];
                if s.stateless {
                    let ep = &self.eps[i];
                    let again = self.ctx[ui].c_reply(ep.real, &ep.sec, &s.name.0, &s.pw.0, &ep.salt, &ep.bpub);
                    cx.rep.count("verifier_rederived");
                    self.rederived(cx, i, again);
                }
                let ep = &self.eps[i];
                let ver = ep.ver.as_ref().unwrap();
                let own = ep.my_proof.clone().unwrap();
                let dm: &[TOp] = if ep.real { &self.plan.damage } else { &[] };
                let big = self.strong(ui);
                let r = verify(&mut cx.rep, &format!("{k:?} (client)"), "server", ver.as_ref(), m2, &own, dm, big);
                if ep.real && !dm.is_empty() && self.plan.prop == "R06" {
                    self.nt = true;
                }
                let (a, b) = (int(&ep.apub), int(&ep.bpub));
                let me = Some((ep.who.clone(), ep.salt.clone()));
                let by = self.server_proofs.iter().find(|p| p.user == ui && p.proof == *m2 && p.a == a && p.b == b && p.who == me).map(|p| p.key);
                self.judge_accept(cx, i, "server proof", m2, by, r)
            }
            _ => self.app(i, "unexpected message"),
        }
    }

    fn rederived(&mut self, cx: &mut Cx, i: usize, again: R<Box<dyn Ver>>) {
        let ep = &mut self.eps[i];
        if self.plan.prop == "R04" && ep.real {
            self.nt = true;
        }
        match again {
            Ok(v) => {
                if Some(v.key()) != ep.kx || Some(v.proof()) != ep.my_proof {
                    cx.rep.viol(&["R04"], "rebuilt-differs", format!("{:?}: a party rebuilt from the same secrets has another key or proof", ep.key));
                }
                ep.ver = Some(v);
            }
            Err(e) => cx.rep.viol(&["R04"], "rebuilt-refuses", format!("{:?}: a party rebuilt from the same secrets refuses with {e:?}", ep.key)),
        }
    }

    /// The verdict on a proof must be "accept" exactly when a party with the same values made it.
    fn judge_accept(&mut self, cx: &mut Cx, i: usize, what: &str, m: &[u8], by: Option<Key>, r: R<()>) -> Step {
        let strong = self.strong(self.eps[i].user);
        let tampered = self.plan.tampers.iter().any(|t| t.sess == self.eps[i].key.sess) || by.is_none();
        if self.plan.prop == "R02" && tampered {
            self.nt = true;
        }
        let ep = &mut self.eps[i];
        let interop = by.is_some_and(|b| {
            let s = &self.plan.sess[b.sess as usize];
            (if b.init { s.ck } else { s.sk }) != 0
        }) || !ep.real;
        match &r {
            Ok(()) => {
                if by.is_none() && strong {
                    let stored = ep.resumed || ep.rec.as_ref().is_some_and(|r| r.cred.is_none());
                    let ps: &[&'static str] = if stored { &["R02", "R04"] } else { &["R02"] };
                    cx.rep.viol(ps, "false-acceptance", format!("{:?}: {what} {} accepted, but no party with the same public values and credentials made it", ep.key, hex(m)));
                }
                cx.rep.count("proof_accepted");
                ep.accepted = true;
                ep.out = Out::Ok(ep.kx.clone().unwrap());
                if ep.resumed {
                    cx.rep.count("resumed_session_completed");
                }
                if ep.key.init {
                    Step::done(vec![])
                } else {
                    let m2 = ep.my_proof.clone().unwrap();
                    Step::done(vec![pack(CONFIRM, &[&m2])])
                }
            }
            Err(e) => {
                cx.rep.count("proof_refused");
                if let Some(b) = by {
                    let ps: &[&'static str] = if interop {
                        &["R05"]
                    } else if ep.resumed {
                        &["R04", "R01"]
                    } else {
                        &["R01"]
                    };
                    cx.rep.viol(ps, "honest-proof-refused", format!("{:?}: {what} of {b:?} with equal values refused: {}", ep.key, class(e)));
                }
                ep.out = Out::Err(e.clone());
                Step::fail()
            }
        }
    }

    fn server_msg(&mut self, cx: &mut Cx, i: usize, t: u8, fs: Vec<Vec<u8>>) -> Step {
        let k = self.eps[i].key;
        let s = &self.plan.sess[k.sess as usize];
        let ui = s.user as usize;
        if self.eps[i].replay {
            // replays the recorded server side of another session
            let n = self.eps[i].stage as usize;
            self.eps[i].stage += 1;
            let l: Vec<Vec<u8>> = cx.hist.iter().filter(|r| r.key.sess == s.replay_of && !r.key.init).map(|r| r.sent.to_vec()).collect();
            cx.rep.count("replayed_session");
            return match l.get(n) {
                Some(x) => Step::go(vec![x.clone()]),
                None => self.app(i, "nothing to replay"),
            };
        }
        let real = self.eps[i].real;
        match (t, self.eps[i].stage) {
            (HELLO, 0) => {
                let apub = fs[1].clone();
                let rec = self.recs[ui].last().unwrap().clone();
                // a retransmitted hello of a stored session continues it
                let dkey = (k.sess, s.server);
                let stored = if s.s_store > 0 { self.sdur.get(&dkey).and_then(|v| v.iter().rev().find(|x| x.apub == apub && x.rec.v == rec.v).cloned()) } else { None };
                let b = match &stored {
                    Some(x) => {
                        cx.rep.count("server_rebuilt_from_stored_secret");
                        if self.plan.prop == "R04" {
                            self.nt = true;
                        }
                        x.b.clone()
                    }
                    None => self.draw(&k, &s.b.0, s.blen),
                };
                let bpub = self.ctx[ui].s_pub(real, &b, &rec.v);
                if stored.is_none() && s.s_store > 0 {
                    self.sdur.entry(dkey).or_default().push(SStore { b: b.clone(), rec: rec.clone(), apub: apub.clone() });
                }
                self.server_kx(cx, i, b, rec, apub, bpub).unwrap_or_else(|| {
                    let (salt, bp) = (self.eps[i].salt.clone(), self.eps[i].bpub.clone());
                    self.eps[i].stage = 1;
                    Step::go(vec![pack(CHALLENGE, &[&salt, &bp])])
                })
            }
            (RESUME, 0) => {
                let Some(st) = (if s.s_store > 0 { self.sdur.get(&(k.sess, s.server)).and_then(|v| v.last().cloned()) } else { None }) else {
                    return self.app(i, "no stored session");
                };
                cx.rep.count("server_rebuilt_from_stored_secret");
                if self.plan.prop == "R04" {
                    self.nt = true;
                }
                let rec = if s.s_store == 2 { self.recs[ui].last().unwrap().clone() } else { st.rec.clone() };
                let bpub = self.ctx[ui].s_pub(real, &st.b, &rec.v);
                self.eps[i].resumed = true;
                if let Some(step) = self.server_kx(cx, i, st.b, rec, fs[1].clone(), bpub) {
                    return step;
                }
                self.server_proof(cx, i, &fs[2])
            }
            (PROOF, 1) => {
                if s.stateless {
                    let ep = &self.eps[i];
                    let again = self.ctx[ui].s_reply(real, &ep.sec, &ep.rec.as_ref().unwrap().v, &ep.apub);
                    let bp = self.ctx[ui].s_pub(real, &ep.sec, &ep.rec.as_ref().unwrap().v);
                    if bp != ep.bpub {
                        cx.rep.viol(&["R04"], "rebuilt-differs", format!("{k:?}: rebuilt server has another public value"));
                    }
                    cx.rep.count("verifier_rederived");
                    self.rederived(cx, i, again);
                }
                self.server_proof(cx, i, &fs[0])
            }
            _ => self.app(i, "unexpected message"),
        }
    }

    fn server_kx(&mut self, cx: &mut Cx, i: usize, b: Vec<u8>, rec: Rec, apub: Vec<u8>, bpub: Vec<u8>) -> Option<Step> {
        let ui = self.eps[i].user;
        let res = self.ctx[ui].s_reply(self.eps[i].real, &b, &rec.v, &apub);
        self.judge_value(cx, i, "a_pub", &apub, &res);
        let k = self.eps[i].key;
        let ep = &mut self.eps[i];
        ep.sec = b;
        ep.salt = rec.salt.clone();
        ep.apub = apub;
        ep.bpub = bpub;
        let who = rec.cred.clone().map(|c| (c, rec.salt.clone()));
        ep.rec = Some(rec);
        match res {
            Err(e) => {
                ep.out = Out::Err(e);
                Some(Step::fail())
            }
            Ok(v) => {
                ep.kx = Some(v.key());
                ep.my_proof = Some(v.proof());
                self.server_proofs.push(Known { key: k, user: ui, proof: v.proof(), a: int(&ep.apub), b: int(&ep.bpub), who });
                ep.ver = Some(v);
                None
            }
        }
    }

    fn server_proof(&mut self, cx: &mut Cx, i: usize, m1: &[u8]) -> Step {
        let ep = &self.eps[i];
        let ui = ep.user;
        let own = ep.my_proof.clone().unwrap();
        let dm: &[TOp] = if ep.real { &self.plan.damage } else { &[] };
        let big = self.strong(ui);
        let r = verify(&mut cx.rep, &format!("{:?} (server)", ep.key), "client", ep.ver.as_ref().unwrap().as_ref(), m1, &own, dm, big);
        if ep.real && !dm.is_empty() && self.plan.prop == "R06" {
            self.nt = true;
        }
        let (a, b) = (int(&ep.apub), int(&ep.bpub));
        let rec = ep.rec.as_ref().unwrap();
        let me = rec.cred.clone().map(|c| (c, rec.salt.clone()));
        let by = self.client_proofs.iter().find(|p| p.user == ui && p.proof == m1 && p.a == a && p.b == b && me.is_some() && p.who == me).map(|p| p.key);
        self.judge_accept(cx, i, "client proof", m1, by, r)
    }
}

fn judge_value(rep: &mut Report, who: &str, name: &'static str, val: &[u8], zero: bool, err: Option<&SrpAuthError>) {
    match (zero, err) {
        (true, Some(SrpAuthError::IllegalParameter(n))) if n == name => {}
        (false, None) => {}
        (true, None) => rep.viol(&["R03", "R02"], "zero-accepted", format!("{who}: {name} = {} is zero modulo N but was accepted", hex(val))),
        (true, Some(e)) => rep.viol(&["R03"], "wrong-error", format!("{who}: {name} = {} reported as {e:?}", hex(val))),
        (false, Some(e)) => rep.viol(&["R03", "R01"], "nonzero-refused", format!("{who}: {name} = {} refused with {e:?}", hex(val))),
    }
}

fn oracle(w: &mut World<'_>, cx: &mut Cx) {
    if crate::engine::transcripts_only() {
        return;
    }
    let plan = w.plan;
    let prop = plan.prop.as_str();
    let rep = &mut cx.rep;

    // honest pairs: both hold the same values => same key and proofs accepted; others differ
    let full = |e: &Ep| {
        let s = &plan.sess[e.key.sess as usize];
        let lit = if e.key.init { &s.a } else { &s.b };
        lit.0.is_empty() && e.sec.len() >= 16
    };
    let n = w.eps.len();
    let id = |e: &Ep| -> (BigUint, BigUint, Option<Vec<u8>>, Vec<u8>, Hash) {
        let who = if e.key.init { Some(e.who.clone()) } else { e.rec.as_ref().and_then(|r| r.cred.clone()) };
        (int(&e.apub), int(&e.bpub), who, e.salt.clone(), plan.users[e.user].hash)
    };
    let ids: Vec<_> = w.eps.iter().map(|e| e.kx.as_ref().map(|_| id(e))).collect();
    for x in 0..n {
        for y in x + 1..n {
            let (e, f) = (&w.eps[x], &w.eps[y]);
            let (Some(ke), Some(kf)) = (&e.kx, &f.kx) else { continue };
            if e.user != f.user && (w.ctx[e.user].rf.n != w.ctx[f.user].rf.n || w.ctx[e.user].rf.g != w.ctx[f.user].rf.g) {
                continue;
            }
            let (ie, ifx) = (ids[x].as_ref().unwrap(), ids[y].as_ref().unwrap());
            // the parties' own secrets belong to A or B by construction, unless A or B was forged
            if ie == ifx && ie.2.is_some() && e.key.init != f.key.init {
                let (c, s) = if e.key.init { (e, f) } else { (f, e) };
                let honest = int(&c.apub) == w.ctx[c.user].rf.a_pub(&int(&c.sec)) && s.rec.is_some();
                // the client's B must be the server's own (it is: equal), the server's A the client's own
                if honest {
                    let reals = e.real && f.real;
                    rep.count(if reals { "honest_pair_keyed" } else { "interop_pair_keyed" });
                    if ke != kf {
                        let ps: &[&'static str] = if reals { &["R01"] } else { &["R05"] };
                        rep.viol(ps, "keys-differ", format!("{:?} and {:?} hold the same values but keys {} and {}", e.key, f.key, hex(ke), hex(kf)));
                    }
                }
            } else if ie != ifx && w.strong(e.user) && full(e) && full(f) {
                rep.count("non_matching_keys_compared");
                // same A and B with the same secret exponents and x give the same key by design;
                // corrupted verifiers are told apart by their value
                let both_servers_same = !e.key.init && !f.key.init && e.rec.as_ref().map(|r| &r.v) == f.rec.as_ref().map(|r| &r.v) && ie.0 == ifx.0 && ie.1 == ifx.1;
                if ke != kf && ke.rchunks_exact(8).zip(kf.rchunks_exact(8)).any(|(x, y)| x == y) {
                    rep.viol(&["R02"], "keys-related", format!("the keys of {:?} and {:?} share bytes although values differ", e.key, f.key));
                }
                if ke == kf && !both_servers_same {
                    rep.viol(&["R02"], "keys-collide", format!("{:?} and {:?} have the same key {} although values differ", e.key, f.key, hex(ke)));
                }
            }
        }
    }

    // every state of a rebuilt party agrees
    for x in 0..n {
        for y in x + 1..n {
            let (e, f) = (&w.eps[x], &w.eps[y]);
            if e.key.init == f.key.init && e.real && f.real && e.user == f.user && e.sec == f.sec && !e.sec.is_empty() && e.key.sess == f.key.sess {
                let same = e.salt == f.salt && int(&e.apub) == int(&f.apub) && int(&e.bpub) == int(&f.bpub) && e.who == f.who && e.rec.as_ref().map(|r| &r.v) == f.rec.as_ref().map(|r| &r.v);
                if e.key.init && e.apub != f.apub {
                    rep.viol(&["R04"], "rebuilt-differs", format!("{:?} and {:?}: same stored secret, other public value", e.key, f.key));
                }
                if same && e.kx.is_some() && f.kx.is_some() {
                    rep.count("rebuilt_pair_compared");
                    if e.kx != f.kx || e.my_proof != f.my_proof {
                        rep.viol(&["R04"], "rebuilt-differs", format!("{:?} and {:?}: same stored secrets and values, other key or proof", e.key, f.key));
                    }
                }
            }
        }
    }

    // RFC 5054 values
    for e in w.eps.iter().filter(|e| e.real && !e.sec.is_empty()) {
        let c = &w.ctx[e.user];
        let s = &plan.sess[e.key.sess as usize];
        let sec = int(&e.sec);
        let un = SrpRef { pad_u: false, ..c.rf.clone() };
        let (ap, bp) = (int(&e.apub), int(&e.bpub));
        let mine_ok = if e.key.init { c.rf.a_pub(&sec) == ap } else { c.rf.b_pub(&sec, &int(&e.rec.as_ref().unwrap().v)) == bp };
        if !mine_ok {
            rep.viol(&["R05"], "public-value-formula", format!("{:?}: public value is not that of RFC 5054", e.key));
            continue;
        }
        let enc = if e.key.init { &e.apub } else { &e.bpub };
        if *enc != int(enc).to_bytes_be() && enc.len() != c.rf.n.to_bytes_be().len() {
            rep.viol(&["R05"], "public-value-encoding", format!("{:?}: {}", e.key, hex(enc)));
        }
        let Some(k) = &e.kx else { continue };
        if plan.prop != "R05" && (plan.seed ^ e.key.sess as u64) % 4 != 0 {
            continue;
        }
        let f = |r: &SrpRef| {
            let s = if e.key.init {
                r.s_client(&sec, &r.x(&s.name.0, &s.pw.0, &e.salt), &bp)
            } else {
                r.s_server(&sec, &int(&e.rec.as_ref().unwrap().v), &ap)
            };
            let m1 = r.m1(&ap, &bp, &s);
            let m2 = r.m2(&ap, &m1, &s);
            (s.to_bytes_be(), if e.key.init { m1 } else { m2 })
        };
        // the client's view of A is its own; a server's A may be anything
        rep.count("key_recomputed_independently");
        let got = (k.clone(), e.my_proof.clone().unwrap());
        let want = f(&c.rf);
        if got != want {
            let short = c.short(&ap) || c.short(&bp);
            if short && got == f(&un) {
                rep.find("R05", "u-not-padded", format!("u is computed from unpadded public values; with |A| = {}, |B| = {} bytes and |N| = {} bytes the key is not that of RFC 5054", ap.to_bytes_be().len(), bp.to_bytes_be().len(), c.rf.n.to_bytes_be().len()));
                rep.count("finding_u_not_padded");
            } else {
                rep.viol(&["R05"], "key-formula", format!("{:?} (group {}, {:?}): key {} proof {}, RFC 5054 gives {} and {}", e.key, plan.users[e.user].group, plan.users[e.user].hash, hex(&got.0), hex(&got.1), hex(&want.0), hex(&want.1)));
            }
        }
    }
    // group constants and the multiplier, through the public helpers
    for (i, u) in plan.users.iter().enumerate() {
        let c = &w.ctx[i];
        let lg = lib_group(u.group);
        if lg.n != c.rf.n || lg.g != c.rf.g {
            rep.viol(&["R05"], "group-constant", format!("group {} differs from RFC 5054", u.group));
        }
        fn helpers<D: sha2::Digest>(_: &Objs<D>, g: &SrpGroup, u: &User) -> (BigUint, BigUint) {
            let ih = SrpClient::<D>::compute_identity_hash(&u.name.0, &u.pw.0);
            (srp::utils::compute_k::<D>(g), SrpClient::<D>::compute_x(ih.as_slice(), &u.salt.0))
        }
        let (k, ih) = with_lib!(&c.lib, o => helpers(o, lg, u));
        if k != c.rf.k() {
            rep.viol(&["R05"], "multiplier", format!("group {} {:?}: k = {k:x}, RFC 5054 gives {:x}", u.group, u.hash, c.rf.k()));
        }
        if ih != c.rf.x(&u.name.0, &u.pw.0, &u.salt.0) {
            rep.viol(&["R05"], "private-key-formula", format!("user {i}: x is not that of RFC 5054"));
        }
    }

    // liveness
    for (si, s) in plan.sess.iter().enumerate() {
        let touched = plan.tampers.iter().any(|t| t.sess == si as u32) || plan.ops.iter().any(|o| o.user == s.user);
        let u = &plan.users[s.user as usize];
        if s.max_att >= 10 && s.timeout_ms >= 4000 && !touched && s.ck < 2 && s.sk < 2 && cred(&s.name.0, &s.pw.0) == cred(&u.name.0, &u.pw.0) && w.strong(s.user as usize) {
            let ok = w.eps.iter().any(|e| e.key.sess == si as u32 && e.key.init && e.accepted);
            if !ok {
                let ps: &[&'static str] = if s.ck == 0 && s.sk == 0 { &["R01"] } else { &["R05"] };
                rep.viol(ps, "no-progress", format!("session {si}: no login although faults stopped and the credentials are right"));
            } else if (prop == "R01" && s.ck == 0 && s.sk == 0) || (prop == "R05" && (s.ck == 1 || s.sk == 1)) {
                w.nt = true;
            }
        }
    }

    // changed public values against parties derived again from the same secrets
    let reals: Vec<usize> = (0..n).filter(|i| w.eps[*i].real && !w.eps[*i].sec.is_empty()).collect();
    for (pi, pr) in plan.probes.iter().enumerate() {
        if reals.is_empty() {
            break;
        }
        let e = &w.eps[reals[pr.ep as usize % reals.len()]];
        let c = &w.ctx[e.user];
        let s = &plan.sess[e.key.sess as usize];
        let base = if e.key.init { &e.bpub } else { &e.apub };
        let Some(val) = change(&pr.op, base, &c.rf.n) else { continue };
        let (name, res) = if e.key.init {
            ("b_pub", c.c_reply(true, &e.sec, &s.name.0, &s.pw.0, &e.salt, &val))
        } else {
            ("a_pub", c.s_reply(true, &e.sec, &e.rec.as_ref().unwrap().v, &val))
        };
        let zero = int(&val) % &c.rf.n == BigUint::default();
        rep.count(if zero { "zero_congruent_value_delivered" } else { "probe_value_delivered" });
        if prop == "R03" {
            w.nt = true;
        }
        judge_value(rep, &format!("probe {pi} at {:?}", e.key), name, &val, zero, res.as_ref().err());
        if let (Ok(v), Some(k0), Some(p0)) = (&res, &e.kx, &e.my_proof) {
            let same = int(&val) == int(base);
            if c.bits >= 120 && full(e) {
                if !same && (v.proof() == *p0 || v.verify(p0).is_ok()) {
                    rep.viol(&["R02"], "proof-ignores-value", format!("{:?}: {name} changed from {} to {} but the proof stays", e.key, hex(base), hex(&val)));
                }
                // congruent values give the same base but another u
                if !same && v.key() == *k0 {
                    rep.viol(&["R02"], "key-ignores-value", format!("{:?}: {name} changed from {} to {} but the key stays", e.key, hex(base), hex(&val)));
                }
            }
            if same && (v.key() != *k0 || v.proof() != *p0) {
                rep.viol(&["R04", "X02"], "rebuilt-differs", format!("{:?}: same values, other key or proof", e.key));
            }
        }
    }
    cx.rep.nontrivial = w.nt;
}

// ------------------------------------------------------------------------------- entry points

#[derive(Clone, PartialEq, Debug)]
pub struct Tr {
    pub key: Key,
    pub sent: Vec<Vec<u8>>,
    pub out: Out,
    pub dropped: bool,
}

pub fn validate(p: &Plan) -> Result<(), String> {
    let bad = |s: &str| Err(format!("invalid plan: {s}"));
    if p.clients == 0 || p.servers == 0 || p.clients > 64 || p.servers > 64 || p.sess.len() > 1000 {
        return bad("size");
    }
    for u in &p.users {
        if u.group > 6 && !(10..10 + primes::SMALL.len() as u8).contains(&u.group) {
            return bad("group");
        }
    }
    for s in &p.sess {
        if s.user as usize >= p.users.len() || s.client >= p.clients || s.server < p.clients || s.server >= p.clients + p.servers || s.max_att > 200 || s.timeout_ms < 100 {
            return bad("session");
        }
    }
    if p.crashes.iter().any(|c| c.node >= p.clients + p.servers) || p.ops.iter().any(|o| o.user as usize >= p.users.len()) {
        return bad("fault");
    }
    Ok(())
}

pub fn build(plan: &Plan, trace: bool) -> Engine<World<'_>> {
    let sess = plan.sess.iter().map(|s| SessCfg { inode: s.client, anode: s.server, start_ms: s.start_ms, max_att: s.max_att, timeout_ms: s.timeout_ms }).collect();
    let mut e = Engine::new(World::new(plan), plan.seed, plan.net.clone(), plan.crashes.clone(), sess, plan.clients + plan.servers, trace);
    e.p.setup(&mut e.cx);
    for (i, o) in plan.ops.iter().enumerate() {
        if o.on.is_none() {
            e.schedule_op(o.at.unwrap_or(0), i as u32);
        }
    }
    e
}

pub fn finish(e: Engine<World<'_>>) -> (Report, Vec<Tr>) {
    let (mut p, mut cx) = (e.p, e.cx);
    oracle(&mut p, &mut cx);
    let trs = p.eps.iter().map(|e| Tr { key: e.key, sent: e.sent.clone(), out: e.out.clone(), dropped: e.dropped }).collect();
    (cx.rep, trs)
}

pub fn run_plan(plan: &Plan, trace: bool) -> Result<(Report, Vec<Tr>), String> {
    validate(plan)?;
    let mut e = build(plan, trace);
    if !e.run() {
        e.cx.rep.count("event_cap_hit");
    }
    Ok(finish(e))
}

pub fn run(v: &Value, trace: bool) -> Result<Report, String> {
    let plan: Plan = serde_json::from_value(v.clone()).map_err(|e| format!("plan: {e}"))?;
    Ok(run_plan(&plan, trace)?.0)
}

// ------------------------------------------------------------------------------- generation

fn fld(f: &str, op: &str, arg: u64) -> TOp {
    TOp::Field { f: f.into(), op: op.into(), arg }
}

fn gen_value_op(r: &mut Prng, zeroish: bool, f: &str) -> TOp {
    if r.chance(if zeroish { 65 } else { 20 }) {
        let o = *r.pick(&["empty", "zeros", "n", "kn", "n_lead", "n_shl", "n_sq", "zeros", "kn"]);
        let arg = match r.below(3) {
            0 => r.below(3),
            1 => r.below(300),
            _ => r.next() >> 20,
        };
        fld(f, o, arg)
    } else {
        let o = *r.pick(&["n_pm", "n_mp", "kn_pm", "kn_mm", "one", "small", "lead", "plus_n", "neg", "inc", "double", "square", "rand", "shift"]);
        fld(f, o, if r.chance(50) { r.below(4) } else { r.below(100_000) })
    }
}

fn gen_damage(r: &mut Prng) -> TOp {
    match r.below(18) {
        16 | 17 => fld("recode", "", r.below(RECODINGS)),
        0 | 1 => TOp::Flip(r.below(512)),
        2 => TOp::Flip(7 + 8 * r.below(64)),
        3 | 4 => {
            let n = match r.below(3) {
                0 => r.below(4),
                1 => *r.pick(&[8u64, 16, 19, 20, 31, 32, 63]),
                _ => r.below(64),
            };
            TOp::Trunc(n as u32)
        }
        5 => {
            let n = 1 + r.us(5);
            TOp::Extend(if r.chance(50) { "00".repeat(n) } else { hex(&r.bytes(n)) })
        }
        6 => fld("shift", "", r.below(256)),
        7 => fld("prefix", "", if r.chance(60) { 0 } else { r.below(256) }),
        8 => fld("drop_first", "", 0),
        9 => fld("rot", "", 1 + r.below(60)),
        10 => fld("zero_tail", "", 1 + r.below(64)),
        11 => fld("zero", "", 0),
        12 => fld("repeat", "", 0),
        13 => fld("own", "", 0),
        14 => fld("empty", "", 0),
        _ => {
            let n = r.us(70);
            TOp::Replace(hex(&r.bytes(n)))
        }
    }
}

pub fn gen(prop: &str, seed: u64, thorough: bool) -> Value {
    let mut r = Prng::keyed(&[seed, 0x5997]);
    let clients = r.range(1, 3) as u32;
    let servers = r.range(1, 2) as u32;
    let nodes = clients + servers;
    let lvl = if matches!(prop, "R03" | "R06") { r.below(2) } else { u64::from(r.chance(80)) };
    let net = gen_net(&mut r, nodes, lvl);
    let hash = |r: &mut Prng| *r.pick(&[Hash::Sha256, Hash::Sha256, Hash::Sha1, Hash::Sha512]);
    let big_pct = match prop {
        "R05" => 30,
        "R01" => 10,
        "R03" | "R06" => 4,
        _ => 3,
    } * if thorough { 2 } else { 1 };
    let big = r.chance(big_pct);
    let nu = if big { 1 } else { r.range(1, 3) };
    let mut users: Vec<User> = vec![];
    for i in 0..nu {
        let group = if big {
            *r.pick(&[0u8, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6])
        } else if matches!(prop, "R01" | "R03" | "R05") && r.chance(15) {
            10 + r.below(4) as u8
        } else {
            14 + r.below(6) as u8
        };
        let mut name = if r.chance(2) { gen_str(&mut r, 60_000) } else { gen_str(&mut r, 300) };
        if users.iter().any(|u| u.name.0 == name) {
            name.push(b'0' + i as u8);
        }
        let ns = match r.below(6) {
            0 => 0,
            1 => *r.pick(&[1usize, 4, 8, 64, 200]),
            _ => 16,
        };
        let mut u = User { name: name.into(), pw: if r.chance(2) { gen_str(&mut r, 60_000) } else { gen_str(&mut r, 300) }.into(), salt: r.bytes(ns).into(), group, hash: hash(&mut r), off: false };
        if !u.salt.0.is_empty() && r.chance(10) {
            let n = u.salt.0.len();
            u.salt.0[n - 1] = 0;
        }
        if i > 0 && r.chance(40) {
            // same password and group for another user
            u.pw = users[0].pw.clone();
            u.group = users[0].group;
            u.hash = users[0].hash;
            if r.chance(50) {
                u.salt = users[0].salt.clone();
            }
        }
        users.push(u);
    }
    let crowd = !big && !matches!(prop, "R03" | "R06") && r.chance(1);
    let ns = if crowd { r.range(70, 400) } else if big { r.range(1, 2) } else { r.range(1, if thorough { 7 } else { 4 }) };
    let honest = match prop {
        "R01" | "R05" | "R06" | "R04" => 94,
        "R02" => 45,
        _ => 80,
    };
    let mut sess: Vec<Sess> = vec![];
    for i in 0..ns {
        let user = r.below(nu) as u32;
        let u = &users[user as usize];
        let (mut name, mut pw) = (u.name.clone(), u.pw.clone());
        if !r.chance(honest) {
            match r.below(6) {
                0..=2 => pw = near_miss(&mut r, &pw.0).into(),
                3 | 4 => name = near_miss(&mut r, &name.0).into(),
                _ => std::mem::swap(&mut name, &mut pw),
            }
        }
        let len = |r: &mut Prng| -> u32 {
            match r.below(8) {
                0 => 64,
                1 => *r.pick(&[16u32, 17, 31, 33, 48, 100]),
                _ => 32,
            }
        };
        let (alen, blen) = (len(&mut r), len(&mut r));
        let mut s = Sess {
            client: r.below(clients as u64) as u32,
            server: clients + r.below(servers as u64) as u32,
            start_ms: {
                let w = if crowd { 20_000 } else if r.chance(50) { 40 } else { 1500 };
                r.below(w)
            },
            max_att: 12,
            timeout_ms: r.range(4000, 9000),
            user,
            name,
            pw,
            a: Hx(vec![]),
            b: Hx(vec![]),
            alen,
            blen,
            ck: 0,
            sk: 0,
            replay_of: 0,
            c_store: r.chance(if prop == "R04" { 90 } else { 30 }),
            s_store: match prop {
                "R04" => *r.pick(&[1u8, 1, 1, 1, 2, 3, 0]),
                _ => *r.pick(&[0u8, 0, 1, 2, 3]),
            },
            stateless: r.chance(if prop == "R04" { 60 } else { 20 }),
            twin: None,
        };
        // ephemerals with awkward encodings: tiny, leading zeros, all ones
        if matches!(prop, "R01" | "R05" | "R03" | "R04") && r.chance(30) {
            s.a = match r.below(4) {
                0 => vec![1 + r.below(20) as u8],
                1 => {
                    let mut v = vec![0u8; 1 + r.us(4)];
                    v.extend(r.bytes(24));
                    v
                }
                2 => vec![0xff; 40],
                _ => r.bytes(2),
            }
            .into();
        }
        if matches!(prop, "R01" | "R05" | "R03" | "R04") && r.chance(25) {
            s.b = match r.below(4) {
                0 => vec![1 + r.below(20) as u8],
                1 => {
                    let mut v = vec![0u8; 1 + r.us(4)];
                    v.extend(r.bytes(24));
                    v
                }
                2 => vec![0xff; 40],
                _ => r.bytes(2),
            }
            .into();
        }
        match prop {
            "R05" => {
                if r.chance(85) {
                    if r.chance(50) {
                        s.ck = 1
                    } else {
                        s.sk = 1
                    }
                }
            }
            "R02" => {
                if i > 0 && r.chance(20) {
                    if r.chance(50) {
                        s.ck = 2
                    } else {
                        s.sk = 2
                    }
                    s.replay_of = r.below(i) as u32;
                    s.max_att = 2;
                }
            }
            _ => {}
        }
        sess.push(s);
    }
    let crashes = match prop {
        "R04" => {
            let mut c = gen_crashes(&mut r, nodes, ns as u32, 3);
            // crash a party of a chosen session in mid-exchange
            let k = r.below(ns) as usize;
            let node = if r.chance(65) { sess[k].server } else { sess[k].client };
            c.push(Crash { node, at: None, on: Some((k as u32, 0, r.below(2) as u32)), phase: r.below(3) as u8, down: *r.pick(&[1u64, 50, 400]) });
            c
        }
        "R01" => gen_crashes(&mut r, nodes, ns as u32, 2),
        _ if r.chance(20) => gen_crashes(&mut r, nodes, ns as u32, 2),
        _ => vec![],
    };
    let tp = match prop {
        "R02" => 60,
        "R03" => 60,
        "R06" => 20,
        "R01" | "R05" | "R04" => 5,
        _ => 20,
    };
    let mut tampers = vec![];
    for si in 0..ns as u32 {
        if !r.chance(tp) {
            continue;
        }
        let k = if r.chance(20) { 2 } else { 1 };
        for _ in 0..k {
            let (from_i, idx, f) = *r.pick(&[(true, 0u32, "A"), (true, 0, "user"), (false, 0, "B"), (false, 0, "salt"), (true, 1, "M1"), (false, 1, "M2")]);
            let (from_i, idx, f) = if prop == "R03" { *r.pick(&[(true, 0u32, "A"), (false, 0, "B")]) } else { (from_i, idx, f) };
            let op = if r.chance(25) && prop != "R03" {
                TOp::Splice { sess: r.below(ns) as u32, att: 0, from_i: if r.chance(60) { from_i } else { !from_i }, idx: r.below(2) as u32 }
            } else if matches!(f, "A" | "B") {
                gen_value_op(&mut r, prop == "R03", f)
            } else {
                let o = *r.pick(&["flip", "flip", "shift", "prefix", "drop_first", "zero_tail", "zero", "repeat", "empty", "rot", "append", "append", "pop"]);
                fld(f, o, if matches!(o, "append" | "prefix") && r.chance(60) { 0 } else { r.below(512) })
            };
            tampers.push(Tamper { sess: si, att: 0, from_i, idx, op });
        }
    }
    let mut ops = vec![];
    if r.chance(match prop {
        "R04" => 25,
        "R02" => 30,
        _ => 6,
    }) {
        let user = r.below(nu) as u32;
        let kind = match r.below(4) {
            0 => {
                let b = near_miss(&mut r, &users[user as usize].pw.0);
                OpKind::ChangePw(b.into())
            }
            1 => OpKind::ReSalt(r.bytes(16).into()),
            2 => OpKind::Corrupt(r.below(8)),
            _ => OpKind::Corrupt(if r.chance(50) { r.below(4096) } else { r.below(4 << 12) }),
        };
        let on = if r.chance(60) { Some((r.below(ns) as u32, r.below(2) as u32, r.below(2) as u32)) } else { None };
        ops.push(Op { user, kind, at: if on.is_none() { Some(r.below(1500)) } else { None }, on });
    }
    if let (true, Some((k, _, _))) = (prop == "R04" && r.chance(20), crashes.last().and_then(|c| c.on)) {
        // the verifier is damaged between the crash of this session's server and its resumption
        let s = &mut sess[k as usize];
        s.s_store = 2;
        let n = (r.below(4) << 12) + r.below(4096);
        ops.push(Op { user: s.user, kind: OpKind::Corrupt(n), at: None, on: Some((k, 1, 0)) });
    }
    let np = match prop {
        "R03" => r.range(8, if thorough { 60 } else { 20 }),
        "R02" => r.range(2, 5),
        _ => r.below(2),
    };
    let probes = if big && prop != "R03" { vec![] } else { (0..np).map(|_| Probe { ep: r.below(64) as u32, op: gen_value_op(&mut r, prop == "R03", "A") }).collect() };
    let nd = match prop {
        "R06" => r.range(8, if thorough { 60 } else { 24 }),
        "R02" => 2,
        _ => 0,
    };
    let damage = (0..nd).map(|_| gen_damage(&mut r)).collect();
    serde_json::to_value(Plan { seed, prop: prop.into(), clients, servers, net, crashes, tampers, users, sess, ops, probes, damage, salt: 0 }).unwrap()
}
