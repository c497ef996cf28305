//! AuCPace deployment in the simulator: client nodes, server nodes, a shared credential store,
//! an active attacker, and the oracles that compare the history with the documented protocol.
use crate::engine::*;
use crate::kit::*;
use crate::reference as rf;
use crate::rng::*;
use crate::util::*;
use aucpace::client as ac;
use aucpace::server as asv;
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, Error, PartialAugDatabase, ServerMessage, StrongDatabase};
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::{Identity, IsIdentity};
use password_hash::{ParamsString, SaltString};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use crate::kit::SimD;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub use crate::auc_gen::gen;

// ------------------------------------------------------------------------------- plan

#[derive(Serialize, Deserialize, Clone)]
pub struct User {
    pub name: Hx,
    pub pw: Hx,
    pub plain: bool,
    pub strong: bool,
    pub keypair: bool,
    pub p: PSpec,
    pub api: u8,
    pub zero_q: bool,
    /// record imported from elsewhere: its salt is this many bytes long (0: as registered)
    #[serde(default)]
    pub salt_len: u8,
    /// imported record: no hashing parameters (the defaults apply)
    #[serde(default)]
    pub no_params: bool,
    /// imported record: a special secret exponent (see `special_q`; 0: as registered)
    #[serde(default)]
    pub q_sel: u8,
}

pub fn is_special_q(q: &Scalar) -> bool {
    (1..8).any(|i| special_q(i) == Some(*q))
}

/// Secret exponents a provisioning system may hand over.
pub fn special_q(sel: u8) -> Option<Scalar> {
    Some(match sel {
        1 => Scalar::ONE,
        2 => -Scalar::ONE,
        3 => Scalar::from(2u8),
        4 => -Scalar::from(8u8),
        5 => Scalar::from(1u64 << 63),
        6 => Scalar::from(u128::MAX),
        7 => Scalar::from(8u8).invert(),
        _ => return None,
    })
}

#[derive(Serialize, Deserialize, Clone)]
pub struct LkFault {
    pub att: u32,
    /// which lookup of the attempt (0 first)
    pub nth: u32,
    /// 0: lost, n>0: stale by n versions
    pub stale: u32,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sess {
    pub client: u32,
    pub server: u32,
    pub start_ms: u64,
    pub max_att: u32,
    pub timeout_ms: u64,
    pub user: Hx,
    pub pw: Hx,
    pub strong: bool,
    pub partial: bool,
    pub explicit: bool,
    /// 0 heap, n: fixed buffer BUFS[n-1]
    pub api: u8,
    pub codec: u8,
    /// pre-established SSID as (client's, server's) view
    pub ssid: Option<(Hx, Hx)>,
    pub ci_c: Hx,
    pub ci_s: Hx,
    /// the server sends its public key only after receiving the client's
    pub late: bool,
    /// 0 real, 1 independent peer, 2 replays session `replay_of`, 3 probe with known blinding
    pub ck: u8,
    pub sk: u8,
    pub replay_of: u32,
    pub probe: u64,
    /// registration over the wire instead of a login
    pub register: bool,
    pub reg_p: PSpec,
    pub hf: Option<HFault>,
    pub lk: Vec<LkFault>,
    /// draws the same random streams as that session
    #[serde(default)]
    pub twin: Option<u32>,
}

#[derive(Serialize, Deserialize, Clone)]
pub enum OpKind {
    ChangePw(Hx),
    Rehash,
    RotateKey,
    /// a rotation of which only one half was written
    TearKey(bool),
    Delete,
    Restore,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Op {
    pub user: u32,
    pub kind: OpKind,
    pub at: Option<u64>,
    /// (sess, att, nth lookup): runs just before that lookup returns
    pub on: Option<(u32, u32, u32)>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct RngFault {
    pub sess: u32,
    pub att: u32,
    pub client: bool,
    pub from: u64,
    pub len: u64,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub seed: u64,
    pub prop: String,
    pub k32: bool,
    /// nonces of 20 bytes (ignored with scrypt)
    #[serde(default)]
    pub k20: bool,
    /// parties use a digest other than SHA-512
    #[serde(default)]
    pub digest2: bool,
    pub scrypt: bool,
    pub clients: u32,
    pub servers: u32,
    pub net: Net,
    pub crashes: Vec<Crash>,
    pub tampers: Vec<Tamper>,
    pub users: Vec<User>,
    pub sess: Vec<Sess>,
    pub ops: Vec<Op>,
    pub rngf: Vec<RngFault>,
    /// (sess, att, client, stream offset, mask): sensitivity probes
    #[serde(default)]
    pub flips: Vec<(u32, u32, bool, u64, u8)>,
    /// stream salt: changes every random stream of the run
    #[serde(default)]
    pub salt: u64,
}

pub const BUFS: [usize; 9] = [24, 40, 64, 100, 256, 640, 0, 1, 8];

macro_rules! with_buf {
    ($api:expr, $N:ident => $e:expr) => {
        match $api {
            7 => { const $N: usize = 0; $e }
            8 => { const $N: usize = 1; $e }
            9 => { const $N: usize = 8; $e }
            1 => { const $N: usize = 24; $e }
            2 => { const $N: usize = 40; $e }
            3 => { const $N: usize = 64; $e }
            4 => { const $N: usize = 100; $e }
            5 => { const $N: usize = 256; $e }
            _ => { const $N: usize = 640; $e }
        }
    };
}
pub fn buf_len(api: u8) -> Option<usize> {
    match api {
        0 => None,
        n @ 1..=9 => Some(BUFS[n as usize - 1]),
        _ => Some(640),
    }
}

// ------------------------------------------------------------------------------- store

#[derive(Clone)]
pub struct Record {
    pub user: Vec<u8>,
    pub strong: bool,
    pub verifier: RistrettoPoint,
    pub salt: Option<SaltString>,
    pub q: Option<Scalar>,
    pub params: ParamsString,
    /// credentials it was made from
    pub made_user: Vec<u8>,
    pub made_pw: Vec<u8>,
    pub gone: bool,
}

#[derive(Default)]
pub struct Store {
    pub recs: Vec<Record>,
    pub plain: BTreeMap<Vec<u8>, Vec<usize>>,
    pub strong: BTreeMap<Vec<u8>, Vec<usize>>,
    pub keys: BTreeMap<Vec<u8>, Vec<(Scalar, RistrettoPoint)>>,
}

/// Only the private (or only the public) half of a new key pair reaches the disk.
fn tear(s: &mut Store, name: &[u8], new: &[u8], private: bool) {
    let n = s.keys.get(new).and_then(|v| v.last().copied());
    if let (Some(n), Some(v)) = (n, s.keys.get_mut(name)) {
        if let Some(o) = v.last().copied() {
            v.push(if private { (n.0, o.1) } else { (o.0, n.1) });
        }
    }
}

impl Store {
    fn put(&mut self, r: Record) -> usize {
        let i = self.recs.len();
        let m = if r.strong { &mut self.strong } else { &mut self.plain };
        m.entry(r.user.clone()).or_default().push(i);
        self.recs.push(r);
        i
    }
    fn cur(&self, user: &[u8], strong: bool, stale: u32) -> Option<usize> {
        let m = if strong { &self.strong } else { &self.plain };
        let v = m.get(user)?;
        let i = v.len().checked_sub(1 + stale as usize).or(if v.is_empty() { None } else { Some(0) })?;
        let id = v[i];
        if self.recs[id].gone {
            None
        } else {
            Some(id)
        }
    }
}

/// What the server's library call saw.
#[derive(Default, Clone)]
struct LookLog {
    n: u32,
    recs: Vec<Option<usize>>,
    keys: Vec<Option<(Scalar, RistrettoPoint)>>,
    faulted: u32,
    stale: u32,
    op_fired: u32,
}

struct DbView<'a> {
    store: &'a RefCell<Store>,
    log: RefCell<LookLog>,
    faults: &'a [LkFault],
    att: u32,
    hook: &'a dyn Fn(u32) -> u32,
}

impl DbView<'_> {
    fn pre(&self) -> (u32, Option<u32>) {
        let n = self.log.borrow().n;
        self.log.borrow_mut().n += 1;
        let f = (self.hook)(n);
        self.log.borrow_mut().op_fired += f;
        let fault = self.faults.iter().find(|f| f.att == self.att && f.nth == n).map(|f| f.stale);
        (n, fault)
    }
    fn rec(&self, user: &[u8], strong: bool) -> Option<Record> {
        let (_, f) = self.pre();
        let id = match f {
            Some(0) => {
                self.log.borrow_mut().faulted += 1;
                None
            }
            Some(n) => {
                let s = self.store.borrow();
                let id = s.cur(user, strong, n);
                if id != s.cur(user, strong, 0) {
                    self.log.borrow_mut().stale += 1;
                }
                id
            }
            None => self.store.borrow().cur(user, strong, 0),
        };
        self.log.borrow_mut().recs.push(id);
        id.map(|i| self.store.borrow().recs[i].clone())
    }
}

impl Database for DbView<'_> {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, username: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> {
        let r = self.rec(username, false)?;
        Some((r.verifier, r.salt?, r.params))
    }
    fn store_verifier(&mut self, _: &[u8], _: SaltString, _: Option<&[u8]>, _: RistrettoPoint, _: ParamsString) {
        unreachable!("servers do not store during a login")
    }
}
impl StrongDatabase for DbView<'_> {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, username: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> {
        let r = self.rec(username, true)?;
        Some((r.verifier, r.q?, r.params))
    }
    fn store_verifier_strong(&mut self, _: &[u8], _: Option<&[u8]>, _: RistrettoPoint, _: Scalar, _: ParamsString) {
        unreachable!("servers do not store during a login")
    }
}
impl PartialAugDatabase for DbView<'_> {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, username: &[u8]) -> Option<(Scalar, RistrettoPoint)> {
        let (_, f) = self.pre();
        let r = match f {
            Some(0) => {
                self.log.borrow_mut().faulted += 1;
                None
            }
            Some(n) => {
                let s = self.store.borrow();
                s.keys.get(username).and_then(|v| {
                    if v.is_empty() {
                        None
                    } else {
                        Some(v[v.len().saturating_sub(1 + n as usize)])
                    }
                })
            }
            None => self.store.borrow().keys.get(username).and_then(|v| v.last().copied()),
        };
        self.log.borrow_mut().keys.push(r);
        r
    }
    fn store_long_term_keypair(&mut self, _: &[u8], _: Scalar, _: RistrettoPoint) -> aucpace::Result<()> {
        unreachable!("servers do not store during a login")
    }
}

// ------------------------------------------------------------------------------- codec

pub fn enc<T: Serialize>(codec: u8, m: &T) -> Vec<u8> {
    if codec == 2 {
        serde_json::to_vec(m).unwrap_or_else(|e| panic!("MESSAGE-ENCODE json: {e}"))
    } else if codec == 0 {
        bincode::serialize(m).unwrap_or_else(|e| panic!("MESSAGE-ENCODE bincode: {e}"))
    } else {
        let mut small = [0u8; 2048];
        if let Ok(b) = postcard::to_slice(m, &mut small) {
            return b.to_vec();
        }
        let mut buf = vec![0u8; 400_000];
        postcard::to_slice(m, &mut buf).unwrap_or_else(|e| panic!("MESSAGE-ENCODE postcard: {e}")).to_vec()
    }
}
pub fn dec<'a, T: Deserialize<'a>>(codec: u8, b: &'a [u8]) -> Result<T, String> {
    if codec == 2 {
        T::deserialize(&mut serde_json::Deserializer::from_slice(b)).map_err(|e| e.to_string())
    } else if codec == 0 {
        bincode::deserialize(b).map_err(|e| e.to_string())
    } else {
        postcard::from_bytes(b).map_err(|e| e.to_string())
    }
}

// ------------------------------------------------------------------------------- views

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Pending,
    Key([u8; 64]),
    /// a library error
    Lib(Error),
    /// the application refused (undecodable, unexpected message)
    App(&'static str),
}

#[derive(Clone)]
pub struct View {
    pub key: Key,
    pub client: bool,
    pub kind: u8,
    pub strong: bool,
    pub partial: bool,
    pub explicit: bool,
    pub ssid: Option<Vec<u8>>,
    pub ssid_pre: bool,
    pub ci: Vec<u8>,
    pub user: Vec<u8>,
    pub pw: Vec<u8>,
    pub blinded: Option<[u8; 32]>,
    pub x: Option<[u8; 32]>,
    pub salt: Option<String>,
    pub bsalt: Option<[u8; 32]>,
    pub params: Option<String>,
    pub rec: Option<usize>,
    pub unknown: bool,
    /// the long-term key pair used has parts of two pairs
    pub torn: bool,
    pub nonce: Vec<u8>,
    pub y_sent: Option<[u8; 32]>,
    pub y_recv: Option<[u8; 32]>,
    pub auth_sent: Option<[u8; 64]>,
    pub auth_recv: Option<[u8; 64]>,
    pub out: Out,
    pub rng: LibRng,
    pub rng_base: LibRng,
    /// randomness glitches configured for this endpoint
    pub glitch: bool,
    pub sent: Vec<Vec<u8>>,
    pub dbg: Vec<String>,
    pub incarnation: u32,
    pub node: u32,
    pub dropped: bool,
    pub hash_fault: bool,
    pub lk_fault: bool,
    pub t_open: u64,
}

pub fn cp(p: &RistrettoPoint) -> [u8; 32] {
    p.compress().to_bytes()
}
pub fn dp(b: &[u8; 32]) -> Option<RistrettoPoint> {
    CompressedRistretto(*b).decompress()
}

pub enum CSt<'p, K: Kit, const K1: usize> {
    Ssid(ac::AuCPaceClientSsidEstablish<SimD, K::H, K1>),
    Aug(ac::AuCPaceClientAugLayer<'p, SimD, K::H, K1>),
    AugS(ac::StrongAuCPaceClientAugLayer<'p, SimD, K::H, K1>),
    Recv(ac::AuCPaceClientRecvServerKey<SimD, K1>),
    Exp(ac::AuCPaceClientExpMutAuth<SimD, K1>),
    Reg,
    End,
}
pub enum SSt<const K1: usize> {
    Ssid(asv::AuCPaceServerSsidEstablish<SimD, K1>),
    Aug(asv::AuCPaceServerAugLayer<SimD, K1>),
    Late(asv::AuCPaceServerCPaceSubstep<SimD, LibRng, K1>),
    Recv(asv::AuCPaceServerRecvClientKey<SimD, K1>),
    Exp(asv::AuCPaceServerExpMutAuth<SimD, K1>),
    Reg,
    End,
}

/// State of an independent peer.
pub struct RefSt {
    phase: u8,
    nonce: Vec<u8>,
    ssid: [u8; 64],
    r: Scalar,
    y: Scalar,
    keys: Option<rf::Keys>,
    prs: [u8; 32],
    rng: Option<Prng>,
}

impl Default for RefSt {
    fn default() -> Self {
        RefSt { phase: 0, nonce: vec![], ssid: [0; 64], r: Scalar::ZERO, y: Scalar::ZERO, keys: None, prs: [0; 32], rng: None }
    }
}

pub enum Ep<'p, K: Kit, const K1: usize> {
    C(CSt<'p, K, K1>),
    S(SSt<K1>),
    RC(RefSt),
    RS(RefSt),
    Play,
}

pub type Cl<K, const K1: usize> = AuCPaceClient<SimD, <K as Kit>::H, LibRng, K1>;
pub type Sv<const K1: usize> = AuCPaceServer<SimD, LibRng, K1>;

pub struct World<'p, K: Kit, const K1: usize> {
    pub plan: &'p Plan,
    pub clients: Vec<Option<(Cl<K, K1>, LibRng)>>,
    pub servers: Vec<Option<(Sv<K1>, LibRng, u32)>>,
    pub incs: Vec<u32>,
    pub store: RefCell<Store>,
    pub eps: BTreeMap<Key, (usize, Ep<'p, K, K1>)>,
    pub views: Vec<View>,
    pub op_done: RefCell<Vec<bool>>,
    /// (key of the receiving endpoint's sender, idx) whose point bytes were made non-canonical
    pub bad_points: BTreeSet<(Key, u32)>,
    pub sess_ok: Vec<bool>,
    pub sess_tampered: BTreeSet<u32>,
    /// fake replies per (server, incarnation, partial/strong kind, name)
    pub fakes: Vec<Fake>,
    pub regs: u64,
    pub op_users: BTreeSet<Vec<u8>>,
    pub reg_keys: u64,
    pub conc_reg: BTreeSet<Vec<u8>>,
    /// encoded registration messages, in order
    pub reg_bytes: Vec<(u64, Vec<u8>)>,
}

#[derive(Clone)]
pub struct Fake {
    node: u32,
    inc: u32,
    strong: bool,
    partial: bool,
    name: Vec<u8>,
    salt: Option<String>,
    x: [u8; 32],
    /// the stored public key the server looked up (the key pair exists, only the verifier does
    /// not); two different ones make any answer possible
    stored_key: Option<[u8; 32]>,
    stored_many: bool,
    /// reply divided by the probe's blinding: q*B
    qb: Option<[u8; 32]>,
    params: String,
}

fn key_parts(k: &Key) -> [u64; 4] {
    [k.sess as u64, k.att as u64, k.epoch as u64, k.init as u64]
}

impl<'p, K: Kit, const K1: usize> World<'p, K, K1> {
    fn new(plan: &'p Plan) -> Self {
        let mut w = World {
            plan,
            clients: vec![],
            servers: vec![],
            incs: vec![0; plan.servers as usize],
            store: RefCell::new(Store::default()),
            eps: BTreeMap::new(),
            views: vec![],
            op_done: RefCell::new(vec![false; plan.ops.len()]),
            bad_points: BTreeSet::new(),
            sess_ok: vec![false; plan.sess.len()],
            sess_tampered: BTreeSet::new(),
            fakes: vec![],
            regs: 0,
            op_users: BTreeSet::new(),
            reg_keys: 0,
            conc_reg: BTreeSet::new(),
            reg_bytes: vec![],
        };
        for i in 0..plan.clients {
            w.clients.push(Some(w.mk_client(i)));
        }
        for i in 0..plan.servers {
            let s = w.mk_server(i, 0);
            w.servers.push(Some(s));
        }
        w
    }
    fn mk_client(&self, i: u32) -> (Cl<K, K1>, LibRng) {
        let r = LibRng::keyed(&[self.plan.seed, self.plan.salt, tag("cbase"), i as u64]);
        (AuCPaceClient::new(r.clone()), r)
    }
    fn mk_server(&self, i: u32, inc: u32) -> (Sv<K1>, LibRng, u32) {
        let r = LibRng::keyed(&[self.plan.seed, self.plan.salt, tag("sbase"), i as u64, inc as u64]);
        (AuCPaceServer::new(r.clone()), r, inc)
    }
    fn rng_for(&self, k: &Key, what: &str) -> LibRng {
        // the acceptor's epoch is part of the key: a restarted server draws fresh randomness
        let mut p = key_parts(k);
        if let Some(t) = self.plan.sess[k.sess as usize].twin {
            p[0] = t as u64;
        }
        let r = LibRng::keyed(&[self.plan.seed, self.plan.salt, tag(what), p[0], p[1], p[2], p[3]]);
        if what == "ep" {
            for f in &self.plan.rngf {
                if f.sess == k.sess && f.att == k.att && f.client == k.init {
                    r.zero(f.from, f.from + f.len.min(4096));
                }
            }
            for f in &self.plan.flips {
                if f.0 == k.sess && f.1 == k.att && f.2 == k.init && f.3 < 1 << 32 {
                    r.flip(f.3, f.4);
                }
            }
        } else {
            for f in &self.plan.flips {
                if f.0 == k.sess && f.1 == k.att && f.2 == k.init && f.3 >= 1 << 32 {
                    r.flip(f.3 - (1 << 32), f.4);
                }
            }
        }
        r
    }

    // ------------------------------------------------------------------ registration

    /// Run the real client's registration and return the record, checking what A12/A07 say.
    fn do_register(&mut self, cx: &mut Cx, cl: usize, user: &[u8], pw: &[u8], strong: bool, api: u8, p: &PSpec, hf: &Option<HFault>, key: u64) -> Result<(Vec<u8>, Record), Error> {
        if self.clients[cl].is_none() {
            let c = self.mk_client(cl as u32);
            self.clients[cl] = Some(c);
        }
        let hf = if K::FAULTS { hf.clone() } else { None };
        let (c, r) = self.clients[cl].as_mut().unwrap();
        r.rekey(mix(&[self.plan.seed, self.plan.salt, tag("register"), key]));
        let params = K::params(p, &hf);
        let hasher = K::hasher(&hf);
        cx.rep.count(if strong { "register_strong" } else { "register_plain" });
        let res = match (strong, api) {
            (false, 0) => c.register_alloc(user, pw, params, hasher),
            (true, 0) => c.register_alloc_strong(user, pw, params, hasher),
            (false, a) => with_buf!(a, N => c.register::<&[u8], N>(user, pw, params, hasher)),
            (true, a) => with_buf!(a, N => c.register_strong::<&[u8], N>(user, pw, params, hasher)),
        };
        // exact error contract
        let len_bad = !matches!(p.len.clamp(10, 64), 32 | 64) && K::FAULTS;
        let mut allowed = vec![];
        if let Some(n) = buf_len(api) {
            if user.len() + pw.len() + 1 > n {
                allowed.push(Error::UsernameOrPasswordTooLong);
            }
        }
        allowed.extend(hash_errors(&hf, len_bad, true));
        self.judge_result(cx, "register", &allowed, res.as_ref().err().copied(), &["A07"], &["A07", "A01"]);
        let m = res?;
        self.regs += 1;
        let bytes = enc(0, &m);
        cx.rep.dig_bytes(&bytes);
        self.reg_bytes.push((key, bytes.clone()));
        match m {
            ClientMessage::Registration { username, salt, params, verifier } if !strong => {
                if username != user {
                    cx.rep.viol(&["A12", "A01"], "registration-username", "registration message carries another username");
                }
                let h = K::ref_hash(&rf::cred_string(user, pw), salt.as_str(), params.as_str());
                if rf::w_scalar(&h).map(|w| rf::base(&w)) != Some(verifier) {
                    cx.rep.viol(&["A12"], "registration-verifier", format!("verifier of user x:{} (api {api}) is not w*B for w = PBKDF(user:password, salt, params)", hex(user)));
                }
                if K::canon(params.as_str()) != K::canon(&K::render(p)) {
                    cx.rep.viol(&["A12", "A01"], "registration-params", "registration message carries other parameters than given");
                }
                if salt.as_str().len() < 22 {
                    cx.rep.viol(&["A05"], "short-salt", format!("registration salt {} has less than 16 bytes", salt.as_str()));
                }
                let rec = Record { user: user.to_vec(), strong, verifier, salt: Some(salt), q: None, params, made_user: user.to_vec(), made_pw: pw.to_vec(), gone: false };
                Ok((bytes, rec))
            }
            ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } if strong => {
                if username != user {
                    cx.rep.viol(&["A12", "A01"], "registration-username", "registration message carries another username");
                }
                let salt = b64(&cp(&(rf::z_point(user, pw) * secret_exponent)));
                let h = K::ref_hash(&rf::cred_string(user, pw), &salt, params.as_str());
                if rf::w_scalar(&h).map(|w| rf::base(&w)) != Some(verifier) {
                    cx.rep.viol(&["A12"], "registration-verifier-strong", format!("strong verifier of user x:{} (api {api}) is not w*B for the documented salt q*z", hex(user)));
                }
                if K::canon(params.as_str()) != K::canon(&K::render(p)) {
                    cx.rep.viol(&["A12", "A01"], "registration-params", "registration message carries other parameters than given");
                }
                let rec = Record { user: user.to_vec(), strong, verifier, salt: None, q: Some(secret_exponent), params, made_user: user.to_vec(), made_pw: pw.to_vec(), gone: false };
                Ok((bytes, rec))
            }
            _ => {
                cx.rep.viol(&["A12", "A01"], "registration-kind", "registration produced another kind of message");
                Err(Error::HashEmpty)
            }
        }
    }

    /// `got` must be one of `allowed` if any is expected, and no error must occur otherwise.
    fn judge_result(&self, cx: &mut Cx, what: &'static str, allowed: &[Error], got: Option<Error>, missing: &[&'static str], spurious: &[&'static str]) {
        if !allowed.is_empty() {
            let ident = allowed.contains(&Error::IllegalPointError);
            match got {
                None => {
                    let mut t = missing.to_vec();
                    if ident {
                        t.push("A04");
                    }
                    cx.rep.viol(&t, format!("{what}:missing-error"), format!("{what} succeeded although {allowed:?} was due"))
                }
                Some(e) if !allowed.contains(&e) => {
                    let mut t = missing.to_vec();
                    if ident {
                        t.push("A04");
                    }
                    cx.rep.viol(&t, format!("{what}:wrong-error"), format!("{what} reported {e:?} instead of {allowed:?}"))
                }
                _ => {
                    if ident {
                        cx.rep.count("neutral_element_refused");
                    } else {
                        cx.rep.count("fault_hash_or_buffer_error_reported");
                    }
                }
            }
        } else if let Some(e) = got {
            let mut t = spurious.to_vec();
            if e == Error::IllegalPointError {
                t.push("A04");
            }
            cx.rep.viol(&t, format!("{what}:spurious-error"), format!("{what} reported {e:?} without a reason"));
        }
    }

    fn setup(&mut self, cx: &mut Cx) {
        for (i, u) in self.plan.users.iter().enumerate() {
            self.store_user(cx, i, &u.pw.0, 0);
            if u.keypair {
                self.store_key(cx, &u.name.0, i, 0);
            }
        }
    }

    fn store_user(&mut self, cx: &mut Cx, i: usize, pw: &[u8], ver: u64) {
        let u = &self.plan.users[i];
        for strong in [false, true] {
            if (strong && !u.strong) || (!strong && !u.plain) {
                continue;
            }
            let api = match buf_len(u.api) {
                Some(n) if u.name.0.len() + pw.len() + 1 > n => 0,
                _ => u.api,
            };
            match self.do_register(cx, 0, &u.name.0, pw, strong, api, &u.p, &None, mix(&[i as u64, ver, strong as u64])) {
                Ok((_, mut rec)) => {
                    if strong && u.zero_q {
                        rec.q = Some(Scalar::ZERO);
                    }
                    let q = special_q(u.q_sel).filter(|_| strong && !u.zero_q);
                    if (!strong && u.salt_len > 0) || u.no_params || q.is_some() {
                        // a record of another provisioning system: the salt's size, the exponent
                        // or the parameters are not what this library would have chosen
                        let mut g = Prng::keyed(&[self.plan.seed, self.plan.salt, tag("salt"), i as u64, ver]);
                        if u.no_params {
                            rec.params = ParamsString::default();
                        }
                        let s = match (strong, &rec.salt) {
                            (true, _) => {
                                rec.q = q.or(rec.q);
                                b64(&cp(&(rf::z_point(&u.name.0, pw) * rec.q.unwrap_or_default())))
                            }
                            (false, Some(s)) if u.salt_len == 0 => s.as_str().to_string(),
                            // a PHC salt need not be Base64 (scrypt insists)
                            _ if !self.plan.scrypt && g.chance(30) => salt_text(&mut g, u.salt_len as usize + 1),
                            _ => b64(&g.bytes(u.salt_len.clamp(3, 48) as usize)),
                        };
                        let h = K::ref_hash(&rf::cred_string(&u.name.0, pw), &s, rec.params.as_str());
                        if let Some(w) = rf::w_scalar(&h) {
                            if !strong {
                                rec.salt = SaltString::from_b64(&s).ok().or(rec.salt);
                            }
                            rec.verifier = rf::base(&w);
                            cx.rep.count("imported_record");
                        }
                    }
                    self.store.borrow_mut().put(rec);
                }
                Err(_) => cx.rep.count("setup_registration_failed"),
            }
        }
    }

    fn store_key(&mut self, cx: &mut Cx, name: &[u8], i: usize, ver: u64) {
        let seed = mix(&[self.plan.seed, self.plan.salt, tag("keypair"), i as u64, ver]);
        let Some((s, r, _)) = self.servers.iter_mut().flatten().next() else { return };
        r.rekey(seed);
        let (x, xp) = s.generate_long_term_keypair();
        self.reg_keys += 1;
        if rf::base(&x) != xp {
            cx.rep.viol(&["A12", "A01"], "keypair-mismatch", "long-term public key is not the private key times the base point");
        }
        if self.store.borrow().keys.values().flatten().any(|k| k.1 == xp) {
            cx.rep.viol(&["A05"], "keypair-repeats", "generate_long_term_keypair returned an earlier key pair");
        }
        self.store.borrow_mut().keys.entry(name.to_vec()).or_default().push((x, xp));
    }

    fn apply_op(&mut self, cx: &mut Cx, i: usize) {
        {
            let mut d = self.op_done.borrow_mut();
            if i >= d.len() || d[i] {
                return;
            }
            d[i] = true;
        }
        let op = self.plan.ops[i].clone();
        let Some(u) = self.plan.users.get(op.user as usize) else { return };
        let name = u.name.0.clone();
        self.op_users.insert(name.clone());
        let ver = 100 + i as u64;
        match op.kind {
            OpKind::ChangePw(p) => {
                cx.rep.count("op_password_change");
                self.store_user(cx, op.user as usize, &p.0, ver);
            }
            OpKind::Rehash => {
                cx.rep.count("op_rehash");
                // same password as the newest record
                let pw = {
                    let s = self.store.borrow();
                    s.recs.iter().rev().find(|r| r.user == name).map(|r| r.made_pw.clone()).unwrap_or(u.pw.0.clone())
                };
                self.store_user(cx, op.user as usize, &pw, ver);
            }
            OpKind::RotateKey => {
                cx.rep.count("op_rotate_keypair");
                self.store_key(cx, &name, op.user as usize, ver);
            }
            OpKind::TearKey(private) => {
                cx.rep.count("op_torn_keypair");
                let pk = [b"\0torn", &name[..]].concat();
                self.store_key(cx, &pk, op.user as usize, ver);
                tear(&mut self.store.borrow_mut(), &name, &pk, private);
            }
            OpKind::Delete => {
                cx.rep.count("op_delete_user");
                let mut s = self.store.borrow_mut();
                let ids: Vec<usize> = s.plain.get(&name).into_iter().flatten().chain(s.strong.get(&name).into_iter().flatten()).copied().collect();
                for id in ids {
                    s.recs[id].gone = true;
                }
            }
            OpKind::Restore => {
                cx.rep.count("op_restore_user");
                self.store_user(cx, op.user as usize, &u.pw.0.clone(), ver);
            }
        }
    }

    // ------------------------------------------------------------------ endpoints

    fn sess(&self, k: &Key) -> &'p Sess {
        &self.plan.sess[k.sess as usize]
    }

    fn new_view(&self, k: Key, client: bool, kind: u8) -> View {
        let s = self.sess(&k);
        let node = if client { s.client } else { s.server };
        View {
            key: k,
            client,
            kind,
            strong: s.strong,
            partial: s.partial,
            explicit: s.explicit,
            ssid: None,
            ssid_pre: s.ssid.is_some(),
            ci: if client { s.ci_c.0.clone() } else { s.ci_s.0.clone() },
            user: if client { s.user.0.clone() } else { vec![] },
            pw: if client { s.pw.0.clone() } else { vec![] },
            blinded: None,
            x: None,
            salt: None,
            bsalt: None,
            params: None,
            rec: None,
            unknown: false,
            torn: false,
            nonce: vec![],
            y_sent: None,
            y_recv: None,
            auth_sent: None,
            auth_recv: None,
            out: Out::Pending,
            rng: LibRng::default(),
            rng_base: LibRng::default(),
            glitch: self.plan.rngf.iter().any(|f| f.sess == k.sess && f.att == k.att && f.client == client),
            sent: vec![],
            dbg: vec![],
            incarnation: 0,
            node,
            dropped: false,
            hash_fault: false,
            lk_fault: false,
            t_open: 0,
        }
    }

    /// Encode a client message, remembering what it says.
    fn cmsg(v: &mut View, codec: u8, m: &ClientMessage<'_, K1>) -> Vec<u8> {
        match m {
            ClientMessage::Nonce(n) => v.nonce = n.to_vec(),
            ClientMessage::StrongUsername { blinded, .. } => v.blinded = Some(cp(blinded)),
            ClientMessage::PublicKey(y) => v.y_sent = Some(cp(y)),
            ClientMessage::Authenticator(a) => v.auth_sent = Some(*a),
            _ => {}
        }
        v.dbg.push(format!("{m:?}"));
        v.dbg.push(format!("{m:#?}"));
        let b = enc(codec, m);
        v.sent.push(b.clone());
        b
    }
    fn smsg(v: &mut View, codec: u8, m: &ServerMessage<'_, K1>) -> Vec<u8> {
        match m {
            ServerMessage::Nonce(n) => v.nonce = n.to_vec(),
            ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } => {
                v.x = Some(cp(x_pub));
                v.salt = Some(salt.as_str().to_string());
                v.params = Some(pbkdf_params.as_str().to_string());
            }
            ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, pbkdf_params, .. } => {
                v.x = Some(cp(x_pub));
                v.bsalt = Some(cp(blinded_salt));
                v.params = Some(pbkdf_params.as_str().to_string());
            }
            ServerMessage::PublicKey(y) => v.y_sent = Some(cp(y)),
            ServerMessage::Authenticator(a) => v.auth_sent = Some(*a),
        }
        v.dbg.push(format!("{m:?}"));
        v.dbg.push(format!("{m:#?}"));
        let b = enc(codec, m);
        v.sent.push(b.clone());
        b
    }

    fn fail_lib(&mut self, cx: &mut Cx, vi: usize, e: Error) -> Step {
        let v = &mut self.views[vi];
        v.out = Out::Lib(e);
        v.dbg.push(format!("{e:?} {e} {e:#?}"));
        let k = v.key;
        cx.rep.log(|| format!("    s{} a{} {}: error {e:?}", k.sess, k.att, if k.init { "client" } else { "server" }));
        cx.rep.dig(&[33, hash_bytes(format!("{e:?}").as_bytes())]);
        Step::fail()
    }
    fn fail_app(&mut self, cx: &mut Cx, vi: usize, why: &'static str) -> Step {
        let v = &mut self.views[vi];
        v.out = Out::App(why);
        cx.rep.dig(&[34, tag(why)]);
        let k = v.key;
        cx.rep.log(|| format!("    s{} a{} {}: refused ({why})", k.sess, k.att, if k.init { "client" } else { "server" }));
        Step::fail()
    }
    fn got_key(&mut self, cx: &mut Cx, vi: usize, key: &[u8]) {
        let v = &mut self.views[vi];
        let mut k = [0u8; 64];
        k.copy_from_slice(key);
        v.out = Out::Key(k);
        cx.rep.count("keys_derived");
        cx.rep.dig_bytes(&k);
        let kk = v.key;
        cx.rep.log(|| format!("    s{} a{} {}: key {}", kk.sess, kk.att, if kk.init { "client" } else { "server" }, hex(&k[..8])));
    }

    fn open_client(&mut self, cx: &mut Cx, k: Key) -> Step {
        let s = self.sess(&k);
        let mut v = self.new_view(k, true, s.ck);
        v.t_open = cx.now;
        v.rng = self.rng_for(&k, "ep");
        let vi = self.views.len();
        if s.ck == 2 {
            // replays everything the client of an earlier session sent
            self.views.push(v);
            self.eps.insert(k, (vi, Ep::Play));
            let outs = recorded(cx, s.replay_of, true);
            if outs.is_empty() {
                return Step::fail();
            }
            cx.rep.count("fault_session_replayed");
            return Step::go(outs);
        }
        if s.ck == 1 || s.ck == 3 {
            self.views.push(v);
            let mut st = RefSt { rng: Some(Prng::keyed(&[self.plan.seed, self.plan.salt, tag("refc"), k.sess as u64, k.att as u64])), ..Default::default() };
            let out;
            match &s.ssid {
                Some((c, _)) => {
                    if c.0.len() < 16 {
                        self.eps.insert(k, (vi, Ep::RC(st)));
                        return self.fail_app(cx, vi, "reference refuses short ssid");
                    }
                    st.ssid = rf::hn(0, &[&c.0]);
                    self.views[vi].ssid = Some(c.0.clone());
                    out = self.refc_username(vi, s, &mut st);
                }
                None => {
                    st.nonce = st.rng.as_mut().unwrap().bytes(K1);
                    let m: ClientMessage<'_, K1> = ClientMessage::Nonce(st.nonce.clone().try_into().unwrap());
                    out = Self::cmsg(&mut self.views[vi], s.codec, &m);
                }
            }
            self.eps.insert(k, (vi, Ep::RC(st)));
            return Step::go(vec![out]);
        }
        // real client
        let base = self.rng_for(&k, "base");
        if self.clients[s.client as usize].is_none() {
            let c = self.mk_client(s.client);
            self.clients[s.client as usize] = Some(c);
        }
        {
            let (_, br) = self.clients[s.client as usize].as_ref().unwrap();
            let mut st = base.0.borrow_mut();
            *br.0.borrow_mut() = std::mem::take(&mut *st);
        }
        v.rng_base = base;
        self.views.push(v);
        if s.register {
            let hf = if k.att == 0 { s.hf.clone() } else { None };
            let r = self.do_register(cx, s.client as usize, &s.user.0, &s.pw.0, s.strong, s.api, &s.reg_p, &hf, mix(&[99, k.sess as u64, k.att as u64]));
            self.eps.insert(k, (vi, Ep::C(CSt::Reg)));
            return match r {
                Ok((b, _)) => Step::go(vec![b]),
                Err(e) => {
                    self.views[vi].hash_fault = true;
                    self.fail_lib(cx, vi, e)
                }
            };
        }
        let (c, _) = self.clients[s.client as usize].as_mut().unwrap();
        match &s.ssid {
            Some((pre, _)) => match c.begin_prestablished_ssid(&pre.0) {
                Ok(aug) => {
                    self.ssid_verdict(cx, "client", &pre.0, None);
                    self.views[vi].ssid = Some(pre.0.clone());
                    let (st, out) = self.client_aug(cx, vi, s, aug);
                    self.eps.insert(k, (vi, Ep::C(st)));
                    Step::go(vec![out])
                }
                Err(e) => {
                    self.ssid_verdict(cx, "client", &pre.0, Some(e));
                    self.eps.insert(k, (vi, Ep::C(CSt::End)));
                    self.fail_lib(cx, vi, e)
                }
            },
            None => {
                let (st, m) = c.begin();
                let out = Self::cmsg(&mut self.views[vi], s.codec, &m);
                self.eps.insert(k, (vi, Ep::C(CSt::Ssid(st))));
                Step::go(vec![out])
            }
        }
    }

    fn ssid_verdict(&self, cx: &mut Cx, who: &str, pre: &[u8], e: Option<Error>) {
        if pre.len() < 16 {
            cx.rep.count("short_ssid_presented");
        }
        match (pre.len() < 16, e) {
            (true, Some(Error::InsecureSsid)) | (false, None) => {}
            (true, None) => cx.rep.viol(&["A10"], "short-ssid-accepted", format!("{who} accepted a pre-established SSID of {} bytes", pre.len())),
            (true, Some(e)) => cx.rep.viol(&["A10"], "short-ssid-wrong-error", format!("{who} refused a {}-byte SSID with {e:?}", pre.len())),
            (false, Some(e)) => cx.rep.viol(&["A10", "A01"], "long-ssid-refused", format!("{who} refused an SSID of {} bytes with {e:?}", pre.len())),
        }
    }

    fn client_aug(&mut self, cx: &mut Cx, vi: usize, s: &'p Sess, aug: ac::AuCPaceClientPreAug<SimD, K::H, K1>) -> (CSt<'p, K, K1>, Vec<u8>) {
        if s.strong {
            let mut r = self.views[vi].rng.clone();
            let (st, m) = aug.start_augmentation_strong(&s.user.0, &s.pw.0, &mut r);
            if let ClientMessage::StrongUsername { username, blinded } = &m {
                if blinded.is_identity() {
                    cx.rep.viol(&["A04"], "neutral-blinded-sent", "the strong client sent a neutral blinded point");
                }
                if *username != &s.user.0[..] {
                    cx.rep.viol(&["A12", "A01"], "wrong-username-sent", "the client sent another username");
                }
            } else {
                cx.rep.viol(&["A12", "A01"], "wrong-message", "strong augmentation started with another message");
            }
            let out = Self::cmsg(&mut self.views[vi], s.codec, &m);
            (CSt::AugS(st), out)
        } else {
            let (st, m) = aug.start_augmentation(&s.user.0, &s.pw.0);
            if let ClientMessage::Username(u) = &m {
                if *u != &s.user.0[..] {
                    cx.rep.viol(&["A12", "A01"], "wrong-username-sent", "the client sent another username");
                }
            } else {
                cx.rep.viol(&["A12", "A01"], "wrong-message", "augmentation started with another message");
            }
            let out = Self::cmsg(&mut self.views[vi], s.codec, &m);
            (CSt::Aug(st), out)
        }
    }

    fn open_server(&mut self, cx: &mut Cx, k: Key) -> Step {
        let s = self.sess(&k);
        let mut v = self.new_view(k, false, s.sk);
        v.t_open = cx.now;
        v.rng = self.rng_for(&k, "ep");
        let vi = self.views.len();
        let si = (s.server - self.plan.clients) as usize;
        if s.sk == 2 {
            self.views.push(v);
            self.eps.insert(k, (vi, Ep::Play));
            let outs = recorded(cx, s.replay_of, false);
            if outs.is_empty() {
                return Step::fail();
            }
            cx.rep.count("fault_session_replayed");
            return Step::go(outs);
        }
        if s.sk == 1 {
            self.views.push(v);
            let mut st = RefSt { rng: Some(Prng::keyed(&[self.plan.seed, self.plan.salt, tag("refs"), k.sess as u64, k.att as u64, k.epoch as u64])), ..Default::default() };
            let mut outs = vec![];
            if s.register {
                st.phase = 9;
            } else {
                match &s.ssid {
                    Some((_, p)) => {
                        if p.0.len() < 16 {
                            self.eps.insert(k, (vi, Ep::RS(st)));
                            return self.fail_app(cx, vi, "reference refuses short ssid");
                        }
                        st.ssid = rf::hn(0, &[&p.0]);
                        self.views[vi].ssid = Some(p.0.clone());
                        st.phase = 1;
                    }
                    None => {
                        st.nonce = st.rng.as_mut().unwrap().bytes(K1);
                        let m: ServerMessage<'_, K1> = ServerMessage::Nonce(st.nonce.clone().try_into().unwrap());
                        outs.push(Self::smsg(&mut self.views[vi], s.codec, &m));
                    }
                }
            }
            self.eps.insert(k, (vi, Ep::RS(st)));
            return Step::go(outs);
        }
        let base = self.rng_for(&k, "base");
        if self.servers[si].is_none() {
            let inc = self.incs[si];
            let x = self.mk_server(si as u32, inc);
            self.servers[si] = Some(x);
        }
        let (srv, br, inc) = self.servers[si].as_mut().unwrap();
        {
            let mut st = base.0.borrow_mut();
            *br.0.borrow_mut() = std::mem::take(&mut *st);
        }
        v.incarnation = *inc;
        v.rng_base = base;
        let mut outs = vec![];
        let st = if s.register {
            SSt::Reg
        } else {
            match &s.ssid {
                Some((_, pre)) => match srv.begin_prestablished_ssid(&pre.0) {
                    Ok(a) => {
                        v.ssid = Some(pre.0.clone());
                        self.ssid_verdict(cx, "server", &pre.0, None);
                        SSt::Aug(a)
                    }
                    Err(e) => {
                        self.views.push(v);
                        self.ssid_verdict(cx, "server", &pre.0, Some(e));
                        self.eps.insert(k, (vi, Ep::S(SSt::End)));
                        return self.fail_lib(cx, vi, e);
                    }
                },
                None => {
                    let (a, m) = srv.begin();
                    outs.push(Self::smsg(&mut v, s.codec, &m));
                    SSt::Ssid(a)
                }
            }
        };
        self.views.push(v);
        self.eps.insert(k, (vi, Ep::S(st)));
        Step::go(outs)
    }

    fn client_recv(&mut self, cx: &mut Cx, k: Key, vi: usize, st: CSt<'p, K, K1>, idx: u32, payload: &[u8]) -> (CSt<'p, K, K1>, Step) {
        let s = self.sess(&k);
        if let CSt::Reg = st {
            return if payload == b"stored" { (CSt::End, Step::done(vec![])) } else { (CSt::End, self.fail_app(cx, vi, "registration refused")) };
        }
        let msg: Result<ServerMessage<'_, K1>, String> = dec(s.codec, payload);
        let from = Key { init: false, epoch: 0, ..k };
        let was_bad = self.bad_points.iter().any(|(bk, bi)| bk.sess == from.sess && bk.att == from.att && !bk.init && *bi == idx);
        let msg = match msg {
            Err(_) => {
                cx.rep.count("undecodable_message_rejected");
                return (CSt::End, self.fail_app(cx, vi, "undecodable"));
            }
            Ok(m) => m,
        };
        if was_bad {
            cx.rep.viol(&["A04", "A09"], "noncanonical-accepted", "a message with a non-canonical point encoding was decoded by the client");
        }
        match (st, msg) {
            (CSt::Ssid(a), ServerMessage::Nonce(n)) => {
                self.views[vi].ssid = Some([&n[..], &self.views[vi].nonce].concat());
                let aug = a.agree_ssid(n);
                let (st, out) = self.client_aug(cx, vi, s, aug);
                (st, Step::go(vec![out]))
            }
            (CSt::Aug(a), ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params }) => {
                if group != "ristretto255" {
                    return (CSt::End, self.fail_app(cx, vi, "unknown group"));
                }
                let v = &mut self.views[vi];
                v.x = Some(cp(&x_pub));
                v.salt = Some(salt.as_str().to_string());
                v.params = Some(pbkdf_params.as_str().to_string());
                let hf = if k.att == 0 && K::FAULTS { s.hf.clone() } else { None };
                let params = K::parse(&pbkdf_params);
                let hasher = K::hasher(&hf);
                let len_bad = K::FAULTS && !matches!(K::canon(pbkdf_params.as_str()).rsplit('/').next().and_then(|x| x.parse::<u32>().ok()), Some(32 | 64));
                let mut allowed = self.cpace_errors(s, x_pub.is_identity(), &hf, len_bad);
                if !K::FAULTS {
                    // scrypt refuses a (changed) salt that is not Base64
                    if let Err(e) = salt.as_salt().decode_b64(&mut [0u8; 64]) {
                        allowed.push(Error::PasswordHashing(e));
                    }
                }
                if !allowed.is_empty() {
                    self.views[vi].hash_fault = true;
                }
                let res = match s.api {
                    0 => a.generate_cpace_alloc(x_pub, &salt, params, hasher),
                    n => with_buf!(n, N => a.generate_cpace::<&SaltString, N>(x_pub, &salt, params, hasher)),
                };
                self.judge_result(cx, "client-generate-cpace", &allowed, res.as_ref().err().copied(), &["A07"], &["A01", "A07"]);
                self.client_after_aug(cx, vi, s, res)
            }
            (CSt::AugS(a), ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params }) => {
                if group != "ristretto255" {
                    return (CSt::End, self.fail_app(cx, vi, "unknown group"));
                }
                let v = &mut self.views[vi];
                v.x = Some(cp(&x_pub));
                v.bsalt = Some(cp(&blinded_salt));
                v.params = Some(pbkdf_params.as_str().to_string());
                let hf = if k.att == 0 && K::FAULTS { s.hf.clone() } else { None };
                let params = K::parse(&pbkdf_params);
                let hasher = K::hasher(&hf);
                let len_bad = K::FAULTS && !matches!(K::canon(pbkdf_params.as_str()).rsplit('/').next().and_then(|x| x.parse::<u32>().ok()), Some(32 | 64));
                let allowed = self.cpace_errors(s, x_pub.is_identity() || blinded_salt.is_identity(), &hf, len_bad);
                if !allowed.is_empty() {
                    self.views[vi].hash_fault = true;
                }
                let res = match s.api {
                    0 => a.generate_cpace_alloc(x_pub, blinded_salt, params, hasher),
                    n => with_buf!(n, N => a.generate_cpace::<N>(x_pub, blinded_salt, params, hasher)),
                };
                self.judge_result(cx, "strong-client-generate-cpace", &allowed, res.as_ref().err().copied(), &["A07"], &["A01", "A07"]);
                self.client_after_aug(cx, vi, s, res)
            }
            (CSt::Recv(a), ServerMessage::PublicKey(y)) => {
                self.views[vi].y_recv = Some(cp(&y));
                let allowed = if y.is_identity() { vec![Error::IllegalPointError] } else { vec![] };
                if s.explicit {
                    let res = a.receive_server_pubkey(y);
                    self.judge_result(cx, "client-receive-pubkey", &allowed, res.as_ref().err().copied(), &[], &["A01"]);
                    match res {
                        Ok((e, m)) => {
                            let out = Self::cmsg(&mut self.views[vi], s.codec, &m);
                            (CSt::Exp(e), Step::go(vec![out]))
                        }
                        Err(e) => (CSt::End, self.fail_lib(cx, vi, e)),
                    }
                } else {
                    let res = a.implicit_auth(y);
                    self.judge_result(cx, "client-implicit-auth", &allowed, res.as_ref().err().copied(), &[], &["A01"]);
                    match res {
                        Ok(key) => {
                            self.got_key(cx, vi, &key);
                            (CSt::End, Step::done(vec![]))
                        }
                        Err(e) => (CSt::End, self.fail_lib(cx, vi, e)),
                    }
                }
            }
            (CSt::Exp(a), ServerMessage::Authenticator(t)) => {
                self.views[vi].auth_recv = Some(t);
                match a.receive_server_authenticator(t) {
                    Ok(key) => {
                        self.got_key(cx, vi, &key);
                        (CSt::End, Step::done(vec![]))
                    }
                    Err(e) => {
                        if e != Error::MutualAuthFail {
                            cx.rep.viol(&["A02"], "auth-wrong-error", format!("a wrong server authenticator was reported as {e:?}"));
                        }
                        (CSt::End, self.fail_lib(cx, vi, e))
                    }
                }
            }
            _ => (CSt::End, self.fail_app(cx, vi, "unexpected message")),
        }
    }

    fn cpace_errors(&self, s: &Sess, ident: bool, hf: &Option<HFault>, len_bad: bool) -> Vec<Error> {
        let mut allowed = vec![];
        if ident {
            allowed.push(Error::IllegalPointError);
        }
        if let Some(n) = buf_len(s.api) {
            if s.user.0.len() + s.pw.0.len() + 1 > n {
                allowed.push(Error::UsernameOrPasswordTooLong);
            }
        }
        allowed.extend(hash_errors(hf, len_bad, false));
        allowed
    }

    fn client_after_aug(&mut self, cx: &mut Cx, vi: usize, s: &'p Sess, res: Result<ac::AuCPaceClientCPaceSubstep<SimD, K1>, Error>) -> (CSt<'p, K, K1>, Step) {
        match res {
            Ok(c) => {
                let mut r = self.views[vi].rng.clone();
                let (n, m) = c.generate_public_key(&s.ci_c.0, &mut r);
                let out = Self::cmsg(&mut self.views[vi], s.codec, &m);
                (CSt::Recv(n), Step::go(vec![out]))
            }
            Err(e) => (CSt::End, self.fail_lib(cx, vi, e)),
        }
    }

    fn server_recv(&mut self, cx: &mut Cx, k: Key, vi: usize, st: SSt<K1>, idx: u32, payload: &[u8]) -> (SSt<K1>, Step) {
        let s = self.sess(&k);
        let codec = if s.register { 0 } else { s.codec };
        let msg: Result<ClientMessage<'_, K1>, String> = dec(codec, payload);
        let was_bad = self.bad_points.iter().any(|(bk, bi)| bk.sess == k.sess && bk.att == k.att && bk.init && *bi == idx);
        let msg = match msg {
            Err(_) => {
                cx.rep.count("undecodable_message_rejected");
                return (SSt::End, self.fail_app(cx, vi, "undecodable"));
            }
            Ok(m) => m,
        };
        if was_bad {
            cx.rep.viol(&["A04", "A09"], "noncanonical-accepted", "a message with a non-canonical point encoding was decoded by the server");
        }
        match (st, msg) {
            (SSt::Reg, m) => {
                let rec = match m {
                    ClientMessage::Registration { username, salt, params, verifier } => {
                        Record { user: username.to_vec(), strong: false, verifier, salt: Some(salt), q: None, params, made_user: s.user.0.clone(), made_pw: s.pw.0.clone(), gone: false }
                    }
                    ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
                        Record { user: username.to_vec(), strong: true, verifier, salt: None, q: Some(secret_exponent), params, made_user: s.user.0.clone(), made_pw: s.pw.0.clone(), gone: false }
                    }
                    _ => return (SSt::End, self.fail_app(cx, vi, "unexpected message")),
                };
                if s.partial && !self.store.borrow().keys.contains_key(&rec.user) {
                    let name = rec.user.clone();
                    self.store_key(cx, &name, 1000 + k.sess as usize, k.att as u64);
                }
                self.conc_reg.insert(rec.user.clone());
                self.store.borrow_mut().put(rec);
                cx.rep.count("registered_over_wire");
                (SSt::End, Step::done(vec![b"stored".to_vec()]))
            }
            (SSt::Ssid(a), ClientMessage::Nonce(t)) => {
                self.views[vi].ssid = Some([&self.views[vi].nonce[..], &t].concat());
                (SSt::Aug(a.agree_ssid(t)), Step::go(vec![]))
            }
            (SSt::Aug(a), ClientMessage::Username(u)) if !s.strong => {
                self.views[vi].user = u.to_vec();
                let rng = self.views[vi].rng.clone();
                let fired: RefCell<Vec<usize>> = RefCell::new(vec![]);
                let (res, log) = {
                    let hook = |n: u32| self.lookup_hook(&k, n, &fired);
                    let db = DbView { store: &self.store, log: RefCell::default(), faults: &s.lk, att: k.att, hook: &hook };
                    let res = if s.partial { a.generate_client_info_partial_aug(u, &db, rng) } else { a.generate_client_info(u, &db, rng) };
                    (res, db.log.into_inner())
                };
                self.after_lookup(cx, fired);
                let (c, m) = res;
                let mut outs = vec![Self::smsg(&mut self.views[vi], s.codec, &m)];
                self.check_reply(cx, vi, &m, &log, None);
                let st = if s.late {
                    SSt::Late(c)
                } else {
                    let (n, m) = c.generate_public_key(&s.ci_s.0);
                    outs.push(Self::smsg(&mut self.views[vi], s.codec, &m));
                    SSt::Recv(n)
                };
                (st, Step::go(outs))
            }
            (SSt::Aug(a), ClientMessage::StrongUsername { username, blinded }) if s.strong => {
                self.views[vi].user = username.to_vec();
                self.views[vi].blinded = Some(cp(&blinded));
                let rng = self.views[vi].rng.clone();
                let fired: RefCell<Vec<usize>> = RefCell::new(vec![]);
                let (res, log) = {
                    let hook = |n: u32| self.lookup_hook(&k, n, &fired);
                    let db = DbView { store: &self.store, log: RefCell::default(), faults: &s.lk, att: k.att, hook: &hook };
                    let res = if s.partial { a.generate_client_info_partial_strong(username, blinded, &db, rng) } else { a.generate_client_info_strong(username, blinded, &db, rng) };
                    (res, db.log.into_inner())
                };
                self.after_lookup(cx, fired);
                let ident = blinded.is_identity() || self.eff_rec(&log, s.partial).is_some_and(|r| self.store.borrow().recs[r].q == Some(Scalar::ZERO));
                let allowed = if ident { vec![Error::IllegalPointError] } else { vec![] };
                self.judge_result(cx, "server-strong-reply", &allowed, res.as_ref().err().copied(), &[], &["A01", "A06", "A08"]);
                match res {
                    Err(e) => (SSt::End, self.fail_lib(cx, vi, e)),
                    Ok((c, m)) => {
                        let mut outs = vec![Self::smsg(&mut self.views[vi], s.codec, &m)];
                        self.check_reply(cx, vi, &m, &log, Some(blinded));
                        let st = if s.late {
                            SSt::Late(c)
                        } else {
                            let (n, m) = c.generate_public_key(&s.ci_s.0);
                            outs.push(Self::smsg(&mut self.views[vi], s.codec, &m));
                            SSt::Recv(n)
                        };
                        (st, Step::go(outs))
                    }
                }
            }
            (SSt::Late(c), ClientMessage::PublicKey(y)) => {
                let (n, m) = c.generate_public_key(&s.ci_s.0);
                let out = Self::smsg(&mut self.views[vi], s.codec, &m);
                self.server_pub(cx, vi, s, n, y, vec![out])
            }
            (SSt::Recv(n), ClientMessage::PublicKey(y)) => self.server_pub(cx, vi, s, n, y, vec![]),
            (SSt::Exp(e), ClientMessage::Authenticator(t)) => {
                self.views[vi].auth_recv = Some(t);
                match e.receive_client_authenticator(t) {
                    Ok((key, m)) => {
                        self.got_key(cx, vi, &key);
                        let out = Self::smsg(&mut self.views[vi], s.codec, &m);
                        (SSt::End, Step::done(vec![out]))
                    }
                    Err(e) => {
                        if e != Error::MutualAuthFail {
                            cx.rep.viol(&["A02"], "auth-wrong-error", format!("a wrong client authenticator was reported as {e:?}"));
                        }
                        (SSt::End, self.fail_lib(cx, vi, e))
                    }
                }
            }
            _ => (SSt::End, self.fail_app(cx, vi, "unexpected message")),
        }
    }

    fn server_pub(&mut self, cx: &mut Cx, vi: usize, s: &'p Sess, n: asv::AuCPaceServerRecvClientKey<SimD, K1>, y: RistrettoPoint, outs: Vec<Vec<u8>>) -> (SSt<K1>, Step) {
        self.views[vi].y_recv = Some(cp(&y));
        let allowed = if y.is_identity() { vec![Error::IllegalPointError] } else { vec![] };
        if s.explicit {
            let res = n.receive_client_pubkey(y);
            self.judge_result(cx, "server-receive-pubkey", &allowed, res.as_ref().err().copied(), &[], &["A01"]);
            match res {
                Ok(e) => (SSt::Exp(e), Step::go(outs)),
                Err(e) => (SSt::End, self.fail_lib(cx, vi, e)),
            }
        } else {
            let res = n.implicit_auth(y);
            self.judge_result(cx, "server-implicit-auth", &allowed, res.as_ref().err().copied(), &[], &["A01"]);
            match res {
                Ok(key) => {
                    self.got_key(cx, vi, &key);
                    (SSt::End, Step::done(outs))
                }
                Err(e) => (SSt::End, self.fail_lib(cx, vi, e)),
            }
        }
    }

    /// Operations that race with a lookup run inside it.
    fn lookup_hook(&self, k: &Key, n: u32, fired: &RefCell<Vec<usize>>) -> u32 {
        let mut c = 0;
        for (i, op) in self.plan.ops.iter().enumerate() {
            if op.on == Some((k.sess, k.att, n)) && !self.op_done.borrow()[i] && !fired.borrow().contains(&i) {
                // effects that need no library call happen here; the rest is prepared versions
                fired.borrow_mut().push(i);
                self.race_effect(i);
                c += 1;
            }
        }
        c
    }

    /// The store is changed in the middle of the server's lookups: activate the prepared version.
    fn race_effect(&self, i: usize) {
        let op = &self.plan.ops[i];
        let Some(u) = self.plan.users.get(op.user as usize) else { return };
        let name = &u.name.0;
        let mut s = self.store.borrow_mut();
        let ids: Vec<usize> = (0..s.recs.len()).filter(|r| s.recs[*r].user == [b"\0prep", &(i as u32).to_le_bytes()[..], name].concat()).collect();
        match op.kind {
            OpKind::Delete => {
                let ids: Vec<usize> = s.plain.get(name).into_iter().flatten().chain(s.strong.get(name).into_iter().flatten()).copied().collect();
                for id in ids {
                    s.recs[id].gone = true;
                }
            }
            OpKind::TearKey(private) => {
                let pk = [b"\0prep", &(i as u32).to_le_bytes()[..], name].concat();
                tear(&mut s, name, &pk, private);
            }
            OpKind::RotateKey => {
                let pk = [b"\0prep", &(i as u32).to_le_bytes()[..], name].concat();
                if let Some(v) = s.keys.get(&pk).cloned() {
                    s.keys.entry(name.clone()).or_default().extend(v);
                }
            }
            _ => {
                for id in ids {
                    let strong = s.recs[id].strong;
                    s.recs[id].user = name.clone();
                    let m = if strong { &mut s.strong } else { &mut s.plain };
                    m.entry(name.clone()).or_default().push(id);
                }
            }
        }
    }

    /// Records for racing operations are computed before the run starts.
    fn prepare_races(&mut self, cx: &mut Cx) {
        for (i, op) in self.plan.ops.iter().enumerate() {
            if op.on.is_none() {
                continue;
            }
            let Some(u) = self.plan.users.get(op.user as usize) else { continue };
            let pn = [b"\0prep", &(i as u32).to_le_bytes()[..], &u.name.0].concat();
            let pw = match &op.kind {
                OpKind::ChangePw(p) => p.0.clone(),
                OpKind::Rehash | OpKind::Restore => u.pw.0.clone(),
                OpKind::RotateKey | OpKind::TearKey(_) => {
                    self.store_key(cx, &pn, op.user as usize, 500 + i as u64);
                    continue;
                }
                OpKind::Delete => continue,
            };
            for strong in [false, true] {
                if (strong && !u.strong) || (!strong && !u.plain) {
                    continue;
                }
                if let Ok((_, mut rec)) = self.do_register(cx, 0, &u.name.0, &pw, strong, 0, &u.p, &None, mix(&[7, i as u64, strong as u64])) {
                    rec.user = pn.clone();
                    self.store.borrow_mut().recs.push(rec);
                }
            }
        }
    }

    fn after_lookup(&mut self, cx: &mut Cx, fired: RefCell<Vec<usize>>) {
        for i in fired.into_inner() {
            self.op_done.borrow_mut()[i] = true;
            cx.rep.count("op_raced_with_lookup");
            if let Some(u) = self.plan.users.get(self.plan.ops[i].user as usize) {
                self.op_users.insert(u.name.0.clone());
            }
        }
    }

    /// The record the server acted on, if any (a missing key pair makes the user unknown).
    fn eff_rec(&self, log: &LookLog, partial: bool) -> Option<usize> {
        if partial && log.keys.last().is_none_or(|k| k.is_none()) {
            return None;
        }
        *log.recs.last()?
    }

    fn check_reply(&mut self, cx: &mut Cx, vi: usize, m: &ServerMessage<'_, K1>, log: &LookLog, blinded: Option<RistrettoPoint>) {
        let partial = self.views[vi].partial;
        let strong = self.views[vi].strong;
        if log.faulted > 0 {
            cx.rep.add("fault_lookup_lost", log.faulted as u64);
            self.views[vi].lk_fault = true;
        }
        if log.stale > 0 {
            cx.rep.add("fault_stale_read", log.stale as u64);
            self.views[vi].lk_fault = true;
        }
        // any consistent single record that was returned is acceptable
        let (x_pub, params, group) = match m {
            ServerMessage::AugmentationInfo { group, x_pub, pbkdf_params, .. } if !strong => (*x_pub, pbkdf_params.clone(), *group),
            ServerMessage::StrongAugmentationInfo { group, x_pub, pbkdf_params, .. } if strong => (*x_pub, pbkdf_params.clone(), *group),
            _ => {
                cx.rep.viol(&["A06", "A08", "A12", "A01"], "reply-kind", "the server answered with another kind of message");
                return;
            }
        };
        if group != "ristretto255" {
            cx.rep.viol(&["A06", "A12"], "reply-group", format!("group {group:?}"));
        }
        let v = &self.views[vi];
        if x_pub.is_identity() && !v.glitch {
            cx.rep.viol(&["A04", "A06"], "reply-neutral-x", "the server sent a neutral ephemeral key");
        }
        let key_found = log.keys.iter().any(|k| k.is_some());
        let rec_found = log.recs.iter().any(|r| r.is_some());
        let known = rec_found && (!partial || key_found);
        let mut ok = None;
        if known {
            for r in log.recs.iter().flatten() {
                let rec = self.store.borrow().recs[*r].clone();
                let salt_ok = match m {
                    ServerMessage::AugmentationInfo { salt, .. } => rec.salt.as_ref().map(|s| s.as_str()) == Some(salt.as_str()),
                    ServerMessage::StrongAugmentationInfo { blinded_salt, .. } => rec.q.map(|q| blinded.unwrap() * q) == Some(*blinded_salt),
                    _ => false,
                };
                if salt_ok && rec.params.as_str() == params.as_str() {
                    ok = Some(*r);
                }
            }
        }
        // a server that looks more than once may act on the lookup that found nothing
        let vanished = log.recs.iter().any(|r| r.is_none()) || (partial && log.keys.iter().any(|k| k.is_none()));
        if known && (ok.is_some() || !vanished) {
            if ok.is_none() {
                cx.rep.viol(&["A08", "A01", "A12"], "reply-not-from-record", format!("the reply for x:{} does not carry the salt/exponent and parameters of any record returned to the server", hex(&v.user)));
            }
            if partial && !log.keys.iter().flatten().any(|k| k.1 == x_pub) {
                cx.rep.viol(&["A08", "A12"], "reply-not-stored-key", "the advertised long-term public key is not the stored one");
            }
            let vm = &mut self.views[vi];
            vm.rec = ok;
            vm.torn = partial && log.keys.iter().flatten().any(|k| k.1 == x_pub && rf::base(&k.0) != k.1);
        } else {
            let user = v.user.clone();
            let (node, inc, probe) = (v.node, v.incarnation, self.plan.sess[v.key.sess as usize].probe);
            let probing = self.plan.sess[v.key.sess as usize].ck == 3;
            let recognised = self.store.borrow().recs.iter().any(|r| r.user == user && !r.gone);
            cx.rep.count("unknown_user_answered");
            let (salt, qb) = match m {
                ServerMessage::AugmentationInfo { salt, .. } => (Some(salt.as_str().to_string()), None),
                ServerMessage::StrongAugmentationInfo { blinded_salt, .. } => {
                    // divide out a known blinding (probe clients send blinding * B)
                    let qb = if probing && probe > 0 && blinded == Some(rf::base(&Scalar::from(probe))) {
                        cx.rep.count("probe_reply");
                        Some(cp(&(*blinded_salt * Scalar::from(probe).invert())))
                    } else {
                        None
                    };
                    (None, qb)
                }
                _ => (None, None),
            };
            if let (Some(b), ServerMessage::StrongAugmentationInfo { blinded_salt, .. }) = (blinded, m) {
                if *blinded_salt == b || *blinded_salt == -b {
                    cx.rep.viol(&["A06"], "fake-exponent-trivial", "the reply for an unknown user echoes the blinded point");
                }
            }
            if let Some(s) = &salt {
                let reg = self.store.borrow().recs.iter().filter_map(|r| r.salt.as_ref().map(|s| s.as_str().len())).next();
                if let Some(n) = reg {
                    if n != s.len() && self.plan.users.iter().all(|u| u.salt_len == 0) {
                        cx.rep.viol(&["A06"], "fake-salt-length", format!("salt of an unknown user has {} characters, of registered users {n}", s.len()));
                    }
                }
                let raw = unb64(s).unwrap_or_default();
                let distinct: BTreeSet<u8> = raw.iter().copied().collect();
                if raw.len() < 16 || distinct.len() < 6 {
                    cx.rep.viol(&["A06"], "fake-salt-degenerate", format!("salt {s} of an unknown user is recognisably artificial"));
                }
                if user.len() >= 5 && (reveals(&raw, &user).is_some() || reveals(s.as_bytes(), &user).is_some()) {
                    cx.rep.viol(&["A06"], "fake-salt-contains-name", "salt of an unknown user contains the name");
                }
                if self.store.borrow().recs.iter().any(|r| r.salt.as_ref().is_some_and(|x| x.as_str() == s)) {
                    cx.rep.viol(&["A06"], "fake-salt-of-registered", "an unknown user got the salt of a registered one");
                }
            }
            if params.as_str().is_empty() {
                cx.rep.find("A06", "unknown-user-params", "the augmentation message for an unknown user carries an empty parameter string, while every registered user's carries the hashing parameters: one query tells whether a user exists");
            }
            if !params.as_str().is_empty() {
                let names = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.split('=').next().unwrap_or("").to_string()).collect::<BTreeSet<_>>();
                let got = names(params.as_str());
                let st = self.store.borrow();
                let mut regs = st.recs.iter().filter(|r| !r.params.as_str().is_empty()).peekable();
                if regs.peek().is_some() && !regs.any(|r| names(r.params.as_str()) == got) {
                    cx.rep.viol(&["A06"], "fake-params-implausible", format!("an unknown user's reply carries parameters {} unlike those of any registered user", params.as_str()));
                }
            }
            let looked: BTreeSet<[u8; 32]> = log.keys.iter().flatten().map(|k| cp(&k.1)).collect();
            let stored_key = if partial { looked.first().copied() } else { None };
            let stored_many = looked.len() > 1 || (stored_key.is_some() && log.keys.iter().any(|k| k.is_none()));
            let f = Fake { node, inc, strong, partial, name: user.clone(), salt, x: cp(&x_pub), stored_key, stored_many, qb, params: params.as_str().to_string() };
            // a failed lookup of an existing key pair (fault) shows the fake path for a real user
            let lost = log.faulted > 0;
            if !recognised && !lost {
                for o in &self.fakes {
                    if o.strong != f.strong {
                        continue;
                    }
                    let same = o.node == f.node && o.inc == f.inc && o.name == f.name;
                    if same {
                        cx.rep.count("repeated_unknown_query");
                        if o.salt != f.salt {
                            cx.rep.viol(&["A06"], "fake-salt-inconsistent", format!("two queries for the unknown user x:{} got different salts", hex(&f.name)));
                        }
                        if o.partial && f.partial && o.stored_key == f.stored_key && !o.stored_many && !f.stored_many && o.x != f.x && !self.views[vi].glitch {
                            cx.rep.viol(&["A06"], "fake-longterm-key-inconsistent", format!("two partially augmented queries for the unknown user x:{} got different long-term public keys", hex(&f.name)));
                        }
                        if o.params != f.params {
                            cx.rep.viol(&["A06"], "fake-params-inconsistent", "two queries for the same unknown user got different parameters");
                        }
                        if let (Some(a), Some(b)) = (&o.qb, &f.qb) {
                            if a != b {
                                cx.rep.viol(&["A06"], "fake-exponent-inconsistent", "two strong queries for the same unknown user were answered with different exponents");
                            }
                        }
                        if !(o.partial && f.partial) && o.x == f.x {
                            cx.rep.viol(&["A06", "A05"], "fake-ephemeral-repeats", "the ephemeral key of an unknown user repeats");
                        }
                    } else if o.name != f.name || o.node != f.node {
                        // different names or different servers: unrelated values
                        if o.salt.is_some() && related(o.salt.as_deref().unwrap_or(""), f.salt.as_deref().unwrap_or("")) {
                            cx.rep.viol(&["A06"], "fake-salt-related", format!("salts for unknown users x:{} and x:{} (servers {}, {}) are related", hex(&o.name), hex(&f.name), o.node, f.node));
                        }
                        if o.x == f.x && o.stored_key.is_none() && f.stored_key.is_none() {
                            cx.rep.viol(&["A06"], "fake-key-shared", format!("the same public key was advertised for x:{} and x:{} (servers {}, {})", hex(&o.name), hex(&f.name), o.node, f.node));
                        }
                        if o.qb.is_some() && o.qb == f.qb {
                            cx.rep.viol(&["A06"], "fake-exponent-shared", format!("the same exponent answers for x:{} and x:{} (servers {}, {})", hex(&o.name), hex(&f.name), o.node, f.node));
                        }
                    }
                }
                self.fakes.push(f);
            }
            self.views[vi].unknown = true;
        }
    }

    // ------------------------------------------------------------------ independent peers

    fn refc_username(&mut self, vi: usize, s: &Sess, st: &mut RefSt) -> Vec<u8> {
        st.phase = 1;
        let m: ClientMessage<'_, K1> = if s.strong {
            st.r = if s.ck == 3 { Scalar::from(s.probe.max(1)) } else { ref_scalar(st) };
            let z = if s.ck == 3 { rf::base(&Scalar::ONE) } else { rf::z_point(&s.user.0, &s.pw.0) };
            ClientMessage::StrongUsername { username: &s.user.0, blinded: z * st.r }
        } else {
            ClientMessage::Username(&s.user.0)
        };
        Self::cmsg(&mut self.views[vi], s.codec, &m)
    }

    fn refc_recv(&mut self, cx: &mut Cx, k: Key, vi: usize, st: &mut RefSt, payload: &[u8]) -> Step {
        let s = self.sess(&k);
        let Ok(msg) = dec::<ServerMessage<'_, K1>>(s.codec, payload) else {
            return self.fail_app(cx, vi, "undecodable");
        };
        match (st.phase, msg) {
            (0, ServerMessage::Nonce(n)) => {
                st.ssid = rf::hn(0, &[&n, &st.nonce]);
                self.views[vi].ssid = Some([&n[..], &st.nonce].concat());
                let out = self.refc_username(vi, s, st);
                Step::go(vec![out])
            }
            (1, ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, group }) if !s.strong => {
                let v = &mut self.views[vi];
                v.x = Some(cp(&x_pub));
                v.salt = Some(salt.as_str().into());
                v.params = Some(pbkdf_params.as_str().into());
                if group != "ristretto255" || x_pub.is_identity() {
                    return self.fail_app(cx, vi, "reference refuses point or group");
                }
                self.refc_cpace(cx, vi, s, st, &x_pub, salt.as_str(), pbkdf_params.as_str())
            }
            (1, ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, pbkdf_params, group }) if s.strong => {
                let v = &mut self.views[vi];
                v.x = Some(cp(&x_pub));
                v.bsalt = Some(cp(&blinded_salt));
                v.params = Some(pbkdf_params.as_str().into());
                if group != "ristretto255" || x_pub.is_identity() || blinded_salt.is_identity() {
                    return self.fail_app(cx, vi, "reference refuses point or group");
                }
                let salt = b64(&cp(&(blinded_salt * st.r.invert())));
                self.refc_cpace(cx, vi, s, st, &x_pub, &salt, pbkdf_params.as_str())
            }
            (2, ServerMessage::PublicKey(y)) => {
                self.views[vi].y_recv = Some(cp(&y));
                if y.is_identity() {
                    return self.fail_app(cx, vi, "reference refuses neutral key");
                }
                let ks = rf::keys(&st.ssid, &st.y, &y);
                if s.explicit {
                    st.phase = 3;
                    let m: ClientMessage<'_, K1> = ClientMessage::Authenticator(ks.tb);
                    let out = Self::cmsg(&mut self.views[vi], s.codec, &m);
                    st.keys = Some(ks);
                    Step::go(vec![out])
                } else {
                    self.got_key(cx, vi, &ks.sk);
                    Step::done(vec![])
                }
            }
            (3, ServerMessage::Authenticator(t)) => {
                self.views[vi].auth_recv = Some(t);
                let ks = st.keys.as_ref().unwrap();
                if t == ks.ta {
                    let sk = ks.sk;
                    self.got_key(cx, vi, &sk);
                    Step::done(vec![])
                } else {
                    self.fail_lib(cx, vi, Error::MutualAuthFail)
                }
            }
            _ => self.fail_app(cx, vi, "unexpected message"),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn refc_cpace(&mut self, cx: &mut Cx, vi: usize, s: &Sess, st: &mut RefSt, x: &RistrettoPoint, salt: &str, params: &str) -> Step {
        let h = K::ref_hash(&rf::cred_string(&s.user.0, &s.pw.0), salt, params);
        let Some(w) = rf::w_scalar(&h) else { return self.fail_app(cx, vi, "reference: hash size") };
        st.prs = cp(&(x * w));
        st.y = ref_scalar(st);
        let g = rf::generator(&st.ssid, &st.prs, &s.ci_c.0);
        let m: ClientMessage<'_, K1> = ClientMessage::PublicKey(g * st.y);
        let out = Self::cmsg(&mut self.views[vi], s.codec, &m);
        st.phase = 2;
        Step::go(vec![out])
    }

    fn refs_recv(&mut self, cx: &mut Cx, k: Key, vi: usize, st: &mut RefSt, payload: &[u8]) -> Step {
        let s = self.sess(&k);
        let Ok(msg) = dec::<ClientMessage<'_, K1>>(s.codec, payload) else {
            return self.fail_app(cx, vi, "undecodable");
        };
        match (st.phase, msg) {
            (0, ClientMessage::Nonce(t)) => {
                st.ssid = rf::hn(0, &[&st.nonce, &t]);
                self.views[vi].ssid = Some([&st.nonce[..], &t].concat());
                st.phase = 1;
                Step::go(vec![])
            }
            (1, ClientMessage::Username(u)) if !s.strong => {
                self.views[vi].user = u.to_vec();
                self.refs_info(cx, vi, s, st, u, None)
            }
            (1, ClientMessage::StrongUsername { username, blinded }) if s.strong => {
                self.views[vi].user = username.to_vec();
                self.views[vi].blinded = Some(cp(&blinded));
                if blinded.is_identity() {
                    return self.fail_app(cx, vi, "reference refuses neutral blinded point");
                }
                self.refs_info(cx, vi, s, st, username, Some(blinded))
            }
            (2, ClientMessage::PublicKey(y)) => {
                self.views[vi].y_recv = Some(cp(&y));
                let mut outs = vec![];
                if s.late {
                    outs.push(self.refs_pub(vi, s, st));
                }
                if y.is_identity() {
                    return self.fail_app(cx, vi, "reference refuses neutral key");
                }
                let ks = rf::keys(&st.ssid, &st.y, &y);
                if s.explicit {
                    st.keys = Some(ks);
                    st.phase = 3;
                    Step::go(outs)
                } else {
                    self.got_key(cx, vi, &ks.sk);
                    Step::done(outs)
                }
            }
            (3, ClientMessage::Authenticator(t)) => {
                self.views[vi].auth_recv = Some(t);
                let ks = st.keys.as_ref().unwrap();
                if t == ks.tb {
                    let (sk, ta) = (ks.sk, ks.ta);
                    self.got_key(cx, vi, &sk);
                    let m: ServerMessage<'_, K1> = ServerMessage::Authenticator(ta);
                    let out = Self::smsg(&mut self.views[vi], s.codec, &m);
                    Step::done(vec![out])
                } else {
                    self.fail_lib(cx, vi, Error::MutualAuthFail)
                }
            }
            _ => self.fail_app(cx, vi, "unexpected message"),
        }
    }

    fn refs_pub(&mut self, vi: usize, s: &Sess, st: &mut RefSt) -> Vec<u8> {
        st.y = ref_scalar(st);
        let g = rf::generator(&st.ssid, &st.prs, &s.ci_s.0);
        let m: ServerMessage<'_, K1> = ServerMessage::PublicKey(g * st.y);
        Self::smsg(&mut self.views[vi], s.codec, &m)
    }

    fn refs_info(&mut self, cx: &mut Cx, vi: usize, s: &Sess, st: &mut RefSt, user: &[u8], blinded: Option<RistrettoPoint>) -> Step {
        let rid = self.store.borrow().cur(user, s.strong, 0);
        let kp = self.store.borrow().keys.get(user).and_then(|v| v.last().copied());
        let Some(rid) = rid else { return self.fail_app(cx, vi, "reference: unknown user") };
        let rec = self.store.borrow().recs[rid].clone();
        let (x, xp) = if s.partial {
            match kp {
                Some(k) => k,
                None => return self.fail_app(cx, vi, "reference: no key pair"),
            }
        } else {
            let x = ref_scalar(st);
            (x, rf::base(&x))
        };
        st.prs = cp(&(rec.verifier * x));
        self.views[vi].rec = Some(rid);
        self.views[vi].torn = rf::base(&x) != xp;
        let m: ServerMessage<'_, K1> = match blinded {
            Some(b) => {
                let q = rec.q.unwrap();
                if q == Scalar::ZERO {
                    return self.fail_app(cx, vi, "reference refuses neutral salt");
                }
                ServerMessage::StrongAugmentationInfo { group: "ristretto255", x_pub: xp, blinded_salt: b * q, pbkdf_params: rec.params }
            }
            None => ServerMessage::AugmentationInfo { group: "ristretto255", x_pub: xp, salt: rec.salt.unwrap(), pbkdf_params: rec.params },
        };
        let mut outs = vec![Self::smsg(&mut self.views[vi], s.codec, &m)];
        if !s.late {
            outs.push(self.refs_pub(vi, s, st));
        }
        st.phase = 2;
        Step::go(outs)
    }
}

fn ref_scalar(st: &mut RefSt) -> Scalar {
    let b = st.rng.as_mut().unwrap().bytes(64);
    Scalar::from_bytes_mod_order_wide(&b.try_into().unwrap())
}

/// Fake salts are related if they share a long common prefix, suffix or substring.
fn related(a: &str, b: &str) -> bool {
    if a.is_empty() || b.is_empty() {
        return false;
    }
    let n = 8.min(a.len()).min(b.len());
    a.as_bytes().windows(n).any(|w| b.as_bytes().windows(n).any(|x| x == w))
}

fn recorded(cx: &Cx, sess: u32, init: bool) -> Vec<Vec<u8>> {
    // everything that side sent in the earliest attempt recorded for that session
    let mut v: Vec<(Key, u32, Vec<u8>)> = cx.hist.iter().filter(|r| r.key.sess == sess && r.key.init == init).map(|r| (r.key, r.idx, r.sent.to_vec())).collect();
    if v.is_empty() {
        return vec![];
    }
    let last = v.iter().map(|x| x.0).max().unwrap();
    v.retain(|x| x.0 == last);
    v.into_iter().map(|x| x.2).collect()
}

pub fn hash_errors(hf: &Option<HFault>, len_bad: bool, register: bool) -> Vec<Error> {
    match hf {
        Some(HFault::Err(v)) => vec![Error::PasswordHashing(pherr(*v))],
        Some(HFault::NoHash) => vec![Error::HashEmpty],
        Some(HFault::Len(n)) if !matches!((*n).clamp(10, 64), 32 | 64) => vec![Error::HashSizeInvalid],
        Some(HFault::BadParams) if register => {
            let mut v = vec![Error::PasswordHashing(password_hash::Error::ParamNameInvalid)];
            if len_bad {
                v.push(Error::HashSizeInvalid);
            }
            v
        }
        _ if len_bad => vec![Error::HashSizeInvalid],
        _ => vec![],
    }
}

impl<'p, K: Kit, const K1: usize> Proto for World<'p, K, K1> {
    fn open(&mut self, cx: &mut Cx, k: Key) -> Step {
        let step = if k.init { self.open_client(cx, k) } else { self.open_server(cx, k) };
        if step.st == Status::Fail {
            self.eps.remove(&k);
        }
        step
    }

    fn deliver(&mut self, cx: &mut Cx, k: Key, idx: u32, payload: &[u8]) -> Step {
        let Some((vi, ep)) = self.eps.remove(&k) else {
            return Step::fail();
        };
        let (ep, step) = match ep {
            Ep::C(st) => {
                let (st, step) = self.client_recv(cx, k, vi, st, idx, payload);
                (Ep::C(st), step)
            }
            Ep::S(st) => {
                let (st, step) = self.server_recv(cx, k, vi, st, idx, payload);
                (Ep::S(st), step)
            }
            Ep::RC(mut st) => {
                let step = self.refc_recv(cx, k, vi, &mut st, payload);
                (Ep::RC(st), step)
            }
            Ep::RS(mut st) => {
                let step = self.refs_recv(cx, k, vi, &mut st, payload);
                (Ep::RS(st), step)
            }
            Ep::Play => (Ep::Play, Step::go(vec![])),
        };
        self.eps.insert(k, (vi, ep));
        step
    }

    fn crash(&mut self, cx: &mut Cx, node: u32) {
        if node < self.plan.clients {
            self.clients[node as usize] = None;
        } else {
            let i = (node - self.plan.clients) as usize;
            self.servers[i] = None;
            self.incs[i] += 1;
            cx.rep.count("server_incarnations");
        }
    }
    fn restart(&mut self, _: &mut Cx, node: u32) {
        if node < self.plan.clients {
            let c = self.mk_client(node);
            self.clients[node as usize] = Some(c);
        } else {
            let i = (node - self.plan.clients) as usize;
            let s = self.mk_server(i as u32, self.incs[i]);
            self.servers[i] = Some(s);
        }
    }
    fn dropped(&mut self, _: &mut Cx, k: Key) {
        if let Some((vi, _)) = self.eps.remove(&k) {
            self.views[vi].dropped = true;
        }
    }
    fn op(&mut self, cx: &mut Cx, i: u32) {
        if self.plan.ops.get(i as usize).is_some_and(|o| o.on.is_none()) {
            self.apply_op(cx, i as usize);
        }
    }
    fn tamper(&mut self, cx: &mut Cx, k: Key, idx: u32, payload: &[u8]) -> Option<Vec<u8>> {
        let mut cur: Option<Vec<u8>> = None;
        for t in &self.plan.tampers {
            if t.sess == k.sess && t.att == k.att && t.from_i == k.init && t.idx == idx {
                let b = cur.clone().unwrap_or_else(|| payload.to_vec());
                if let Some(n) = self.apply_tamper(cx, &t.op, k, idx, &b) {
                    self.sess_tampered.insert(k.sess);
                    cur = Some(n);
                }
            }
        }
        cur
    }
    fn want_retry(&mut self, cx: &mut Cx, sess: u32, _att: u32, ok: bool) -> bool {
        if ok {
            self.sess_ok[sess as usize] = true;
            cx.rep.count("sessions_completed");
        }
        !ok
    }
}

impl<'p, K: Kit, const K1: usize> World<'p, K, K1> {
    fn apply_tamper(&mut self, cx: &mut Cx, op: &TOp, k: Key, idx: u32, b: &[u8]) -> Option<Vec<u8>> {
        let r = match op {
            TOp::Flip(bit) => {
                let mut v = b.to_vec();
                if v.is_empty() {
                    return None;
                }
                let i = (*bit as usize / 8) % v.len();
                v[i] ^= 1 << (bit % 8);
                cx.rep.count("tamper_bit_flip");
                v
            }
            TOp::Trunc(n) => {
                if b.is_empty() {
                    return None;
                }
                cx.rep.count("tamper_truncate");
                b[..(*n as usize) % b.len()].to_vec()
            }
            TOp::Extend(h) => {
                cx.rep.count("tamper_extend");
                [b, &unhex(h)?].concat()
            }
            TOp::Replace(h) => {
                cx.rep.count("tamper_replace");
                unhex(h)?
            }
            TOp::Splice { sess, att, from_i, idx } => {
                let r = cx.hist.iter().find(|r| r.key.sess == *sess && r.key.att == *att && r.key.init == *from_i && r.idx == *idx)?;
                let v = r.sent.to_vec();
                if v != b {
                    cx.rep.count("tamper_splice");
                }
                v
            }
            TOp::Field { f, op, arg } => {
                let v = self.tamper_field(cx, k, idx, b, f, op, *arg)?;
                if v != b {
                    cx.rep.count(match f.as_str() {
                        "nonce" => "tamper_nonce",
                        "user" => "tamper_username",
                        "blinded" => "tamper_blinded",
                        "y" => "tamper_public_key",
                        "x" => "tamper_ephemeral",
                        "salt" => "tamper_salt",
                        "bsalt" => "tamper_blinded_salt",
                        "params" => "tamper_params",
                        "auth" => "tamper_authenticator",
                        _ => "tamper_other_field",
                    });
                }
                v
            }
        };
        if r == b {
            None
        } else {
            Some(r)
        }
    }

    fn point_op(&mut self, cx: &mut Cx, k: Key, p: RistrettoPoint, op: &str, arg: u64) -> RistrettoPoint {
        match op {
            "id" => {
                cx.rep.count("tamper_neutral_element");
                RistrettoPoint::identity()
            }
            "neg" => -p,
            "scale" => p * Scalar::from(2 + arg % 8),
            "inv" => p * Scalar::from(2 + arg % 8).invert(),
            "base" => rf::base(&Scalar::ONE),
            "add" => p + rf::base(&Scalar::ONE),
            _ => {
                let b = Prng::keyed(&[self.plan.seed, 0x7a3, k.sess as u64, arg]).bytes(64);
                RistrettoPoint::from_uniform_bytes(&b.try_into().unwrap())
            }
        }
    }

    /// The latest view of the party that will receive what `k` sends.
    fn receiver_view(&self, k: &Key) -> Option<&View> {
        self.views.iter().rev().find(|v| v.key.sess == k.sess && v.key.att == k.att && v.key.init != k.init)
    }

    fn bytes_op(&self, k: &Key, b: &mut [u8], op: &str, arg: u64, peer: Option<Vec<u8>>) {
        if b.is_empty() {
            return;
        }
        match op {
            "flip" => {
                let i = (arg as usize / 8) % b.len();
                b[i] ^= 1 << (arg % 8);
            }
            "zero" => b.fill(0),
            "ff" => b.fill(0xff),
            "tail" => {
                let n = b.len();
                let t = (arg as usize % n).max(1);
                b[n - t..].fill(0);
            }
            "head" => {
                let n = b.len();
                let t = (arg as usize % n).max(1);
                b[..t].fill(0);
            }
            "rot" => {
                let n = b.len();
                b.rotate_left(1 + arg as usize % (n - 1).max(1));
            }
            "peer" => {
                if let Some(p) = peer {
                    if p.len() == b.len() {
                        b.copy_from_slice(&p);
                    }
                }
            }
            _ => {
                let r = Prng::keyed(&[self.plan.seed, 0x7a4, k.sess as u64, arg]).bytes(b.len());
                b.copy_from_slice(&r);
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn tamper_field(&mut self, cx: &mut Cx, k: Key, idx: u32, b: &[u8], f: &str, op: &str, arg: u64) -> Option<Vec<u8>> {
        let s = self.sess(&k);
        if s.register {
            return None;
        }
        if op == "raw" {
            return self.raw_point(cx, k, idx, b, f, arg);
        }
        let rv = self.receiver_view(&k).cloned();
        if k.init {
            let m: ClientMessage<'_, K1> = dec(s.codec, b).ok()?;
            let near;
            let m = match m {
                ClientMessage::Nonce(mut n) if f == "nonce" => {
                    self.bytes_op(&k, &mut n, op, arg, rv.map(|v| v.nonce));
                    ClientMessage::Nonce(n)
                }
                ClientMessage::Username(u) if f == "user" => {
                    near = self.user_op(&k, u, op, arg);
                    ClientMessage::Username(&near)
                }
                ClientMessage::StrongUsername { username, blinded } if f == "user" => {
                    near = self.user_op(&k, username, op, arg);
                    ClientMessage::StrongUsername { username: &near, blinded }
                }
                ClientMessage::StrongUsername { username, blinded } if f == "blinded" => {
                    let p = self.point_op(cx, k, blinded, op, arg);
                    ClientMessage::StrongUsername { username, blinded: p }
                }
                ClientMessage::PublicKey(y) if f == "y" => {
                    let p = match (op, rv.and_then(|v| v.y_sent).and_then(|y| dp(&y))) {
                        ("peer", Some(p)) => p,
                        _ => self.point_op(cx, k, y, op, arg),
                    };
                    ClientMessage::PublicKey(p)
                }
                ClientMessage::Authenticator(mut a) if f == "auth" => {
                    self.bytes_op(&k, &mut a, op, arg, rv.and_then(|v| v.auth_sent).map(|a| a.to_vec()));
                    ClientMessage::Authenticator(a)
                }
                _ => return None,
            };
            Some(enc(s.codec, &m))
        } else {
            let m: ServerMessage<'_, K1> = dec(s.codec, b).ok()?;
            let m = match m {
                ServerMessage::Nonce(mut n) if f == "nonce" => {
                    self.bytes_op(&k, &mut n, op, arg, rv.map(|v| v.nonce));
                    ServerMessage::Nonce(n)
                }
                ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => match f {
                    "x" => ServerMessage::AugmentationInfo { group, x_pub: self.point_op(cx, k, x_pub, op, arg), salt, pbkdf_params },
                    "salt" if op == "text" => {
                        let mut g = Prng::keyed(&[self.plan.seed, 0x5a17, k.sess as u64, arg]);
                        let n = if arg & 1 == 0 { salt.as_str().len() } else { 4 + arg as usize % 61 };
                        ServerMessage::AugmentationInfo { group, x_pub, salt: SaltString::from_b64(&salt_text(&mut g, n)).ok()?, pbkdf_params }
                    }
                    "salt" => {
                        let mut raw = unb64(salt.as_str())?;
                        if op == "trunc" {
                            raw.truncate((4 + arg as usize % 12).min(raw.len()));
                        } else {
                            self.bytes_op(&k, &mut raw, op, arg, None);
                        }
                        ServerMessage::AugmentationInfo { group, x_pub, salt: SaltString::encode_b64(&raw).ok()?, pbkdf_params }
                    }
                    "params" => ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params: params_op(op, arg, &pbkdf_params) },
                    "group" => ServerMessage::AugmentationInfo { group: "curve25519", x_pub, salt, pbkdf_params },
                    _ => return None,
                },
                ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => match f {
                    "x" => ServerMessage::StrongAugmentationInfo { group, x_pub: self.point_op(cx, k, x_pub, op, arg), blinded_salt, pbkdf_params },
                    "bsalt" => ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt: self.point_op(cx, k, blinded_salt, op, arg), pbkdf_params },
                    "params" => ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params: params_op(op, arg, &pbkdf_params) },
                    "group" => ServerMessage::StrongAugmentationInfo { group: "", x_pub, blinded_salt, pbkdf_params },
                    _ => return None,
                },
                ServerMessage::PublicKey(y) if f == "y" => {
                    let p = match (op, rv.and_then(|v| v.y_sent).and_then(|y| dp(&y))) {
                        ("peer", Some(p)) => p,
                        _ => self.point_op(cx, k, y, op, arg),
                    };
                    ServerMessage::PublicKey(p)
                }
                ServerMessage::Authenticator(mut a) if f == "auth" => {
                    self.bytes_op(&k, &mut a, op, arg, rv.and_then(|v| v.auth_sent).map(|a| a.to_vec()));
                    ServerMessage::Authenticator(a)
                }
                _ => return None,
            };
            Some(enc(s.codec, &m))
        }
    }

    fn user_op(&self, k: &Key, u: &[u8], op: &str, arg: u64) -> Vec<u8> {
        match op {
            "other" if !self.plan.users.is_empty() => self.plan.users[arg as usize % self.plan.users.len()].name.0.clone(),
            _ => near_miss(&mut Prng::keyed(&[self.plan.seed, 0x7a5, k.sess as u64, arg]), u),
        }
    }

    /// Replace the point's 32 bytes by an encoding that is not a canonical group element.
    fn raw_point(&mut self, cx: &mut Cx, k: Key, idx: u32, b: &[u8], f: &str, arg: u64) -> Option<Vec<u8>> {
        let v = self.views.iter().rev().find(|v| v.key == k)?;
        let pt = match f {
            "y" => v.y_sent?,
            "x" => v.x?,
            "blinded" => v.blinded?,
            "bsalt" => v.bsalt?,
            _ => return None,
        };
        let pos = b.windows(32).position(|w| w == pt)?;
        let bad = bad_encoding(&pt, arg);
        if CompressedRistretto(bad).decompress().is_some() {
            return None;
        }
        let mut o = b.to_vec();
        o[pos..pos + 32].copy_from_slice(&bad);
        self.bad_points.insert((Key { epoch: 0, ..k }, idx));
        cx.rep.count("tamper_noncanonical_point");
        Some(o)
    }
}

/// Encodings that must not decode: field element not reduced, negative, off the curve.
pub fn bad_encoding(pt: &[u8; 32], arg: u64) -> [u8; 32] {
    // p = 2^255 - 19
    let p = {
        let mut p = [0xffu8; 32];
        p[0] = 0xed;
        p[31] = 0x7f;
        p
    };
    match arg % 7 {
        0 => p, // encodes zero non-canonically
        1 => {
            let mut q = p;
            q[0] = 0xee;
            q
        }
        2 => {
            // negative: p - s
            let mut o = [0u8; 32];
            let mut borrow = 0i16;
            for i in 0..32 {
                let d = p[i] as i16 - pt[i] as i16 - borrow;
                o[i] = d as u8;
                borrow = if d < 0 { 1 } else { 0 };
            }
            o
        }
        3 => {
            let mut o = *pt;
            o[31] |= 0x80;
            o
        }
        4 => [0xff; 32],
        5 => {
            // a non-square ratio: search near the point
            let mut o = *pt;
            for i in 0..64u8 {
                o[1] = pt[1].wrapping_add(i);
                if CompressedRistretto(o).decompress().is_none() {
                    return o;
                }
            }
            o
        }
        _ => {
            let mut o = *pt;
            o[0] |= 1; // odd: negative
            o
        }
    }
}

/// Salt characters that are not necessarily Base64.
pub fn salt_text(g: &mut Prng, n: usize) -> String {
    let all: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/+.-";
    (0..n.clamp(4, 64)).map(|_| if g.chance(15) { *g.pick(&['.', '-']) } else { *g.pick(all) as char }).collect()
}

fn params_op(op: &str, arg: u64, p: &ParamsString) -> ParamsString {
    match op {
        "empty" => ParamsString::default(),
        "len" => format!("c=1,l={}", [10, 16, 31, 33, 63, 64, 20][arg as usize % 7]).parse().unwrap(),
        "junk" => ["a=b", "zz=1", "c=0,l=0", "ln=1"][arg as usize % 4].parse().unwrap(),
        _ => {
            let mut s = ParamsString::new();
            let mut any = false;
            for (i, (n, v)) in p.iter().enumerate() {
                let d = v.decimal().unwrap_or(1);
                let d = if i as u64 == arg % 2 { d ^ 1 } else { d };
                let _ = s.add_decimal(n, d.max(1));
                any = true;
            }
            if !any {
                let _ = s.add_decimal("c", 2);
            }
            s
        }
    }
}

// ------------------------------------------------------------------------------- running

/// What a session leaves for comparisons between executions.
#[derive(Clone, PartialEq, Debug)]
pub struct Tr {
    pub key: Key,
    pub client: bool,
    pub sent: Vec<Vec<u8>>,
    pub out: Out,
    pub dropped: bool,
}

pub struct Full {
    pub rep: Report,
    pub trs: Vec<Tr>,
    pub regs: Vec<(u64, Vec<u8>)>,
}

pub fn validate(p: &Plan) -> Result<(), String> {
    let bad = |s: &str| Err(format!("invalid plan: {s}"));
    if p.clients == 0 || p.servers == 0 || p.clients > 64 || p.servers > 64 {
        return bad("node counts");
    }
    for s in &p.sess {
        if s.client >= p.clients || s.server < p.clients || s.server >= p.clients + p.servers {
            return bad("node index");
        }
        if s.max_att > 400 || s.timeout_ms < 100 {
            return bad("session limits");
        }
    }
    if p.sess.len() > 1000 || p.users.len() > 60 || p.ops.len() > 60 {
        return bad("size");
    }
    Ok(())
}

pub fn run(v: &Value, trace: bool) -> Result<Report, String> {
    let plan: Plan = serde_json::from_value(v.clone()).map_err(|e| format!("invalid plan: {e}"))?;
    Ok(run_plan(&plan, trace)?.rep)
}

pub fn run_plan(plan: &Plan, trace: bool) -> Result<Full, String> {
    validate(plan)?;
    let _d = crate::kit::use_digest(plan.digest2);
    match (plan.scrypt, plan.k32) {
        (false, _) if plan.k20 => run_g::<SimKit, 20>(plan, trace),
        (false, false) => run_g::<SimKit, 16>(plan, trace),
        (false, true) => run_g::<SimKit, 32>(plan, trace),
        (true, false) => run_g::<ScryptKit, 16>(plan, trace),
        (true, true) => run_g::<ScryptKit, 32>(plan, trace),
    }
}

pub fn build<K: Kit, const K1: usize>(plan: &Plan, trace: bool) -> Engine<World<'_, K, K1>> {
    crate::kit::HASHES.with(|l| l.borrow_mut().clear());
    let w: World<'_, K, K1> = World::new(plan);
    let sess = plan.sess.iter().map(|s| SessCfg { inode: s.client, anode: s.server, start_ms: s.start_ms, max_att: s.max_att, timeout_ms: s.timeout_ms }).collect();
    let mut e = Engine::new(w, plan.seed, plan.net.clone(), plan.crashes.clone(), sess, plan.clients + plan.servers, trace);
    e.p.setup(&mut e.cx);
    e.p.prepare_races(&mut e.cx);
    for (i, op) in plan.ops.iter().enumerate() {
        if op.on.is_none() {
            e.schedule_op(op.at.unwrap_or(0), i as u32);
        }
    }
    e
}

pub fn finish<K: Kit, const K1: usize>(mut e: Engine<World<'_, K, K1>>) -> Full {
    let fin: Vec<Option<u64>> = e.fin_at.clone();
    crate::auc_oracle::oracle(&mut e.p, &mut e.cx, &fin);
    let w = e.p;
    let trs = w.views.iter().map(|v| Tr { key: v.key, client: v.client, sent: v.sent.clone(), out: v.out.clone(), dropped: v.dropped }).collect();
    Full { rep: e.cx.rep, trs, regs: w.reg_bytes }
}

fn run_g<K: Kit, const K1: usize>(plan: &Plan, trace: bool) -> Result<Full, String> {
    let mut e = build::<K, K1>(plan, trace);
    if !e.run() {
        e.cx.rep.count("event_cap_hit");
    }
    Ok(finish(e))
}
