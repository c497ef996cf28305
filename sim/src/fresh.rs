//! Randomness accounting (A05, A06, S05): histories of secret-producing calls on long-lived
//! clients and servers that share one random stream are executed, then executed again with
//! single stream bytes changed, so that the bytes each produced secret depends on are known.
use crate::auc::{cp, enc};
use crate::engine::Report;
use crate::kit::*;
use crate::osrng::with_os_rng;
use crate::rng::*;
use crate::util::*;
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, PartialAugDatabase, ServerMessage, StrongDatabase};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use password_hash::{ParamsString, SaltString};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use sha2::Sha512;
use spake2::{Ed25519Group, Identity, Password, Spake2};
use std::collections::{HashMap, BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum Op {
    CNonce,
    SNonce,
    Reg { strong: bool, api: u8 },
    Pair,
    Blind { short: bool },
    CPub,
    /// login of a registered user: augmentation reply and public key
    Known { strong: bool, partial: bool },
    /// the same for an unknown user
    Unknown { strong: bool, partial: bool, who: u8 },
    /// the server process dies and comes back
    RestartS,
    RestartC,
    Spake { role: u8, os: bool },
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub seed: u64,
    pub k32: bool,
    #[serde(default)]
    pub k20: bool,
    pub ops: Vec<Op>,
    /// change single stream bytes (false: only collect values)
    pub perturb: bool,
    /// bits changed in a byte
    pub mask: u8,
}

pub fn gen(prop: &str, seed: u64, thorough: bool) -> Value {
    let mut r = Prng::keyed(&[seed, tag("fresh")]);
    let spake = prop == "S05";
    let a06 = prop == "A06";
    let bulk = r.chance(12) && !a06;
    let n = if bulk { 150 + r.us(60) } else if a06 { 1 + r.us(if thorough { 5 } else { 2 }) } else { 2 + r.us(if thorough { 6 } else { 2 }) };
    let kinds: Vec<u64> = if bulk {
        // many values of few kinds
        let k = r.below(12);
        if k == 7 {
            vec![0, 1, 0, 1, 7]
        } else {
            vec![k, r.below(12)]
        }
    } else {
        (0..12).collect()
    };
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(if spake {
            Op::Spake { role: r.below(3) as u8, os: r.chance(40) }
        } else if a06 {
            match r.below(9) {
                0 => Op::RestartS,
                1 | 2 => Op::Known { strong: r.chance(50), partial: r.chance(50) },
                _ => Op::Unknown { strong: r.chance(50), partial: r.chance(50), who: r.below(2) as u8 },
            }
        } else {
            match *r.pick(&kinds) {
                0 => Op::CNonce,
                1 => Op::SNonce,
                2 => Op::Reg { strong: false, api: r.below(2) as u8 },
                3 => Op::Reg { strong: true, api: r.below(2) as u8 },
                4 => Op::Pair,
                5 => Op::Blind { short: r.chance(20) },
                6 => Op::CPub,
                7 => {
                    if r.chance(50) {
                        Op::RestartS
                    } else {
                        Op::RestartC
                    }
                }
                8 | 9 => Op::Known { strong: r.chance(50), partial: r.chance(40) },
                _ => Op::Unknown { strong: r.chance(50), partial: r.chance(40), who: r.below(2) as u8 },
            }
        });
    }
    if a06 {
        // the entropy of an unknown user's reply is measured against a registered user's
        for s in [false, true] {
            if ops.iter().any(|o| matches!(o, Op::Unknown { strong, partial: false, .. } if *strong == s)) {
                ops.push(Op::Known { strong: s, partial: false });
            }
            if ops.iter().any(|o| matches!(o, Op::Unknown { strong, partial: true, .. } if *strong == s)) {
                ops.push(Op::Known { strong: s, partial: true });
            }
        }
    }
    let plan = Plan { seed, k32: r.chance(40), k20: r.chance(30), ops, perturb: !bulk, mask: *r.pick(&[0xffu8, 0xff, 0x10, 0x0f]) };
    serde_json::to_value(plan).unwrap()
}

struct Db {
    salt: SaltString,
    wp: RistrettoPoint,
    q: Scalar,
    key: (Scalar, RistrettoPoint),
}
const KNOWN: &[u8] = b"known";
impl Database for Db {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> {
        (u == KNOWN).then(|| (self.wp, self.salt.clone(), ParamsString::default()))
    }
    fn store_verifier(&mut self, _: &[u8], _: SaltString, _: Option<&[u8]>, _: RistrettoPoint, _: ParamsString) {}
}
impl StrongDatabase for Db {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> {
        (u == KNOWN).then(|| (self.wp, self.q, ParamsString::default()))
    }
    fn store_verifier_strong(&mut self, _: &[u8], _: Option<&[u8]>, _: RistrettoPoint, _: Scalar, _: ParamsString) {}
}
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, RistrettoPoint)> {
        (u == KNOWN).then_some(self.key)
    }
    fn store_long_term_keypair(&mut self, _: &[u8], _: Scalar, _: RistrettoPoint) -> aucpace::Result<()> {
        Ok(())
    }
}

/// Inputs that stay the same in every execution.
struct Fixed {
    db: Db,
    bl: RistrettoPoint,
    x: RistrettoPoint,
}
impl Fixed {
    fn new() -> Self {
        let base = crate::reference::base;
        Fixed {
            db: Db { salt: SaltString::encode_b64(&[8; 16]).unwrap(), wp: base(&sc(1)), q: sc(2), key: (sc(3), base(&sc(3))) },
            bl: base(&sc(11)),
            x: base(&sc(9)),
        }
    }
}

fn sc(x: u64) -> Scalar {
    let mut p = Prng::keyed(&[x, 0xf5e5]);
    let mut b = [0u8; 64];
    b.copy_from_slice(&p.bytes(64));
    Scalar::from_bytes_mod_order_wide(&b)
}

/// One produced value.
#[derive(Clone, PartialEq, Debug)]
struct Val {
    what: &'static str,
    bytes: Vec<u8>,
}

/// Execute the history. Returns per op: the produced values, and the end position of the stream.
fn exec<const K1: usize>(plan: &Plan, fx: &Fixed, flip: Option<u64>) -> (Vec<Vec<Val>>, u64, Vec<(u64, u64)>) {
    let rng = LibRng::keyed(&[plan.seed, tag("stream")]);
    if let Some(f) = flip {
        rng.flip(f, plan.mask);
    }
    type H = SimHasher;
    let mk_s = || AuCPaceServer::<Sha512, LibRng, K1>::new(rng.clone());
    let mk_c = || AuCPaceClient::<Sha512, H, LibRng, K1>::new(rng.clone());
    let spake_only = plan.ops.iter().all(|o| matches!(o, Op::Spake { .. }));
    let mut out: Vec<Vec<Val>> = vec![];
    let mut ranges = vec![];
    let (mut s, mut c) = if spake_only { (None, None) } else { (Some(mk_s()), Some(mk_c())) };
    let db = &fx.db;
    let ssid = b"a pre-established session identifier".as_slice();
    let pp = || SimParams { c: 1, len: 32, bad: false };
    let hh = || SimKit::hasher(&None);
    for op in &plan.ops {
        let p0 = rng.pos();
        let mut v = vec![];
        match op {
            Op::CNonce => {
                if let Some(c) = &mut c {
                    if let (_, ClientMessage::Nonce(n)) = c.begin() {
                        v.push(Val { what: "client nonce", bytes: n.to_vec() });
                    }
                }
            }
            Op::SNonce => {
                if let Some(s) = &mut s {
                    if let (_, ServerMessage::Nonce(n)) = s.begin() {
                        v.push(Val { what: "server nonce", bytes: n.to_vec() });
                    }
                }
            }
            Op::Reg { strong, api } => {
                if let Some(c) = &mut c {
                    let (u, p) = (KNOWN, b"password".as_slice());
                    let m = match (strong, api) {
                        (false, 0) => c.register_alloc(u, p, pp(), hh()),
                        (false, _) => c.register::<_, 64>(u, p, pp(), hh()),
                        (true, 0) => c.register_alloc_strong(u, p, pp(), hh()),
                        (true, _) => c.register_strong::<_, 64>(u, p, pp(), hh()),
                    };
                    match m {
                        Ok(ClientMessage::Registration { salt, verifier, .. }) => {
                            v.push(Val { what: "registration salt", bytes: unb64(salt.as_str()).unwrap_or_default() });
                            v.push(Val { what: "verifier", bytes: cp(&verifier).to_vec() });
                        }
                        Ok(ClientMessage::StrongRegistration { secret_exponent, verifier, .. }) => {
                            v.push(Val { what: "secret exponent", bytes: secret_exponent.to_bytes().to_vec() });
                            v.push(Val { what: "strong verifier", bytes: cp(&verifier).to_vec() });
                        }
                        _ => {}
                    }
                }
            }
            Op::Pair => {
                if let Some(s) = &mut s {
                    let (k, _) = s.generate_long_term_keypair();
                    v.push(Val { what: "long-term key", bytes: k.to_bytes().to_vec() });
                }
            }
            Op::Blind { short } => {
                if let Some(c) = &mut c {
                    let a = c.begin_prestablished_ssid(ssid).ok();
                    let u: &[u8] = if *short { b"" } else { KNOWN };
                    if let Some((_, ClientMessage::StrongUsername { blinded, .. })) = a.map(|a| a.start_augmentation_strong(u, b"password", &mut rng.clone())) {
                        v.push(Val { what: "blinded point", bytes: cp(&blinded).to_vec() });
                    }
                }
            }
            Op::CPub => {
                if let Some(c) = &mut c {
                    if let Ok(a) = c.begin_prestablished_ssid(ssid) {
                        let (a, _) = a.start_augmentation(KNOWN, b"password");
                        if let Ok(n) = a.generate_cpace_alloc(fx.x, &db.salt, pp(), hh()) {
                            if let (_, ClientMessage::PublicKey(y)) = n.generate_public_key(b"ci", &mut rng.clone()) {
                                v.push(Val { what: "client public key", bytes: cp(&y).to_vec() });
                            }
                        }
                    }
                }
            }
            Op::Known { strong, partial } | Op::Unknown { strong, partial, .. } => {
                let who: &[u8] = match op {
                    Op::Unknown { who: 0, .. } => b"nobody",
                    Op::Unknown { .. } => b"nobody else",
                    _ => KNOWN,
                };
                let known = who == KNOWN;
                if let Some(s) = &mut s {
                    if let Ok(a) = s.begin_prestablished_ssid(ssid) {
                        let r = rng.clone();
                        let bl = fx.bl;
                        let res = match (strong, partial) {
                            (false, false) => Ok(a.generate_client_info(who, db, r)),
                            (false, true) => Ok(a.generate_client_info_partial_aug(who, db, r)),
                            (true, false) => a.generate_client_info_strong(who, bl, db, r),
                            (true, true) => a.generate_client_info_partial_strong(who, bl, db, r),
                        };
                        if let Ok((n, m)) = res {
                            let x = match (partial, known) {
                                (false, true) => "server ephemeral",
                                (false, false) => "server ephemeral (unknown user)",
                                (true, true) => "stored public key",
                                (true, false) => "stored public key (unknown user)",
                            };
                            match &m {
                                ServerMessage::AugmentationInfo { x_pub, salt, .. } => {
                                    v.push(Val { what: x, bytes: cp(x_pub).to_vec() });
                                    v.push(Val { what: if known { "stored salt" } else { "salt (unknown user)" }, bytes: unb64(salt.as_str()).unwrap_or_default() });
                                }
                                ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, .. } => {
                                    v.push(Val { what: x, bytes: cp(x_pub).to_vec() });
                                    v.push(Val { what: if known { "blinded salt" } else { "blinded salt (unknown user)" }, bytes: cp(blinded_salt).to_vec() });
                                }
                                _ => {}
                            }
                            if let (_, ServerMessage::PublicKey(y)) = n.generate_public_key(b"ci") {
                                v.push(Val { what: if known { "server public key" } else { "server public key (unknown user)" }, bytes: cp(&y).to_vec() });
                            }
                            let _ = enc(0, &m);
                        }
                    }
                }
            }
            Op::RestartS => {
                if s.is_some() {
                    drop(s.take());
                    s = Some(mk_s());
                }
            }
            Op::RestartC => {
                if c.is_some() {
                    drop(c.take());
                    c = Some(mk_c());
                }
            }
            Op::Spake { role, os } => {
                let (pw, ia, ib) = (Password::new(b"password"), Identity::new(b"alice"), Identity::new(b"bob"));
                type Sp = Spake2<Ed25519Group>;
                let (st, m) = if *os {
                    with_os_rng(&rng, || match role {
                        0 => Sp::start_a(&pw, &ia, &ib),
                        1 => Sp::start_b(&pw, &ia, &ib),
                        _ => Sp::start_symmetric(&pw, &ia),
                    })
                } else {
                    match role {
                        0 => Sp::start_a_with_rng(&pw, &ia, &ib, rng.clone()),
                        1 => Sp::start_b_with_rng(&pw, &ia, &ib, rng.clone()),
                        _ => Sp::start_symmetric_with_rng(&pw, &ia, rng.clone()),
                    }
                };
                v.push(Val { what: "spake2 message", bytes: m });
                let mut peer = vec![match role {
                    0 => 0x42u8,
                    1 => 0x41,
                    _ => 0x53,
                }];
                peer.extend_from_slice(curve25519_dalek::constants::ED25519_BASEPOINT_COMPRESSED.as_bytes());
                v.push(Val { what: "spake2 key", bytes: st.finish(&peer).unwrap_or_default() });
            }
        }
        ranges.push((p0, rng.pos()));
        out.push(v);
    }
    let end = rng.pos();
    (out, end, ranges)
}

/// How many stream bytes a value must depend on, and the properties that say so.
fn need(what: &str, k1: u64) -> Option<(u64, &'static [&'static str])> {
    Some(match what {
        "client nonce" | "server nonce" => (k1, &["A05"]),
        "registration salt" => (16, &["A05"]),
        "verifier" => (16, &["A05"]),
        "secret exponent" | "strong verifier" | "long-term key" | "blinded point" | "client public key" | "server ephemeral" => (32, &["A05"]),
        "server public key" => (32, &["A05"]),
        "server ephemeral (unknown user)" | "server public key (unknown user)" => (32, &["A05", "A06"]),
        "stored public key (unknown user)" | "salt (unknown user)" | "blinded salt (unknown user)" => (8, &["A06", "A05"]),
        "spake2 message" | "spake2 key" => (32, &["S05"]),
        _ => return None,
    })
}
/// Values that stay the same while the server lives (they depend on its long-lived secret).
fn lasting(what: &str) -> bool {
    matches!(what, "stored public key (unknown user)" | "salt (unknown user)" | "blinded salt (unknown user)" | "stored public key" | "stored salt" | "blinded salt")
}

pub fn run(v: &Value, trace: bool) -> Result<Report, String> {
    let plan: Plan = serde_json::from_value(v.clone()).map_err(|e| format!("invalid plan: {e}"))?;
    if plan.ops.len() > 400 || plan.mask == 0 {
        return Err("invalid plan".into());
    }
    if plan.k20 {
        Ok(go::<20>(&plan, trace))
    } else if plan.k32 {
        Ok(go::<32>(&plan, trace))
    } else {
        Ok(go::<16>(&plan, trace))
    }
}

fn go<const K1: usize>(plan: &Plan, trace: bool) -> Report {
    let mut rep = Report { trace: if trace { Some(vec![]) } else { None }, ..Default::default() };
    let fx = Fixed::new();
    let (base, end, ranges) = exec::<K1>(plan, &fx, None);
    rep.events += plan.ops.len() as u64;
    rep.sim_us = plan.ops.len() as u64 * 10_000;
    let mut incs = vec![];
    let mut inc = 0u32;
    for (i, op) in plan.ops.iter().enumerate() {
        if *op == Op::RestartS {
            inc += 1;
            rep.count("crash_server_restart");
        }
        if *op == Op::RestartC {
            rep.count("crash_client_restart");
        }
        incs.push(inc);
        rep.sched = mix(&[rep.sched, hash_bytes(format!("{op:?}").as_bytes())]);
        for v in &base[i] {
            rep.dig_bytes(&v.bytes);
        }
        if let Some(t) = &mut rep.trace {
            t.push(format!("op {i} {op:?} stream [{}, {}): {}", ranges[i].0, ranges[i].1, base[i].iter().map(|v| format!("{}={}", v.what, hex(&v.bytes))).collect::<Vec<_>>().join(" ")));
        }
    }

    // values never repeat
    let mut seen: BTreeMap<(&str, Vec<u8>), usize> = BTreeMap::new();
    for (i, vs) in base.iter().enumerate() {
        for v in vs {
            if lasting(v.what) {
                continue;
            }
            rep.count("values_compared");
            let Some((_, props)) = need(v.what, K1 as u64) else { continue };
            if let Some(j) = seen.insert((v.what, v.bytes.clone()), i) {
                rep.viol(props, format!("repeats:{}", v.what), format!("{} of op {i} is the same as that of op {j}", v.what));
            }
        }
    }

    // no value has a constant stretch or shares one with another value (or itself): eight
    // bytes that agree by chance have probability 2^-56
    let mut parts: HashMap<[u8; 8], (usize, &str, usize)> = HashMap::new();
    for (i, vs) in base.iter().enumerate() {
        for v in vs {
            if lasting(v.what) {
                continue;
            }
            let Some((_, props)) = need(v.what, K1 as u64) else { continue };
            for (o, w) in v.bytes.windows(8).enumerate() {
                if w.iter().all(|b| *b == w[0]) {
                    rep.viol(props, format!("hollow:{}", v.what), format!("{} of op {i} holds eight equal bytes at {o}: {}", v.what, hex(&v.bytes)));
                    break;
                }
                if let Some((j, f, p)) = parts.insert(w.try_into().unwrap(), (i, v.what, o)) {
                    rep.viol(props, format!("shared-bytes:{}:{f}", v.what), format!("{} of op {i} at {o} and {f} of op {j} at {p} share eight bytes", v.what));
                    break;
                }
            }
        }
    }

    if !plan.perturb {
        // every bit of values that are plain random bytes varies; every byte of the others does
        let mut acc: BTreeMap<&str, (u64, Vec<u8>, Vec<u8>)> = BTreeMap::new();
        for v in base.iter().flatten() {
            if matches!(v.what, "client nonce" | "server nonce" | "registration salt" | "secret exponent" | "long-term key") {
                let e = acc.entry(v.what).or_insert_with(|| (0, vec![0xff; v.bytes.len()], vec![0; v.bytes.len()]));
                if e.1.len() != v.bytes.len() {
                    rep.viol(&["A05"], format!("length-varies:{}", v.what), format!("{} has varying length", v.what));
                    continue;
                }
                e.0 += 1;
                for (i, b) in v.bytes.iter().enumerate() {
                    e.1[i] &= b;
                    e.2[i] |= b;
                }
            }
        }
        for (what, (n, and, or)) in acc {
            if n < 100 {
                continue;
            }
            rep.nontrivial = true;
            rep.count("bit_variation_tested");
            let bits = if what.contains("nonce") || what.contains("salt") { and.len() * 8 } else { 250 };
            for b in 0..bits.min(and.len() * 8) {
                let (one, zero) = (and[b / 8] >> (b % 8) & 1 == 1, or[b / 8] >> (b % 8) & 1 == 0);
                if one || zero {
                    rep.viol(&["A05"], format!("stuck-bit:{what}"), format!("bit {b} of {what} is always {} in {n} samples", one as u8));
                    break;
                }
            }
        }
        let vals: usize = base.iter().map(|v| v.len()).sum();
        rep.nontrivial |= vals > 100;
        return rep;
    }

    // which stream bytes does each value depend on?
    let mut inf: Vec<Vec<BTreeSet<u64>>> = base.iter().map(|v| vec![BTreeSet::new(); v.len()]).collect();
    for off in 0..end.min(6000) {
        let (got, _, _) = exec::<K1>(plan, &fx, Some(off));
        rep.events += plan.ops.len() as u64;
        rep.count("fault_stream_byte_changed");
        rep.nontrivial = true;
        for (i, vs) in base.iter().enumerate() {
            for (j, v) in vs.iter().enumerate() {
                if got[i].get(j) != Some(v) {
                    inf[i][j].insert(off);
                }
            }
        }
    }
    // enough of them
    let mut ny: BTreeMap<(bool, bool), usize> = BTreeMap::new();
    for (i, vs) in base.iter().enumerate() {
        for (j, v) in vs.iter().enumerate() {
            let Some((n, props)) = need(v.what, K1 as u64) else {
                if !inf[i][j].is_empty() && v.what.starts_with("stored") {
                    rep.viol(&["A05"], format!("stored-value-random:{}", v.what), format!("{} of op {i} depends on the random stream", v.what));
                }
                continue;
            };
            rep.count("secrets_measured");
            if let Some(t) = &mut rep.trace {
                t.push(format!("op {i} {}: depends on {} stream bytes {:?}", v.what, inf[i][j].len(), inf[i][j].iter().next().zip(inf[i][j].iter().next_back())));
            }
            if (inf[i][j].len() as u64) < n {
                rep.viol(props, format!("entropy:{}", v.what), format!("{} of op {i} ({:?}) depends on only {} bytes of the random stream, {n} are due", v.what, plan.ops[i], inf[i][j].len()));
            }
            if let Op::Known { strong, partial } = plan.ops[i] {
                if v.what == "server public key" {
                    // without those the ephemeral brings in through the PRS
                    ny.insert((strong, partial), inf[i][j].difference(&inf[i][0]).count());
                }
            }
        }
    }
    // an unknown user's PRS: secret entropy on top of the public key's own
    for (i, vs) in base.iter().enumerate() {
        if let Op::Unknown { strong, partial, .. } = plan.ops[i] {
            if let (Some(y), Some(known)) = (vs.iter().position(|v| v.what == "server public key (unknown user)"), ny.get(&(strong, partial))) {
                let own: BTreeSet<u64> = inf[i][y].difference(&inf[i][0]).copied().collect();
                let (a, b) = ranges[i];
                let own = own.iter().filter(|o| **o >= a && **o < b).count();
                if own < known + 32 {
                    rep.viol(&["A06"], "unknown-user-prs-entropy", format!("the public key for the unknown user of op {i} depends on {own} private stream bytes, a registered user's on {known}: the password-related string has fewer than 32 random bytes"));
                }
            }
        }
    }
    // no byte serves two secrets
    let main = |what: &str| need(what, K1 as u64).is_some() && !lasting(what);
    for i in 0..base.len() {
        for k in i + 1..base.len() {
            for (j, v) in base[i].iter().enumerate() {
                for (l, w) in base[k].iter().enumerate() {
                    if main(v.what) && main(w.what) {
                        let n = inf[i][j].intersection(&inf[k][l]).count();
                        if n > 0 {
                            let props = need(w.what, K1 as u64).unwrap().1;
                            rep.viol(props, format!("shared-randomness:{}:{}", v.what, w.what), format!("{} of op {i} and {} of op {k} depend on {n} common bytes of the random stream", v.what, w.what));
                        }
                    }
                    if lasting(v.what) && lasting(w.what) && v.what.ends_with("(unknown user)") && w.what.ends_with("(unknown user)") && incs[i] != incs[k] {
                        let n = inf[i][j].intersection(&inf[k][l]).count();
                        if n > 0 {
                            rep.viol(&["A06", "A05"], "secret-survives-restart", format!("masking values of op {i} and op {k} depend on common random bytes although the server was created anew between them"));
                        }
                    }
                }
            }
        }
        // within one reply the ephemeral is independent of the masking values and of the nonce
        if let Op::Unknown { partial: false, .. } = plan.ops[i] {
            if inf[i].len() >= 2 && inf[i][0].intersection(&inf[i][1]).count() > 0 {
                rep.viol(&["A05"], "ephemeral-from-secret", format!("ephemeral of op {i} depends on the server's masking secret"));
            }
        }
    }
    rep
}
