//! Cross-session and cross-protocol comparisons (X01, X02).
//!
//! Several worlds (AuCPace, SPAKE2, SRP) run in one process, their events interleaved by a seeded
//! scheduler. The same plan is executed several times, each time in a process of its own whose
//! ambient inputs (clocks, process id, operating-system randomness) are simulated, and the
//! transcripts are compared: every session alone against all of them together (X01); repeated,
//! re-interleaved, warmed-up and with other ambient inputs (X02: equal), with other random
//! streams (X02: every secret-dependent output differs).
use crate::engine::{Engine, Key, Proto, Report};
use crate::kit::{Kit, ScryptKit, SimKit};
use crate::rng::{mix, tag, Prng};
use crate::util::{hash_bytes, hex};
use crate::{auc, spake, srp_sim};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

// ------------------------------------------------------------------------------- records

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Rec {
    /// engine, session, attempt, epoch, initiator
    e: usize,
    k: (u32, u32, u32, bool),
    sent: Vec<String>,
    out: String,
    dropped: bool,
}

#[derive(Serialize, Deserialize, Clone, Default)]
struct Answer {
    recs: Vec<Rec>,
    regs: Vec<Vec<String>>,
    stats: BTreeMap<String, u64>,
    events: u64,
    sim_us: u64,
    sched: u64,
    overlap: u64,
    ambient: u64,
    #[serde(default)]
    panic: Option<String>,
    #[serde(default)]
    bad: Option<String>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Request {
    worlds: Vec<Value>,
    /// worlds run before, in the same process
    warm: Vec<Value>,
    order: u64,
    os: u64,
    clock: u64,
    step: u64,
    pid: u64,
    /// 0: no environment variable is set; else every one is, to a value chosen by this
    #[serde(default)]
    env: u64,
    thread: bool,
}

// ------------------------------------------------------------------------------- steppers

trait Sim {
    fn begin(&mut self);
    fn step(&mut self) -> bool;
    fn next_at(&self) -> Option<u64>;
    fn finish(self: Box<Self>, e: usize) -> (Report, Vec<Rec>, Vec<String>);
}

struct Drive<P: Proto, F: FnOnce(Engine<P>, usize) -> (Report, Vec<Rec>, Vec<String>)> {
    e: Engine<P>,
    f: F,
    capped: bool,
}
impl<P: Proto, F: FnOnce(Engine<P>, usize) -> (Report, Vec<Rec>, Vec<String>)> Sim for Drive<P, F> {
    fn begin(&mut self) {
        self.e.begin();
    }
    fn step(&mut self) -> bool {
        match self.e.step() {
            Some(true) => true,
            Some(false) => {
                self.capped = true;
                false
            }
            None => false,
        }
    }
    fn next_at(&self) -> Option<u64> {
        if self.capped {
            None
        } else {
            self.e.next_at()
        }
    }
    fn finish(self: Box<Self>, e: usize) -> (Report, Vec<Rec>, Vec<String>) {
        (self.f)(self.e, e)
    }
}

fn kk(k: &Key) -> (u32, u32, u32, bool) {
    (k.sess, k.att, k.epoch, k.init)
}

fn auc_sim<K: Kit, const K1: usize>(plan: &'static auc::Plan) -> Box<dyn Sim> {
    Box::new(Drive {
        e: auc::build::<K, K1>(plan, false),
        capped: false,
        f: |e, i| {
            let f = auc::finish(e);
            let recs = f
                .trs
                .iter()
                .map(|t| Rec {
                    e: i,
                    k: kk(&t.key),
                    sent: t.sent.iter().map(|b| hex(b)).collect(),
                    out: match &t.out {
                        auc::Out::Pending => "pending".into(),
                        auc::Out::Key(k) => format!("key {}", hex(k)),
                        o => format!("{o:?}"),
                    },
                    dropped: t.dropped,
                })
                .collect();
            (f.rep, recs, f.regs.iter().map(|(k, b)| format!("{k:016x} {}", hex(b))).collect())
        },
    })
}

fn make(v: &Value) -> Result<Box<dyn Sim>, String> {
    let e = |e: serde_json::Error| format!("invalid plan: {e}");
    match v["scn"].as_str() {
        Some("auc") => {
            let mut p: auc::Plan = serde_json::from_value(v.clone()).map_err(e)?;
            auc::validate(&p)?;
            // the choice is per thread, and worlds share theirs
            p.digest2 = false;
            let p: &'static auc::Plan = Box::leak(Box::new(p));
            Ok(match (p.scrypt, p.k32) {
                (false, _) if p.k20 => auc_sim::<SimKit, 20>(p),
                (false, false) => auc_sim::<SimKit, 16>(p),
                (false, true) => auc_sim::<SimKit, 32>(p),
                (true, false) => auc_sim::<ScryptKit, 16>(p),
                (true, true) => auc_sim::<ScryptKit, 32>(p),
            })
        }
        Some("spake") => {
            let p: spake::Plan = serde_json::from_value(v.clone()).map_err(e)?;
            spake::validate(&p)?;
            let p: &'static spake::Plan = Box::leak(Box::new(p));
            Ok(Box::new(Drive {
                e: spake::build(p, false),
                capped: false,
                f: |e, i| {
                    let (rep, trs) = spake::finish(e);
                    let recs = trs
                        .iter()
                        .map(|t| Rec {
                            e: i,
                            k: kk(&t.key),
                            sent: vec![hex(&t.sent)],
                            out: match &t.out {
                                spake::Out::Pending => "pending".into(),
                                spake::Out::Key(k) => format!("key {}", hex(k)),
                                o => format!("{o:?}"),
                            },
                            dropped: t.dropped,
                        })
                        .collect();
                    (rep, recs, vec![])
                },
            }))
        }
        Some("srp") => {
            let p: srp_sim::Plan = serde_json::from_value(v.clone()).map_err(e)?;
            srp_sim::validate(&p)?;
            let p: &'static srp_sim::Plan = Box::leak(Box::new(p));
            Ok(Box::new(Drive {
                e: srp_sim::build(p, false),
                capped: false,
                f: |e, i| {
                    let regs = e.p.registered().into_iter().map(|(u, v)| format!("{u:016x} {}", hex(&v))).collect();
                    let (rep, trs) = srp_sim::finish(e);
                    let recs = trs
                        .iter()
                        .map(|t| Rec {
                            e: i,
                            k: kk(&t.key),
                            sent: t.sent.iter().map(|b| hex(b)).collect(),
                            out: match &t.out {
                                srp_sim::Out::Pending => "pending".into(),
                                srp_sim::Out::Ok(k) => format!("key {}", hex(k)),
                                o => format!("{o:?}"),
                            },
                            dropped: t.dropped,
                        })
                        .collect();
                    (rep, recs, regs)
                },
            }))
        }
        _ => Err("invalid plan: world".into()),
    }
}

fn run_worlds(ws: &[Value], order: u64, a: &mut Answer, keep: bool) -> Result<(), String> {
    let mut sims = vec![];
    for w in ws {
        sims.push(make(w)?);
    }
    for s in sims.iter_mut() {
        s.begin();
    }
    let mut r = Prng::keyed(&[order, tag("order")]);
    let mut last = usize::MAX;
    loop {
        let live: Vec<usize> = (0..sims.len()).filter(|i| sims[*i].next_at().is_some()).collect();
        if live.is_empty() {
            break;
        }
        // simulated time order, or any other interleaving of the worlds
        let i = match order % 3 {
            0 => *live.iter().min_by_key(|i| sims[**i].next_at()).unwrap(),
            1 => *r.pick(&live),
            _ => {
                if last != usize::MAX && live.contains(&last) && !r.chance(12) {
                    last
                } else {
                    *r.pick(&live)
                }
            }
        };
        if i != last && last != usize::MAX {
            a.overlap += 1;
        }
        last = i;
        if keep {
            a.sched = mix(&[a.sched, i as u64]);
        }
        sims[i].step();
    }
    for (i, s) in sims.into_iter().enumerate() {
        let (rep, recs, regs) = s.finish(i);
        if keep {
            a.sched = mix(&[a.sched, rep.sched]);
            a.events += rep.events;
            a.sim_us += rep.sim_us;
            for (k, v) in rep.stats {
                *a.stats.entry(k.to_string()).or_insert(0) += v;
            }
            a.recs.extend(recs);
            a.regs.push(regs);
        }
    }
    Ok(())
}

fn serve(rq: &Request) -> Answer {
    let mut a = Answer::default();
    let r = run_worlds(&rq.warm, 1, &mut a, false).and_then(|()| {
        a.overlap = 0;
        run_worlds(&rq.worlds, rq.order, &mut a, true)
    });
    if let Err(e) = r {
        a.bad = Some(e);
    }
    a
}

/// `pakesim sub`: one execution, request on stdin, answer on stdout.
pub fn child() -> i32 {
    let mut s = String::new();
    if std::io::stdin().read_to_string(&mut s).is_err() {
        return 2;
    }
    let Ok(rq) = serde_json::from_str::<Request>(&s) else { return 2 };
    crate::osrng::virtualise(rq.os, rq.clock, rq.step.max(1), rq.pid, rq.env);
    crate::engine::TRANSCRIPTS_ONLY.store(true, std::sync::atomic::Ordering::Relaxed);
    let thread = rq.thread;
    let body = move || match crate::guarded(|| serve(&rq)) {
        Ok(a) => a,
        Err(crate::Exec::Panic(m)) => Answer { panic: Some(m), ..Default::default() },
        Err(crate::Exec::Bad(m)) => Answer { bad: Some(m), ..Default::default() },
        Err(_) => Answer::default(),
    };
    let mut a = if thread { std::thread::Builder::new().stack_size(16 << 20).spawn(body).ok().and_then(|h| h.join().ok()).unwrap_or_default() } else { body() };
    a.ambient = crate::osrng::AMBIENT.load(std::sync::atomic::Ordering::Relaxed);
    let o = serde_json::to_string(&a).unwrap_or_default();
    if std::io::stdout().write_all(o.as_bytes()).is_err() {
        return 2;
    }
    0
}

enum Child {
    Ok(Answer),
    Panic(String),
}

fn call(rq: &Request) -> Result<Child, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe)
        .arg("sub")
        .env("PAKESIM_AMBIENT", rq.os.to_string())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("spawn: {e}"))?;
    let mut i = c.stdin.take().ok_or("stdin")?;
    i.write_all(serde_json::to_string(rq).map_err(|e| e.to_string())?.as_bytes()).map_err(|e| e.to_string())?;
    drop(i);
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        use std::os::unix::process::ExitStatusExt;
        // the library took the process down (abort, stack overflow)
        if let Some(s) = o.status.signal() {
            if s != 9 {
                return Ok(Child::Panic(format!("the process running the sessions died on signal {s}")));
            }
        }
        return Err(format!("sub process: {}", o.status));
    }
    let a: Answer = serde_json::from_slice(&o.stdout).map_err(|e| format!("sub answer: {e}"))?;
    if let Some(b) = a.bad {
        return Err(b);
    }
    if let Some(p) = a.panic {
        return Ok(Child::Panic(p));
    }
    Ok(Child::Ok(a))
}

// ------------------------------------------------------------------------------- comparisons

fn at(v: &Value, i: usize, who: &str) -> u64 {
    v["sess"][i][who].as_u64().unwrap_or(0)
}

/// Is this endpoint run by real code?
fn real(w: &Value, k: &(u32, u32, u32, bool)) -> bool {
    let i = k.0 as usize;
    match w["scn"].as_str() {
        Some("auc") | Some("srp") => at(w, i, if k.3 { "ck" } else { "sk" }) == 0,
        _ => w["sess"][i][if k.3 { "i" } else { "a" }]["kind"].as_u64() == Some(0),
    }
}

fn name(w: &Value) -> &str {
    w["scn"].as_str().unwrap_or("?")
}

fn first_diff(a: &Rec, b: &Rec) -> Option<(&'static str, String)> {
    for (i, (x, y)) in a.sent.iter().zip(&b.sent).enumerate() {
        if x != y {
            return Some(("message", format!("message {i}: {x} against {y}")));
        }
    }
    if a.out != b.out {
        return Some(("result", format!("{} against {}", a.out, b.out)));
    }
    if a.sent.len() != b.sent.len() {
        return Some(("message-count", format!("{} messages against {}", a.sent.len(), b.sent.len())));
    }
    if a.dropped != b.dropped {
        return Some(("abandoned", format!("abandoned: {} against {}", a.dropped, b.dropped)));
    }
    None
}

fn who(w: &Value, r: &Rec) -> String {
    format!("{} session {} attempt {} ({})", name(w), r.k.0, r.k.1, if r.k.3 { "initiator" } else { "acceptor" })
}

fn intern(s: &str) -> &'static str {
    use std::sync::Mutex;
    static T: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut t = T.lock().unwrap();
    if let Some(x) = t.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(l);
    l
}

fn absorb(rep: &mut Report, a: &Answer) {
    for (k, v) in &a.stats {
        rep.add(intern(k), *v);
    }
    rep.events += a.events;
    rep.sim_us = rep.sim_us.max(a.sim_us);
    rep.sched = mix(&[rep.sched, a.sched]);
    for r in &a.recs {
        rep.dig(&[r.e as u64, r.k.0 as u64, r.k.1 as u64, r.k.2 as u64, r.k.3 as u64]);
        for s in &r.sent {
            rep.dig_bytes(s.as_bytes());
        }
        rep.dig_bytes(r.out.as_bytes());
    }
    for r in a.regs.iter().flatten() {
        rep.dig_bytes(r.as_bytes());
    }
}

fn request(v: &Value) -> Request {
    let s = v["seed"].as_u64().unwrap_or(0);
    Request {
        worlds: v["worlds"].as_array().cloned().unwrap_or_default(),
        warm: vec![],
        order: v["order"].as_u64().unwrap_or(0),
        os: mix(&[s, 1]),
        clock: 1_700_000_000_000_000_000 + mix(&[s, 2]) % (1 << 55),
        step: 1000,
        pid: 2 + mix(&[s, 3]) % 30000,
        env: 0,
        thread: false,
    }
}

/// Only session `i` of world `w` runs.
fn alone(v: &Value, w: usize, i: usize) -> Request {
    let mut rq = request(v);
    for (wi, x) in rq.worlds.iter_mut().enumerate() {
        if wi != w {
            continue;
        }
        // other people's records are only left in place if the attacker names them
        let names: Option<String> = x["sess"][i]["user"].as_str().map(|s| s.to_string());
        let renamed = x["tampers"].as_array().is_some_and(|t| t.iter().any(|t| t["sess"] == json!(i)));
        if let Some(a) = x["sess"].as_array_mut() {
            for (j, s) in a.iter_mut().enumerate() {
                if j != i {
                    s["max_att"] = json!(0);
                }
            }
        }
        if name(x) == "srp" {
            let mine = x["sess"][i]["user"].as_u64();
            if let Some(us) = x["users"].as_array_mut() {
                for (j, u) in us.iter_mut().enumerate() {
                    if Some(j as u64) != mine {
                        u["off"] = json!(true);
                    }
                }
            }
        }
        if name(x) == "auc" && !renamed {
            if let (Some(n), Some(us)) = (names, x["users"].as_array_mut()) {
                for u in us {
                    if u["name"].as_str() != Some(&n) {
                        for f in ["plain", "strong", "keypair"] {
                            u[f] = json!(false);
                        }
                    }
                }
            }
        }
    }
    rq.worlds = vec![rq.worlds[w].clone()];
    rq.order = 0;
    rq
}

fn x01(v: &Value, rep: &mut Report) -> Result<(), String> {
    let rq = request(v);
    let all = match call(&rq)? {
        Child::Ok(a) => a,
        Child::Panic(m) => {
            rep.viol(&["X01"], "panic", m);
            return Ok(());
        }
    };
    absorb(rep, &all);
    let mut list: Vec<(usize, usize)> = vec![];
    for (w, x) in rq.worlds.iter().enumerate() {
        for i in 0..x["sess"].as_array().map_or(0, |a| a.len()) {
            if at(x, i, "max_att") > 0 {
                list.push((w, i));
            }
        }
    }
    let total = list.len();
    let mut r = Prng::keyed(&[v["seed"].as_u64().unwrap_or(0), tag("alone")]);
    let cap = v["alone"].as_u64().unwrap_or(6) as usize;
    while list.len() > cap.max(1) {
        let i = r.us(list.len());
        list.swap_remove(i);
    }
    list.sort();
    rep.nontrivial = total >= 2 && (all.overlap > 0 || rq.worlds.len() == 1);
    rep.add("world_switches", all.overlap);
    for (w, i) in list {
        let one = match call(&alone(v, w, i))? {
            Child::Ok(a) => a,
            Child::Panic(m) => {
                rep.viol(&["X01"], "panic", m);
                continue;
            }
        };
        rep.count("session_replayed_alone");
        rep.events += one.events;
        let a: BTreeMap<_, &Rec> = all.recs.iter().filter(|r| r.e == w && r.k.0 == i as u32).map(|r| (r.k, r)).collect();
        let b: BTreeMap<_, &Rec> = one.recs.iter().map(|r| (r.k, r)).collect();
        // a session's frames meet the same fate alone and in company, so everything must agree
        for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
            match (a.get(k), b.get(k)) {
                (Some(x), Some(y)) => {
                    if let Some((what, d)) = first_diff(x, y) {
                        let wv = &rq.worlds[w];
                        rep.viol(&["X01"], format!("session-differs:{}:{what}", name(wv)), format!("{} in company against alone: {d}", who(wv, x)));
                    }
                }
                (x, y) => {
                    let p = x.or(y).unwrap();
                    let wv = &rq.worlds[w];
                    rep.viol(&["X01"], format!("session-differs:{}:endpoint", name(wv)), format!("{} exists only {}", who(wv, p), if x.is_some() { "in company" } else { "alone" }));
                }
            }
        }
        let (wv, none) = (&rq.worlds[w], vec![]);
        let company: BTreeSet<&String> = all.regs.get(w).unwrap_or(&none).iter().collect();
        for g in one.regs.first().unwrap_or(&none) {
            rep.count("registration_replayed_alone");
            if !company.contains(g) {
                rep.viol(&["X01"], format!("registration-differs:{}", name(wv)), format!("{} registration {g} (made alone) comes out otherwise in company", name(wv)));
            }
        }
        rep.log(|| format!("{} session {i}: {} endpoints compared", name(&rq.worlds[w]), a.len()));
    }
    Ok(())
}

fn same(rep: &mut Report, rq: &Request, what: &'static str, a: &Answer, b: &Answer) {
    let x: BTreeMap<_, &Rec> = a.recs.iter().map(|r| ((r.e, r.k), r)).collect();
    let y: BTreeMap<_, &Rec> = b.recs.iter().map(|r| ((r.e, r.k), r)).collect();
    for (w, (p, q)) in a.regs.iter().zip(&b.regs).enumerate() {
        if p != q {
            let i = p.iter().zip(q).position(|(s, t)| s != t);
            rep.viol(&["X02"], format!("{what}:registration"), format!("world {w}: registration message {i:?} differs between two executions with the same inputs and streams"));
        }
    }
    for k in x.keys().chain(y.keys()).collect::<BTreeSet<_>>() {
        match (x.get(k), y.get(k)) {
            (Some(r), Some(s)) => {
                if let Some((f, d)) = first_diff(r, s) {
                    let w = &rq.worlds[k.0];
                    rep.viol(&["X02"], format!("{what}:{}:{f}", name(w)), format!("{}: {d} ({what})", who(w, r)));
                }
            }
            (r, s) => {
                let p = r.or(s).unwrap();
                let w = &rq.worlds[k.0];
                rep.viol(&["X02"], format!("{what}:{}:endpoint", name(w)), format!("{} exists in one execution only ({what})", who(w, p)));
            }
        }
    }
}

fn fixed_ephemerals(w: &Value, i: usize) -> bool {
    name(w) == "srp" && (w["sess"][i]["a"].as_str() != Some("x:") || w["sess"][i]["b"].as_str() != Some("x:") || at(w, i, "alen") < 16 || at(w, i, "blen") < 16)
}

/// With other random streams nothing secret-dependent may come out the same.
fn fresh(rep: &mut Report, rq: &Request, a: &Answer, b: &Answer) {
    let y: BTreeMap<_, &Rec> = b.recs.iter().map(|r| ((r.e, r.k), r)).collect();
    for r in &a.recs {
        let w = &rq.worlds[r.e];
        if !real(w, &r.k) || fixed_ephemerals(w, r.k.0 as usize) {
            continue;
        }
        let Some(s) = y.get(&(r.e, r.k)) else { continue };
        if r.out.starts_with("key ") && r.out == s.out {
            rep.viol(&["X02"], format!("stream-ignored:{}:key", name(w)), format!("{}: same key {} from different random streams", who(w, r), r.out));
        }
        for (i, m) in r.sent.iter().enumerate() {
            // the plain username message carries no secret
            if name(w) == "auc" && r.k.3 && !w["sess"][r.k.0 as usize]["strong"].as_bool().unwrap_or(false) {
                let pre = !w["sess"][r.k.0 as usize]["ssid"].is_null();
                if i == if pre { 0 } else { 1 } {
                    continue;
                }
            }
            if m.len() > 8 && s.sent.get(i) == Some(m) {
                rep.viol(&["X02"], format!("stream-ignored:{}:message", name(w)), format!("{}: message {i} is {m} whatever the random stream", who(w, r)));
            }
        }
    }
    for (w, (p, q)) in a.regs.iter().zip(&b.regs).enumerate() {
        if name(&rq.worlds[w]) != "auc" {
            continue;
        }
        for (i, (m, n)) in p.iter().zip(q).enumerate() {
            if m == n {
                rep.viol(&["X02"], "stream-ignored:registration", format!("world {w}: registration {i} is the same from different random streams"));
            }
        }
    }
}

fn x02(v: &Value, rep: &mut Report) -> Result<(), String> {
    let rq = request(v);
    let s = v["seed"].as_u64().unwrap_or(0);
    let go = |rq: &Request, rep: &mut Report| -> Result<Option<Answer>, String> {
        match call(rq)? {
            Child::Ok(a) => Ok(Some(a)),
            Child::Panic(m) => {
                rep.viol(&["X02"], "panic", m);
                Ok(None)
            }
        }
    };
    let Some(base) = go(&rq, rep)? else { return Ok(()) };
    absorb(rep, &base);
    rep.nontrivial = base.recs.iter().any(|r| r.out.starts_with("key "));
    // other ambient inputs: OS randomness, clock, process id, environment, thread
    let amb = Request { os: mix(&[s, 11]), clock: mix(&[s, 12]) % (1 << 60), step: 1_000_000_007, pid: 2 + mix(&[s, 13]) % 30000, env: (mix(&[s, 16]) >> 8) | 1, thread: true, ..rq.clone() };
    if let Some(a) = go(&amb, rep)? {
        rep.count("repeated_with_other_ambient_inputs");
        same(rep, &rq, "ambient-dependence", &base, &a);
    }
    let ord = Request { order: mix(&[s, 14]) >> 8, ..rq.clone() };
    if let Some(a) = go(&ord, rep)? {
        rep.count("repeated_with_other_interleaving");
        same(rep, &rq, "order-dependence", &base, &a);
    }
    let warm: Vec<Value> = v["warm"].as_array().cloned().unwrap_or_default();
    if !warm.is_empty() {
        let w = Request { warm, ..rq.clone() };
        if let Some(a) = go(&w, rep)? {
            rep.count("repeated_after_other_activity");
            same(rep, &rq, "history-dependence", &base, &a);
        }
    }
    let mut salted = rq.clone();
    for w in salted.worlds.iter_mut() {
        w["salt"] = json!(mix(&[s, 15]) >> 16 | 1);
    }
    if let Some(a) = go(&salted, rep)? {
        rep.count("repeated_with_other_streams");
        fresh(rep, &rq, &base, &a);
    }
    Ok(())
}

// ------------------------------------------------------------------------------- entry points

pub fn run(v: &Value, trace: bool) -> Result<Report, String> {
    let mut rep = Report { trace: if trace { Some(vec![]) } else { None }, ..Default::default() };
    let n = v["worlds"].as_array().map_or(0, |a| a.len());
    if n > 8 {
        return Err("invalid plan: worlds".into());
    }
    match v["prop"].as_str() {
        Some("X01") => x01(v, &mut rep)?,
        _ => x02(v, &mut rep)?,
    }
    rep.dig(&[hash_bytes(format!("{:?}", rep.viols).as_bytes())]);
    Ok(rep)
}

/// Remove everything by which one session legitimately influences another.
fn strip(mut w: Value, r: &mut Prng, max: usize, salted: bool) -> Value {
    let scn = w["scn"].as_str().unwrap_or("").to_string();
    w["ops"] = json!([]);
    w["probes"] = json!([]);
    if let Some(a) = w["sess"].as_array_mut() {
        a.truncate(max);
        let n = a.len().max(1) as u64;
        // bring the sessions close together
        let gap = *r.pick(&[0u64, 3, 40, 300]);
        for (i, s) in a.iter_mut().enumerate() {
            s["start_ms"] = json!(r.below(gap * n + 1) + i as u64 % 2);
            if at_u(s, "max_att") > 3 {
                s["max_att"] = json!(3);
            }
            for f in ["ck", "sk"] {
                if s[f].as_u64() == Some(2) {
                    s[f] = json!(0);
                }
            }
            for f in ["i", "a"] {
                if s[f]["kind"].as_u64() == Some(2) {
                    s[f]["kind"] = json!(0);
                }
            }
            if s.get("register").is_some() {
                s["register"] = json!(false);
            }
            if salted && scn == "srp" {
                s["a"] = json!("x:");
                s["b"] = json!("x:");
                for f in ["alen", "blen"] {
                    s[f] = json!(at_u(s, f).max(16));
                }
            }
        }
    }
    if salted && w.get("rngf").is_some() {
        w["rngf"] = json!([]);
    }
    if let Some(u) = w["users"].as_array_mut() {
        for u in u {
            if scn == "srp" && u["group"].as_u64().unwrap_or(0) > 3 {
                u["group"] = json!(r.below(3));
            }
        }
    }
    if let Some(t) = w["tampers"].as_array_mut() {
        t.retain(|t| t["op"].get("Splice").is_none());
    }
    if let Some(c) = w["crashes"].as_array_mut() {
        for c in c.iter_mut() {
            if !c["on"].is_null() {
                c["on"] = Value::Null;
                c["at"] = json!(r.below(600));
            }
        }
    }
    w
}

fn at_u(s: &Value, f: &str) -> u64 {
    s[f].as_u64().unwrap_or(0)
}

fn world(r: &mut Prng, which: u64, thorough: bool, salted: bool, max: usize) -> Value {
    let seed = r.next() >> 8;
    let (scn, v) = match which {
        0 => ("auc", auc::gen(*r.pick(&["A01", "A01", "A02", "A03", "A07", "A10", "A06", "A12", "A05"]), seed, false)),
        1 => ("spake", spake::gen(*r.pick(&["S01", "S01", "S02", "S03", "S04"]), seed, false)),
        _ => ("srp", srp_sim::gen(*r.pick(&["R01", "R01", "R02", "R04", "R05", "R06"]), seed, false)),
    };
    let _ = thorough;
    let mut v = v;
    v["scn"] = json!(scn);
    strip(v, r, max, salted)
}

fn near(r: &mut Prng, v: &mut Value) {
    if let Some(b) = v.as_str().and_then(|s| s.strip_prefix("x:")).and_then(crate::util::unhex) {
        *v = json!(format!("x:{}", hex(&crate::util::near_miss(r, &b))));
    }
}

fn bytes(v: &Value) -> usize {
    v.as_str().map_or(0, |s| s.len().saturating_sub(2) / 2)
}

fn flip(v: &mut Value) {
    *v = json!(!v.as_bool().unwrap_or(false));
}

/// Add a copy of a session (same random streams) that differs in one input or in none.
fn twin(r: &mut Prng, w: &mut Value, salted: bool) {
    let n = w["sess"].as_array().map_or(0, |a| a.len());
    if n == 0 || n > 12 {
        return;
    }
    let i = r.us(n);
    let mut s = w["sess"][i].clone();
    if s["twin"].is_null() {
        s["twin"] = json!(i);
    }
    s["start_ms"] = json!(at_u(&s, "start_ms") + r.below(2) * r.below(30));
    let scn = w["scn"].as_str().unwrap_or("").to_string();
    match scn.as_str() {
        "auc" => {
            match r.below(10) {
                0 => flip(&mut s["strong"]),
                1 => flip(&mut s["partial"]),
                2 => flip(&mut s["explicit"]),
                3 => near(r, &mut s["pw"]),
                4 => {
                    near(r, &mut s["ci_c"]);
                    s["ci_s"] = s["ci_c"].clone();
                }
                5 => {
                    if s["ssid"].is_null() {
                        let b = format!("x:{}", hex(&r.bytes(24)));
                        s["ssid"] = json!([b, b]);
                    } else if r.chance(50) {
                        s["ssid"] = Value::Null;
                    } else {
                        let mut b = crate::util::unhex(&s["ssid"][0].as_str().unwrap_or("x:")[2..]).unwrap_or_default();
                        b.push(r.next() as u8);
                        let b = format!("x:{}", hex(&b));
                        s["ssid"] = json!([b, b]);
                    }
                }
                6 => {
                    if let Some(us) = w["users"].as_array() {
                        if !us.is_empty() {
                            s["user"] = r.pick(us)["name"].clone();
                        }
                    }
                }
                7 => flip(&mut s["late"]),
                8 => s["codec"] = json!(1 - at_u(&s, "codec").min(1)),
                _ => {}
            }
            let need = bytes(&s["user"]) + bytes(&s["pw"]) + 1;
            let fit: Vec<u64> = (0..=6).filter(|a| auc::buf_len(*a as u8).is_none_or(|l| l >= need)).collect();
            s["api"] = json!(*r.pick(&fit));
        }
        "spake" => match r.below(8) {
            0 => {
                near(r, &mut s["i"]["pw"]);
                s["a"]["pw"] = s["i"]["pw"].clone();
            }
            1 => {
                near(r, &mut s["i"]["ida"]);
                s["a"]["ida"] = s["i"]["ida"].clone();
            }
            2 => {
                near(r, &mut s["i"]["idb"]);
                s["a"]["idb"] = s["i"]["idb"].clone();
            }
            3 => {
                let (x, y) = *r.pick(&[(0, 1), (1, 0), (2, 2)]);
                s["i"]["role"] = json!(x);
                s["a"]["role"] = json!(y);
            }
            4 => {
                let f = *r.pick(&["i", "a"]);
                flip(&mut s[f]["os"]);
            }
            5 => {
                for p in ["i", "a"] {
                    let (x, y) = (s[p]["ida"].clone(), s[p]["idb"].clone());
                    s[p]["ida"] = y;
                    s[p]["idb"] = x;
                }
            }
            6 => near(r, &mut s["a"]["pw"]),
            _ => {}
        },
        _ => {
            let u = at_u(&s, "user") as usize;
            match r.below(8) {
                0..=4 => {
                    // the same person registered with one thing changed
                    let mut nu = w["users"][u].clone();
                    match r.below(5) {
                        0 | 1 => {
                            let g = at_u(&nu, "group");
                            let all: Vec<u64> = (0..3).chain(if salted { 0..0 } else { 10..20 }).filter(|x| *x != g).collect();
                            nu["group"] = json!(*r.pick(&all));
                        }
                        2 => near(r, &mut nu["salt"]),
                        3 => {
                            let h: Vec<&str> = ["Sha1", "Sha256", "Sha512"].into_iter().filter(|h| nu["hash"].as_str() != Some(h)).collect();
                            nu["hash"] = json!(*r.pick(&h));
                        }
                        _ => {
                            near(r, &mut nu["pw"]);
                            s["pw"] = nu["pw"].clone();
                        }
                    }
                    if let Some(us) = w["users"].as_array_mut() {
                        s["user"] = json!(us.len());
                        us.push(nu);
                    }
                }
                5 => near(r, &mut s["pw"]),
                6 => near(r, &mut s["name"]),
                _ => {}
            }
        }
    }
    if let Some(a) = w["sess"].as_array_mut() {
        a.push(s);
    }
}

/// The same world with one of its constants changed.
fn vary_world(r: &mut Prng, w: &mut Value, salted: bool) {
    match w["scn"].as_str() {
        Some("auc") => match r.below(4) {
            0 => flip(&mut w["k32"]),
            1 => flip(&mut w["scrypt"]),
            2 => {
                if let Some(us) = w["users"].as_array_mut() {
                    for u in us {
                        let c = at_u(&u["p"], "c");
                        u["p"]["c"] = json!(c + 1);
                    }
                }
            }
            _ => {}
        },
        Some("srp") => {
            if let Some(us) = w["users"].as_array_mut() {
                let g = r.below(2);
                for u in us {
                    match g {
                        0 => u["hash"] = json!(*r.pick(&["Sha1", "Sha256", "Sha512"])),
                        _ => u["group"] = json!(if salted { r.below(3) } else { 14 + r.below(6) }),
                    }
                }
            }
        }
        _ => {}
    }
}

pub fn gen(prop: &str, seed: u64, thorough: bool) -> Value {
    let mut r = Prng::keyed(&[seed, tag("cross"), tag(prop)]);
    let r = &mut r;
    let salted = prop == "X02";
    let max = if thorough { 6 } else { 4 };
    let mut worlds = vec![];
    let picks: &[u64] = match r.below(8) {
        0 => &[0],
        1 => &[1],
        2 => &[2],
        3 => &[0, 0],
        4 => &[0, 1],
        5 => &[1, 2],
        _ => &[0, 1, 2],
    };
    for p in picks {
        worlds.push(world(r, *p, thorough, salted, max));
    }
    // the same inputs and streams once more, or with one of them changed
    if r.chance(70) {
        for _ in 0..r.range(1, 3) {
            let w = r.us(worlds.len());
            twin(r, &mut worlds[w], salted);
        }
    }
    if worlds.len() < 4 && r.chance(30) {
        let mut w = r.pick(&worlds).clone();
        vary_world(r, &mut w, salted);
        worlds.push(w);
    }
    let mut warm = vec![];
    if salted {
        for _ in 0..r.range(1, 2) {
            if r.chance(50) {
                // the same sessions, with other streams, just before
                let mut w = r.pick(&worlds).clone();
                w["salt"] = json!(r.next() >> 16);
                warm.push(w);
            } else {
                let p = r.below(3);
                warm.push(world(r, p, false, salted, 3));
            }
        }
    }
    json!({"seed": seed, "order": r.next() >> 8, "alone": if thorough { 12 } else { 5 }, "worlds": worlds, "warm": warm})
}
