//! pakesim: deterministic simulation with fault injection for RustCrypto/PAKEs.
mod auc;
mod auc_gen;
mod auc_oracle;
mod kit;
mod codec;
mod cross;
mod engine;
mod fresh;
mod osrng;
mod primes;
mod reference;
mod rng;
mod shrink;
mod spake;
mod srp_sim;
mod util;

use engine::Report;
use rng::{mix, tag, Prng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: &'static str,
    pub gen: fn(&str, u64, bool) -> Value,
    pub run: fn(&Value, bool) -> Result<Report, String>,
}

static SCENARIOS: &[Scenario] = &[
    Scenario { name: "auc", gen: auc::gen, run: auc::run },
    Scenario { name: "codec", gen: codec::gen, run: codec::run },
    Scenario { name: "fresh", gen: fresh::gen, run: fresh::run },
    Scenario { name: "spake", gen: spake::gen, run: spake::run },
    Scenario { name: "srp", gen: srp_sim::gen, run: srp_sim::run },
    Scenario { name: "cross", gen: cross::gen, run: cross::run },
];

struct Prof {
    id: &'static str,
    mix: &'static [(&'static str, u64)],
    runs: u64,
    rule: &'static str,
}

static PROFILES: &[Prof] = &[
    Prof { id: "A01", mix: &[("auc", 100)], runs: 24000, rule: "one evaluation is one simulated run (several sessions, nodes and faults from one seed); non-trivial: at least one session between matching parties completed" },
    Prof { id: "A02", mix: &[("auc", 100)], runs: 9000, rule: "one simulated run; non-trivial: the attacker changed at least one payload or two parties' inputs differed, and the affected party received it" },
    Prof { id: "A03", mix: &[("auc", 100)], runs: 9000, rule: "one simulated run with implicit authentication; non-trivial: at least two keys were derived and compared" },
    Prof { id: "A04", mix: &[("auc", 100)], runs: 36000, rule: "one simulated run; non-trivial: at least one neutral element reached a party" },
    Prof { id: "A05", mix: &[("fresh", 70), ("auc", 30)], runs: 6000, rule: "one simulated run; non-trivial: secrets of several sessions compared, stream bytes perturbed, or recorded sessions replayed" },
    Prof { id: "A06", mix: &[("auc", 90), ("fresh", 10)], runs: 3600, rule: "one simulated run; non-trivial: at least one query for an unknown user was answered" },
    Prof { id: "A07", mix: &[("auc", 100)], runs: 30000, rule: "one simulated run; non-trivial: at least one hasher, buffer or database failure fired inside a library call" },
    Prof { id: "A08", mix: &[("auc", 100)], runs: 18000, rule: "one simulated run; non-trivial: a credential change, stale read or crash overlapped a login" },
    Prof { id: "A09", mix: &[("codec", 100)], runs: 60000, rule: "one simulated byte-stream run; non-trivial: at least one message was encoded, cut or damaged and decoded" },
    Prof { id: "A10", mix: &[("auc", 100)], runs: 50000, rule: "one simulated run with pre-established SSIDs; non-trivial: a short, truncated or differing SSID was presented" },
    Prof { id: "A11", mix: &[("auc", 100)], runs: 7000, rule: "one simulated run; non-trivial: payloads and renderings of at least one session were scanned for its secrets" },
    Prof { id: "A12", mix: &[("auc", 100)], runs: 50000, rule: "one simulated run; non-trivial: at least one session with the independent peer completed or one registration was recomputed" },
    Prof { id: "S01", mix: &[("spake", 100)], runs: 26000, rule: "one simulated run; non-trivial: at least one honest exchange finished on both sides" },
    Prof { id: "S02", mix: &[("spake", 100)], runs: 20000, rule: "one simulated run; non-trivial: keys of non-matching parties were compared" },
    Prof { id: "S03", mix: &[("spake", 100)], runs: 16000, rule: "one simulated run; non-trivial: a damaged or foreign message was delivered" },
    Prof { id: "S04", mix: &[("spake", 100)], runs: 24000, rule: "one simulated run; non-trivial: an exchange with the independent peer finished" },
    Prof { id: "S05", mix: &[("spake", 40), ("fresh", 60)], runs: 5000, rule: "one simulated run; non-trivial: messages of several sessions compared, stream bytes perturbed, or old messages replayed" },
    Prof { id: "S06", mix: &[("spake", 100)], runs: 12000, rule: "one simulated run; non-trivial: outputs and renderings of at least one session were scanned" },
    Prof { id: "R01", mix: &[("srp", 100)], runs: 18000, rule: "one simulated run; non-trivial: at least one honest login finished with both proofs" },
    Prof { id: "R02", mix: &[("srp", 100)], runs: 9000, rule: "one simulated run; non-trivial: a wrong credential or a changed message reached a party" },
    Prof { id: "R03", mix: &[("srp", 100)], runs: 18000, rule: "one simulated run; non-trivial: a public value congruent to zero (or next to it) was delivered" },
    Prof { id: "R04", mix: &[("srp", 100)], runs: 18000, rule: "one simulated run; non-trivial: a party was rebuilt from stored secrets within a session" },
    Prof { id: "R05", mix: &[("srp", 100)], runs: 6000, rule: "one simulated run; non-trivial: a login with the independent peer finished" },
    Prof { id: "R06", mix: &[("srp", 100)], runs: 30000, rule: "one simulated run; non-trivial: at least one damaged proof was presented" },
    Prof { id: "X01", mix: &[("cross", 100)], runs: 6000, rule: "one simulated multi-protocol run with each session re-run alone; non-trivial: at least two sessions overlapped in time" },
    Prof { id: "X02", mix: &[("cross", 100)], runs: 2000, rule: "one simulated multi-protocol run executed several times; non-trivial: at least one session finished" },
];

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// A plan for display: long byte strings cut.
fn shorten(v: &Value) -> Value {
    match v {
        Value::String(s) if s.len() > 400 => Value::String(format!("{}... ({} characters)", &s[..s.char_indices().nth(200).map_or(0, |x| x.0)], s.len())),
        Value::Array(a) => Value::Array(a.iter().map(shorten).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), shorten(v))).collect()),
        _ => v.clone(),
    }
}

/// Outcome of executing a plan.
pub enum Exec {
    Ok(Report),
    /// the code under test panicked
    Panic(String),
    /// harness problem
    Bad(String),
}

pub fn exec(plan: &Value, trace: bool) -> Exec {
    let name = plan["scn"].as_str().unwrap_or("");
    let Some(s) = SCENARIOS.iter().find(|s| s.name == name) else {
        return Exec::Bad(format!("unknown scenario {name:?}"));
    };
    match guarded(|| (s.run)(plan, trace)) {
        Ok(Ok(r)) => Exec::Ok(r),
        Ok(Err(e)) => Exec::Bad(e),
        Err(e) => e,
    }
}

/// Run `f`, telling a panic of the code under test from one of the harness.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Exec> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        if loc.starts_with("src/") && !msg.starts_with("HARNESS-RNG-RUNAWAY") && !msg.starts_with("MESSAGE-ENCODE") {
            Exec::Bad(format!("harness panic at {loc}: {msg}"))
        } else {
            Exec::Panic(format!("panic at {loc}: {msg}"))
        }
    })
}

/// Violations of `prop` shown by a plan: (class, message)
pub fn judge(prop: &str, plan: &Value, known: &HashSet<(String, String)>, trace: bool) -> Result<(Vec<(String, String)>, Report), String> {
    match exec(plan, trace) {
        Exec::Ok(r) => {
            let mut v: Vec<(String, String)> = r
                .viols
                .iter()
                .filter(|v| v.props.contains(&prop))
                .map(|v| (v.class.clone(), v.msg.clone()))
                .collect();
            for (p, k, m) in &r.finds {
                if *p == prop && !known.contains(&(p.to_string(), k.to_string())) {
                    v.push((format!("finding:{k}"), m.clone()));
                }
            }
            Ok((v, r))
        }
        Exec::Panic(m) => Ok((vec![("panic".into(), m)], Report::default())),
        Exec::Bad(e) => Err(e),
    }
}

fn root() -> PathBuf {
    if let Ok(r) = std::env::var("PAKESIM_ROOT") {
        return PathBuf::from(r);
    }
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn load_known(prop: Option<&str>) -> HashSet<(String, String)> {
    let mut s = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(root().join("known-findings.txt")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("known:") {
                let mut p = None;
                let mut k = None;
                for w in rest.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        p = p.or(Some(x.to_string()));
                    }
                    if let Some(x) = w.strip_prefix("key=") {
                        k = k.or(Some(x.to_string()));
                    }
                }
                if let (Some(p), Some(k)) = (p, k) {
                    if prop.is_none_or(|q| q == p) {
                        s.insert((p, k));
                    }
                }
            }
        }
    }
    s
}

pub fn gen_plan(prop: &str, seed: u64, idx: u64, thorough: bool) -> Value {
    let prof = PROFILES.iter().find(|p| p.id == prop).expect("profile");
    let ps = mix(&[seed, tag(prop), idx]);
    let mut r = Prng::keyed(&[ps, 0x5c3]);
    let total: u64 = prof.mix.iter().map(|m| m.1).sum();
    let mut x = r.below(total);
    let mut name = prof.mix[0].0;
    for (n, w) in prof.mix {
        if x < *w {
            name = n;
            break;
        }
        x -= w;
    }
    let s = SCENARIOS.iter().find(|s| s.name == name).unwrap();
    let mut v = (s.gen)(prop, ps, thorough);
    v["scn"] = json!(name);
    v["prop"] = json!(prop);
    v
}

#[derive(Default)]
struct Agg {
    rep: Report,
    evals: u64,
    nontrivial: HashSet<u64>,
    scheds: HashSet<u64>,
    finds: BTreeMap<(String, String), String>,
    nondet: u64,
    samples: Vec<Value>,
    scn: BTreeMap<String, u64>,
    /// violations of other properties seen on the way: how often, in which run first
    others: BTreeMap<String, (u64, u64, String)>,
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => cmd_check(&args),
        Some("replay") => cmd_replay(&args),
        Some("plan") => {
            let p = arg(&args, "--property").unwrap();
            let seed = arg(&args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
            let i = arg(&args, "--index").map(|s| s.parse().unwrap()).unwrap_or(0);
            println!("{}", serde_json::to_string_pretty(&json!({"property": p, "class": "", "plan": gen_plan(&p, seed, i, false)})).unwrap());
            0
        }
        Some("digests") => cmd_digests(&args),
        Some("sub") => cross::child(),
        _ => {
            eprintln!("usage: pakesim check --property ID [--tier quick|thorough] [--seed N] [--runs N] [--jobs N] | replay FILE | plan | digests");
            2
        }
    };
    std::process::exit(code);
}

/// Print the digest of every run (determinism comparisons across processes and worker counts).
fn cmd_digests(args: &[String]) -> i32 {
    let prop = arg(args, "--property").unwrap();
    let seed: u64 = arg(args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let runs: u64 = arg(args, "--runs").map(|s| s.parse().unwrap()).unwrap_or(200);
    let jobs: usize = arg(args, "--jobs").map(|s| s.parse().unwrap()).unwrap_or(4);
    let next = AtomicU64::new(0);
    let out = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= runs {
                    break;
                }
                let l = match exec(&gen_plan(&prop, seed, i, false), false) {
                    Exec::Ok(r) => format!("{i} {:016x} {:016x} {} {}", r.digest, r.sched, r.events, r.viols.len()),
                    Exec::Panic(m) => format!("{i} PANIC {m}"),
                    Exec::Bad(m) => format!("{i} BAD {m}"),
                };
                out.lock().unwrap().insert(i, l);
            });
        }
    });
    for l in out.into_inner().unwrap().values() {
        println!("{l}");
    }
    0
}

fn cmd_replay(args: &[String]) -> i32 {
    let Some(f) = args.get(1) else { return 2 };
    let Ok(t) = std::fs::read_to_string(f) else {
        eprintln!("cannot read {f}");
        return 2;
    };
    let Ok(v) = serde_json::from_str::<Value>(&t) else {
        eprintln!("not a replay file");
        return 2;
    };
    let build = v["build"].as_str().unwrap_or("release");
    if build != build_name() {
        let Some(exe) = sibling(build) else {
            eprintln!("the {build} build is missing");
            return 2;
        };
        return std::process::Command::new(exe).args(args).status().ok().and_then(|s| s.code()).unwrap_or(2);
    }
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let known = load_known(Some(&prop));
    let quiet = args.iter().any(|a| a == "--quiet");
    match judge(&prop, &v["plan"], &known, !quiet) {
        Err(e) => {
            eprintln!("harness error: {e}");
            2
        }
        Ok((vs, rep)) => {
            if !quiet {
                for l in rep.trace.iter().flatten() {
                    println!("{l}");
                }
                println!("digest {:016x} events {} simulated {} us", rep.digest, rep.events, rep.sim_us);
                for o in &rep.viols {
                    println!("oracle {:?} [{}] {}", o.props, o.class, o.msg);
                }
                for o in &rep.finds {
                    println!("finding {:?}", o);
                }
            }
            let want = v["class"].as_str().unwrap_or("");
            for (c, m) in &vs {
                println!("violation class={c}: {m}");
            }
            if vs.iter().any(|x| want.is_empty() || x.0 == want) {
                println!("VIOLATION property={prop} replay={f}");
                1
            } else {
                println!("no violation reproduced");
                0
            }
        }
    }
}

/// Which of the two builds of the code under test this process holds: `release` (no debug
/// assertions, wrapping arithmetic, as shipped) or `dbg` (both checks on, as in development).
fn build_name() -> &'static str {
    match std::env::current_exe().ok().and_then(|e| e.parent().and_then(|d| d.file_name().map(|n| n == "dbg"))) {
        Some(true) => "dbg",
        _ => "release",
    }
}

/// The binary holding the other build.
fn sibling(build: &str) -> Option<PathBuf> {
    let e = std::env::current_exe().ok()?;
    let p = e.parent()?.parent()?.join(build).join(e.file_name()?);
    p.exists().then_some(p)
}

/// Every third run is executed by the build with debug assertions.
fn is_dbg_run(i: u64) -> bool {
    i % 3 == 2
}

type Found = (u64, Value, String, String);

struct Search<'a> {
    prof: &'a Prof,
    thorough: bool,
    seed: u64,
    jobs: usize,
    max_runs: u64,
    wall: Duration,
    known: &'a HashSet<(String, String)>,
    mine: &'a (dyn Fn(u64) -> bool + Sync),
    /// called with the index of a run that does not end
    hung: &'a (dyn Fn(u64) + Sync),
}

impl Search<'_> {
    fn go(&self) -> Result<(Agg, Vec<Found>, Duration), String> {
        let Search { thorough, seed, jobs, max_runs, wall, known, mine, hung, .. } = *self;
        let prop = self.prof.id;
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let best = AtomicU64::new(u64::MAX);
        let agg = Mutex::new(Agg::default());
        let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
        let bad: Mutex<Option<String>> = Mutex::new(None);
        let slots: Vec<(AtomicU64, AtomicU64)> = (0..jobs).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let done = AtomicU64::new(0);

        std::thread::scope(|sc| {
            for j in 0..jobs {
                let (next, stop, best, agg, found, bad, slots, done) = (&next, &stop, &best, &agg, &found, &bad, &slots, &done);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local = Agg::default();
                        loop {
                            if stop.load(Ordering::SeqCst) || t0.elapsed() > wall {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= max_runs || i > best.load(Ordering::SeqCst) {
                                break;
                            }
                            if !mine(i) {
                                continue;
                            }
                            let plan = gen_plan(prop, seed, i, thorough);
                            slots[j].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                            slots[j].0.store(i, Ordering::SeqCst);
                            let res = judge(prop, &plan, known, false);
                            slots[j].0.store(u64::MAX, Ordering::SeqCst);
                            match res {
                                Err(e) => {
                                    *bad.lock().unwrap() = Some(format!("run {i}: {e}"));
                                    stop.store(true, Ordering::SeqCst);
                                    break;
                                }
                                Ok((vs, rep)) => {
                                    local.take(prop, i, &plan, &rep);
                                    if i % 64 == 5 {
                                        if let Ok((_, r2)) = judge(prop, &plan, known, false) {
                                            if r2.digest != rep.digest {
                                                local.nondet += 1;
                                            }
                                        }
                                    }
                                    if let Some((c, m)) = vs.first() {
                                        found.lock().unwrap().push((i, plan, c.clone(), m.clone()));
                                        best.fetch_min(i, Ordering::SeqCst);
                                    }
                                }
                            }
                        }
                        agg.lock().unwrap().merge(local);
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog: a run that does not end is itself a violation (the code under test hangs)
            let (done, slots) = (&done, &slots);
            sc.spawn(move || {
                let limit = 150_000u64;
                while done.load(Ordering::SeqCst) < jobs as u64 {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = t0.elapsed().as_millis() as u64;
                    for s in slots.iter() {
                        let i = s.0.load(Ordering::SeqCst);
                        if i != u64::MAX && now > s.1.load(Ordering::SeqCst) + limit {
                            hung(i);
                        }
                    }
                }
            });
        });

        if let Some(b) = bad.into_inner().unwrap() {
            return Err(b);
        }
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|f| f.0);
        Ok((agg.into_inner().unwrap(), found, t0.elapsed()))
    }
}

impl Agg {
    fn take(&mut self, prop: &str, i: u64, plan: &Value, rep: &Report) {
        self.evals += 1;
        *self.scn.entry(plan["scn"].as_str().unwrap().into()).or_insert(0) += 1;
        self.rep.merge_stats(rep);
        self.scheds.insert(mix(&[rep.sched, rep.events]));
        if rep.nontrivial {
            self.nontrivial.insert(rep.digest);
        }
        for (p, k, m) in &rep.finds {
            if *p == prop {
                self.finds.entry((p.to_string(), k.to_string())).or_insert_with(|| m.clone());
            }
        }
        for v in &rep.viols {
            if !v.props.contains(&prop) {
                let o = self.others.entry(format!("{}:{}", v.props.join("+"), v.class)).or_insert_with(|| (0, i, v.msg.clone()));
                o.0 += 1;
                if i < o.1 {
                    (o.1, o.2) = (i, v.msg.clone());
                }
            }
        }
        if i < 2 {
            self.samples.push(json!({"index": i, "plan": shorten(plan), "events": rep.events, "simulated_us": rep.sim_us, "digest": format!("{:016x}", rep.digest)}));
        }
    }

    fn merge(&mut self, o: Agg) {
        self.rep.merge_stats(&o.rep);
        self.evals += o.evals;
        self.nontrivial.extend(o.nontrivial);
        self.scheds.extend(o.scheds);
        self.finds.extend(o.finds);
        self.nondet += o.nondet;
        self.samples.extend(o.samples);
        for (k, v) in o.scn {
            *self.scn.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.others {
            let e = self.others.entry(k).or_insert_with(|| (0, v.1, v.2.clone()));
            e.0 += v.0;
            if v.1 < e.1 {
                (e.1, e.2) = (v.1, v.2);
            }
        }
    }

    fn to_json(&self) -> Value {
        let hex = |s: &HashSet<u64>| -> Vec<String> { s.iter().map(|x| format!("{x:x}")).collect() };
        json!({
            "evals": self.evals, "events": self.rep.events, "sim_us": self.rep.sim_us, "nondet": self.nondet,
            "stats": self.rep.stats, "nontrivial": hex(&self.nontrivial), "scheds": hex(&self.scheds),
            "finds": self.finds.iter().map(|(k, v)| json!([k.0, k.1, v])).collect::<Vec<_>>(),
            "samples": self.samples, "scn": self.scn,
            "others": self.others.iter().map(|(k, v)| json!([k, v.0, v.1, v.2])).collect::<Vec<_>>(),
        })
    }

    fn from_json(v: &Value) -> Option<Agg> {
        let mut a = Agg::default();
        let set = |v: &Value| -> Option<HashSet<u64>> { v.as_array()?.iter().map(|x| u64::from_str_radix(x.as_str()?, 16).ok()).collect() };
        a.evals = v["evals"].as_u64()?;
        a.rep.events = v["events"].as_u64()?;
        a.rep.sim_us = v["sim_us"].as_u64()?;
        a.nondet = v["nondet"].as_u64()?;
        for (k, n) in v["stats"].as_object()? {
            a.rep.stats.insert(Box::leak(k.clone().into_boxed_str()), n.as_u64()?);
        }
        a.nontrivial = set(&v["nontrivial"])?;
        a.scheds = set(&v["scheds"])?;
        for f in v["finds"].as_array()? {
            a.finds.insert((f[0].as_str()?.into(), f[1].as_str()?.into()), f[2].as_str()?.into());
        }
        a.samples = v["samples"].as_array()?.clone();
        for (k, n) in v["scn"].as_object()? {
            a.scn.insert(k.clone(), n.as_u64()?);
        }
        for o in v["others"].as_array()? {
            a.others.insert(o[0].as_str()?.into(), (o[1].as_u64()?, o[2].as_u64()?, o[3].as_str()?.into()));
        }
        Some(a)
    }
}

/// Minimise, store and announce a violation.
fn report_violation(prop: &str, seed: u64, known: &HashSet<(String, String)>, f: Found) {
    let (i, plan, class, msg) = f;
    let (small, msg2, evals) = shrink::shrink(prop, &plan, &class, known, Duration::from_secs(40));
    let final_msg = msg2.unwrap_or(msg);
    let trace = match judge(prop, &small, known, true) {
        Ok((_, r)) => r.trace,
        _ => None,
    };
    let path = write_replay(prop, &class, &final_msg, seed, i, &small, trace, evals);
    println!("violation class={class} (run {i}, {} build, minimised with {evals} re-executions): {}", build_name(), final_msg.chars().take(600).collect::<String>());
    // confirm in a fresh process
    let ok = std::env::current_exe()
        .ok()
        .and_then(|e| std::process::Command::new(e).args(["replay", path.to_str().unwrap(), "--quiet"]).stdout(std::process::Stdio::null()).status().ok())
        .map(|s| s.code() == Some(1))
        .unwrap_or(false);
    println!("replay in a fresh process: {}", if ok { "reproduced" } else { "NOT reproduced" });
    println!("VIOLATION property={prop} replay={}", path.display());
}

/// `check`: the runs of the release build, and, in a child process, those of the `dbg` build.
fn cmd_check(args: &[String]) -> i32 {
    let prop = match arg(args, "--property") {
        Some(p) => p,
        None => return 2,
    };
    let tier = arg(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = arg(args, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let Some(prof) = PROFILES.iter().find(|p| p.id == prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let jobs: usize = arg(args, "--jobs")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let max_runs: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { u64::MAX } else { prof.runs });
    let wall = Duration::from_secs(arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 200 }));
    let known = load_known(Some(&prop));
    // a child holds the dbg build and does its share of the runs
    let part = arg(args, "--part");
    let child: Mutex<Option<std::process::Child>> = Mutex::new(None);
    if part.is_none() {
        println!("pakesim property={prop} tier={tier} seed={seed} jobs={jobs} runs={max_runs}");
        let Some(exe) = sibling("dbg") else {
            eprintln!("the dbg build is missing");
            return 2;
        };
        match std::process::Command::new(exe)
            .args(args)
            .args(["--tier", &tier, "--seed", &seed.to_string(), "--part", "dbg"])
            .stdout(std::process::Stdio::piped())
            .spawn()
        {
            Ok(c) => *child.lock().unwrap() = Some(c),
            Err(e) => {
                eprintln!("cannot start the dbg build: {e}");
                return 2;
            }
        }
    }
    let out = child.lock().unwrap().as_mut().and_then(|c| c.stdout.take());
    let reader = out.map(|mut o| {
        std::thread::spawn(move || {
            let mut s = String::new();
            let _ = std::io::Read::read_to_string(&mut o, &mut s);
            s
        })
    });

    let t0 = Instant::now();
    let hung = |i: u64| {
        let plan = gen_plan(prof.id, seed, i, thorough);
        let path = write_replay(prof.id, "hang", "a simulated run did not end within 150 s of real time", seed, i, &plan, None, 0);
        println!("violation class=hang: run {i} did not end");
        println!("VIOLATION property={} replay={}", prof.id, path.display());
        if let Some(c) = child.lock().unwrap().as_mut() {
            let _ = c.kill();
        }
        if part.is_none() {
            write_evidence(prof, &tier, seed, &Agg::default(), 0, t0.elapsed(), jobs, 1);
        }
        std::process::exit(1);
    };
    let dbg = build_name() == "dbg";
    let mine = move |i: u64| is_dbg_run(i) == dbg;
    let res = Search { prof, thorough, seed, jobs, max_runs, wall, known: &known, mine: &mine, hung: &hung }.go();

    if part.is_some() {
        let (agg, found, _) = match res {
            Ok(r) => r,
            Err(b) => {
                eprintln!("harness error: {b}");
                return 2;
            }
        };
        println!("PART {}", json!({"agg": agg.to_json(), "found": found.len()}));
        return match found.into_iter().next() {
            Some(f) => {
                report_violation(&prop, seed, &known, f);
                1
            }
            None => 0,
        };
    }

    let (mut agg, found, search_wall) = match res {
        Ok(r) => r,
        Err(b) => {
            eprintln!("harness error: {b}");
            if let Some(c) = child.lock().unwrap().as_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            return 2;
        }
    };
    let mut nv = found.len() as u64;
    let mut code = 0;
    if let Some(f) = found.into_iter().next() {
        if let Some(c) = child.lock().unwrap().as_mut() {
            let _ = c.kill();
        }
        report_violation(&prop, seed, &known, f);
        code = 1;
    }
    let text = reader.and_then(|r| r.join().ok()).unwrap_or_default();
    let status = child.into_inner().unwrap().and_then(|mut c| c.wait().ok()).and_then(|s| s.code());
    let mut dbg_runs = 0;
    for l in text.lines() {
        if let Some(j) = l.strip_prefix("PART ") {
            if let Some((a, n)) = serde_json::from_str::<Value>(j).ok().and_then(|v| Some((Agg::from_json(&v["agg"])?, v["found"].as_u64()?))) {
                dbg_runs = a.evals;
                agg.merge(a);
                nv += n;
            }
        } else if code == 0 {
            println!("{l}");
        }
    }
    if code == 0 {
        match status {
            Some(0) if dbg_runs > 0 || max_runs < 3 => {}
            Some(1) if text.contains("\nVIOLATION ") || text.starts_with("VIOLATION ") => code = 1,
            s => {
                eprintln!("harness error: the dbg part ended with {s:?}");
                code = 2;
            }
        }
    }
    for ((_, k), m) in &agg.finds {
        if known.contains(&(prop.clone(), k.clone())) {
            println!("KNOWN-FINDING: property={prop} key={k} {m}");
        }
    }
    write_evidence(prof, &tier, seed, &agg, dbg_runs, search_wall, jobs, nv);
    println!(
        "{} runs ({dbg_runs} with debug assertions), {} events, {:.1} simulated s, {} distinct schedules, {} non-trivial, {:.1} s wall",
        agg.evals,
        agg.rep.events,
        agg.rep.sim_us as f64 / 1e6,
        agg.scheds.len(),
        agg.nontrivial.len(),
        search_wall.as_secs_f64()
    );
    code
}

#[allow(clippy::too_many_arguments)]
fn write_replay(prop: &str, class: &str, msg: &str, seed: u64, idx: u64, plan: &Value, trace: Option<Vec<String>>, evals: u64) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{seed}-{idx}.json"));
    let v = json!({
        "property": prop, "class": class, "message": msg, "verif_seed": seed, "run_index": idx,
        "shrink_executions": evals, "build": build_name(), "plan": plan, "trace": trace,
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prof: &Prof, tier: &str, seed: u64, a: &Agg, dbg_runs: u64, wall: Duration, jobs: usize, viols: u64) {
    let secs = wall.as_secs_f64().max(0.001);
    let mut faults = serde_json::Map::new();
    let mut probes = serde_json::Map::new();
    for (k, v) in &a.rep.stats {
        if k.starts_with("frame_") || k.starts_with("crash") || k.starts_with("node_") || k.starts_with("payload_tampered") || k.starts_with("fault_") || k.starts_with("session_in_flight") || k.starts_with("reset_") || k.starts_with("retrans") || k.starts_with("attempt_timeout") || k.starts_with("tamper_") || k.starts_with("payload_out") || k.starts_with("duplicate") {
            faults.insert(k.to_string(), json!(v));
        } else {
            probes.insert(k.to_string(), json!(v));
        }
    }
    let samples: Vec<Value> = a
        .samples
        .iter()
        .map(|s| {
            let t = s.to_string();
            if t.len() > 6000 {
                json!(t.chars().take(6000).collect::<String>())
            } else {
                s.clone()
            }
        })
        .collect();
    let real: BTreeSet<&str> = match prof.id.chars().next().unwrap() {
        'A' => ["aucpace client", "aucpace server", "curve25519-dalek", "sha2", "password-hash", "scrypt (some sessions)", "serde/bincode/postcard"].into(),
        'S' => ["spake2", "curve25519-dalek", "hkdf/sha2"].into(),
        'R' => ["srp client", "srp server", "num-bigint", "sha1/sha2"].into(),
        _ => ["aucpace", "spake2", "srp", "curve25519-dalek", "num-bigint"].into(),
    };
    let v = json!({
        "property": prof.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": format!("{}; distinct: by the digest of every event and payload of the run", prof.rule),
            "samples": samples,
            "seeds_per_hour": (a.evals as f64 / secs * 3600.0) as u64,
            "runs_by_scenario": a.scn,
            "simulated_seconds": a.rep.sim_us as f64 / 1e6,
            "events": a.rep.events,
            "distinct_schedules": a.scheds.len(),
            "schedule_measure": "hash of the order in which payloads were handled (session, attempt, side, index) plus event count",
            "faults_fired": faults,
            "probes": probes,
            "nondeterministic_reruns": a.nondet,
            "known_findings_observed": a.finds.keys().map(|k| k.1.clone()).collect::<Vec<_>>(),
            "other_property_observations": a.others.iter().map(|(k, (n, i, m))| (k.clone(), json!({"count": n, "first_run": i, "what": m}))).collect::<serde_json::Map<String, Value>>(),
            "real_components": real,
            "stub_components": ["network and transport", "timers", "credential database", "random source (CryptoRngCore)", "application glue around the typestates", "password hasher (simulated one in most AuCPace sessions)"],
            "workers": jobs,
            "runs_by_build": {"release": a.evals - dbg_runs.min(a.evals), "debug assertions and overflow checks on": dbg_runs},
        },
        "assumptions": [
            "the simulator, its reference implementations and the message codecs are trusted",
            "sampling: a clean batch is evidence for the explored seeds, not a proof",
            "the primitives in curve25519-dalek, sha1/sha2, hkdf, scrypt and num-bigint are correct"
        ],
        "wall_s": secs,
        "violations": viols,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", prof.id)), serde_json::to_string_pretty(&v).unwrap());
}
