//! featsim: the same simulated deployment, executed by builds of the three crates with different
//! optional features. One seed gives one plan; every session draws from its own streams, so a
//! session behaves the same whether or not sessions that need a missing feature take part.
//!
//!   featsim run SEED FROM TO             one line per session: digests of what it did
//!   featsim trace SEED RUN SESS [MASK]   everything one session did (MASK: faults switched off)
#![allow(dead_code)]
mod auc;
mod other;
mod sim;

use sim::*;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| -> u64 { a.get(i).and_then(|s| s.parse().ok()).unwrap_or(0) };
    match a.first().map(|s| s.as_str()) {
        Some("run") => {
            let mut o = String::new();
            for run in n(2)..n(3) {
                let (logs, st) = deployment(n(1), run, None, 0);
                for (s, l) in logs.iter().enumerate() {
                    if let Some(l) = l {
                        o.push_str(&format!("S {run} {s} {:016x} {} {} {}\n", l.main, l.wire.map_or("-".into(), |w| format!("{w:016x}")), l.idx.map_or("-".into(), |w| format!("{w:016x}")), l.adj.map_or("-".into(), |w| format!("{w:016x}"))));
                    }
                }
                o.push_str(&format!("R {run} {} {} {} {:016x}\n", st.now, st.events, logs.len(), st.sched));
                for (k, v) in &st.faults {
                    o.push_str(&format!("F {k} {v}\n"));
                }
            }
            print!("{o}");
        }
        Some("trace") => {
            let (logs, _) = deployment(n(1), n(2), Some(n(3) as usize), n(4));
            match logs.into_iter().nth(n(3) as usize).flatten() {
                Some(l) => l.lines.iter().for_each(|x| println!("{x}")),
                None => println!("absent"),
            }
        }
        _ => {
            eprintln!("usage: featsim run SEED FROM TO | trace SEED RUN SESS [MASK]");
            std::process::exit(2);
        }
    }
}
