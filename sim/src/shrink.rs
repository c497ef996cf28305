//! Generic plan minimiser: drop array elements, shrink numbers, booleans and hex strings
//! while the same violation class persists.
use crate::judge;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::time::{Duration, Instant};

fn paths(v: &Value, cur: &mut Vec<Value>, out: &mut Vec<Vec<Value>>) {
    match v {
        Value::Array(a) => {
            out.push(cur.clone());
            for (i, x) in a.iter().enumerate() {
                cur.push(json!(i));
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                if cur.is_empty() && (k == "scn" || k == "prop" || k == "seed") {
                    continue;
                }
                cur.push(json!(k));
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => out.push(cur.clone()),
    }
}

fn get_mut<'a>(v: &'a mut Value, p: &[Value]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match k {
            Value::String(s) => c.get_mut(s.as_str())?,
            Value::Number(n) => c.get_mut(n.as_u64()? as usize)?,
            _ => return None,
        };
    }
    Some(c)
}

fn candidates(x: &Value) -> Vec<Value> {
    match x {
        Value::Number(n) => {
            let mut c = vec![];
            if let Some(u) = n.as_u64() {
                for t in [0, 1, u / 2, u.saturating_sub(1)] {
                    if t < u && !c.contains(&json!(t)) {
                        c.push(json!(t));
                    }
                }
            }
            c
        }
        Value::Bool(true) => vec![json!(false)],
        Value::String(s) => {
            if let Some(h) = s.strip_prefix("x:") {
                let mut c = vec![];
                let n = h.len() / 2;
                if n > 0 {
                    c.push(json!("x:"));
                    c.push(json!(format!("x:{}", &h[..(n / 2) * 2])));
                    c.push(json!(format!("x:{}", &h[..(n - 1) * 2])));
                    let z = format!("x:{}", "61".repeat(n));
                    if z != *s {
                        c.push(json!(z));
                    }
                }
                c
            } else {
                vec![]
            }
        }
        _ => vec![],
    }
}

pub fn shrink(prop: &str, plan: &Value, class: &str, known: &HashSet<(String, String)>, budget: Duration) -> (Value, Option<String>, u64) {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let mut msg = None;
    let mut evals = 0u64;
    let mut try_it = |cand: &Value, msg: &mut Option<String>| -> bool {
        evals += 1;
        match judge(prop, cand, known, false) {
            Ok((vs, _)) => {
                if let Some((_, m)) = vs.iter().find(|x| x.0 == class) {
                    *msg = Some(m.clone());
                    true
                } else {
                    false
                }
            }
            Err(_) => false,
        }
    };
    if !try_it(&best.clone(), &mut msg) {
        return (best, msg, 1);
    }
    loop {
        let mut progress = false;
        // arrays: remove halves, then single elements
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for p in ps {
            if t0.elapsed() > budget {
                return (best, msg, evals);
            }
            let mut probe = best.clone();
            let Some(x) = get_mut(&mut probe, &p) else { continue };
            match x.clone() {
                Value::Array(a) if !a.is_empty() => {
                    // halves
                    if a.len() > 2 {
                        for half in [a[..a.len() / 2].to_vec(), a[a.len() / 2..].to_vec()] {
                            let mut c = best.clone();
                            *get_mut(&mut c, &p).unwrap() = Value::Array(half);
                            if try_it(&c, &mut msg) {
                                best = c;
                                progress = true;
                                break;
                            }
                        }
                    }
                    let mut i = match get_mut(&mut best.clone(), &p) {
                        Some(Value::Array(a)) => a.len(),
                        _ => 0,
                    };
                    while i > 0 {
                        i -= 1;
                        if t0.elapsed() > budget {
                            return (best, msg, evals);
                        }
                        let mut c = best.clone();
                        if let Some(Value::Array(a)) = get_mut(&mut c, &p) {
                            if i >= a.len() {
                                continue;
                            }
                            a.remove(i);
                        }
                        if try_it(&c, &mut msg) {
                            best = c;
                            progress = true;
                        }
                    }
                }
                leaf => {
                    for cand in candidates(&leaf) {
                        let mut c = best.clone();
                        if let Some(y) = get_mut(&mut c, &p) {
                            *y = cand;
                        }
                        if try_it(&c, &mut msg) {
                            best = c;
                            progress = true;
                            break;
                        }
                    }
                }
            }
        }
        if !progress {
            return (best, msg, evals);
        }
    }
}
