//! Post-run oracles for AuCPace: every key, refusal and payload of the recorded history is
//! compared with what the documented protocol allows.
use crate::auc::*;
use crate::engine::*;
use crate::kit::*;
use crate::reference as rf;
use crate::util::*;
use aucpace::Error;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn who(v: &View) -> String {
    format!("s{} a{} e{} {}", v.key.sess, v.key.att, v.key.epoch, if v.client { "client" } else { "server" })
}

/// How a received point relates to a sent one: it is the sent one, or a small multiple.
fn ratio(recv: &Option<[u8; 32]>, sent: &Option<[u8; 32]>) -> Option<i64> {
    let (r, s) = ((*recv)?, (*sent)?);
    if r == s {
        return Some(1001);
    }
    let (rp, sp) = (dp(&r)?, dp(&s)?);
    // rp = ±a/b sp for the smallest such numbers (tampering twice gives fractions)
    let mut mult: HashMap<[u8; 32], i64> = HashMap::new();
    let mut m = sp;
    for a in 1..=100 {
        mult.insert(cp(&m), a);
        mult.insert(cp(&-m), -a);
        m += sp;
    }
    let mut m = rp;
    for b in 1..=100i64 {
        if let Some(a) = mult.get(&cp(&m)) {
            return Some(a * 1000 + b);
        }
        m += rp;
    }
    None
}

/// Do client and server view describe the same SSID inputs, channel identifier and credentials,
/// with the server's augmentation data received as sent?
fn same_inputs<K: Kit, const K1: usize>(w: &World<'_, K, K1>, c: &View, s: &View) -> bool {
    if !c.client || s.client || c.ssid.is_none() || c.ssid != s.ssid || c.ci != s.ci || c.strong != s.strong || s.unknown || c.hash_fault {
        return false;
    }
    let Some(rid) = s.rec else { return false };
    let st = w.store.borrow();
    let rec = &st.recs[rid];
    if c.x.is_none() || c.x != s.x || s.torn {
        return false;
    }
    if K::norm(&rf::cred_string(&c.user, &c.pw)) != K::norm(&rf::cred_string(&rec.made_user, &rec.made_pw)) {
        return false;
    }
    let Some(p) = &c.params else { return false };
    if K::canon(p) != K::canon(rec.params.as_str()) {
        return false;
    }
    if c.strong {
        if [&c.user[..], &c.pw].concat() != [&rec.made_user[..], &rec.made_pw].concat() {
            return false;
        }
        let (Some(b), Some(bs), Some(q)) = (c.blinded.and_then(|b| dp(&b)), c.bsalt, rec.q) else { return false };
        cp(&(b * q)) == bs
    } else {
        c.salt.as_deref() == rec.salt.as_ref().map(|s| s.as_str()) && c.salt.is_some()
    }
}

/// 0: no match, 1: the same key is explained by rescaled public keys, 2: exact match
fn matched<K: Kit, const K1: usize>(w: &World<'_, K, K1>, c: &View, s: &View) -> u8 {
    if !same_inputs(w, c, s) {
        return 0;
    }
    if c.y_recv.is_some() && c.y_recv == s.y_sent && s.y_recv == c.y_sent {
        return 2;
    }
    match (ratio(&c.y_recv, &s.y_sent), ratio(&s.y_recv, &c.y_sent)) {
        (Some(a), Some(b)) if a == b => 1,
        _ => 0,
    }
}

fn sk(v: &View) -> Option<[u8; 64]> {
    match &v.out {
        Out::Key(k) => Some(*k),
        _ => None,
    }
}

fn ssid_hash(v: &View) -> Option<[u8; 64]> {
    v.ssid.as_ref().map(|s| rf::hn(0, &[s]))
}

/// Candidate secret scalars an endpoint may have drawn: every read of its stream, wide-reduced.
fn scalars(v: &View) -> Vec<Scalar> {
    let mut out = vec![];
    for r in [&v.rng, &v.rng_base] {
        let reads: Vec<(u64, u32)> = r.0.borrow().reads.clone();
        for (off, n) in reads.iter().take(24) {
            if *n >= 32 || *n == 8 {
                let b: [u8; 64] = r.served(*off, 64).try_into().unwrap();
                out.push(Scalar::from_bytes_mod_order_wide(&b));
                let lo: [u8; 32] = b[..32].try_into().unwrap();
                out.push(Scalar::from_bytes_mod_order(lo));
            }
        }
    }
    out.retain(|s| *s != Scalar::ZERO);
    out
}

pub fn oracle<K: Kit, const K1: usize>(w: &mut World<'_, K, K1>, cx: &mut Cx, fin: &[Option<u64>]) {
    if crate::engine::transcripts_only() {
        return;
    }
    let prop = w.plan.prop.clone();
    let views = std::mem::take(&mut w.views);
    agreement(w, cx, &views);
    liveness(w, cx, &views, fin);
    fresh_values(w, cx, &views);
    if matches!(prop.as_str(), "A06" | "A02" | "A03") {
        dictionary(w, cx, &views);
    }
    if matches!(prop.as_str(), "A11" | "A03" | "A05") {
        secrets(w, cx, &views, prop == "A11");
    }
    relevance(w, cx, &views, &prop);
    w.views = views;
}

fn agreement<K: Kit, const K1: usize>(w: &World<'_, K, K1>, cx: &mut Cx, views: &[View]) {
    let mut by_ssid: BTreeMap<&[u8], Vec<usize>> = BTreeMap::new();
    for (i, v) in views.iter().enumerate() {
        if let Some(s) = &v.ssid {
            if v.kind <= 1 {
                by_ssid.entry(s).or_default().push(i);
            }
        }
    }
    let same_group = |v: &View| -> Vec<usize> { v.ssid.as_ref().and_then(|s| by_ssid.get(&s[..])).cloned().unwrap_or_default() };
    let pair = |a: usize, b: usize| if views[a].client { (a, b) } else { (b, a) };

    // accepted with explicit authentication: somebody must be there
    for (i, v) in views.iter().enumerate() {
        let Some(key) = sk(v) else { continue };
        if v.kind > 1 || v.glitch {
            continue;
        }
        if v.explicit {
            let mut any = false;
            let mut genuine = false;
            let mut differs = false;
            for j in same_group(v) {
                if views[j].client == v.client {
                    continue;
                }
                let (c, s) = pair(i, j);
                if matched(w, &views[c], &views[s]) > 0 {
                    any = true;
                    genuine |= v.auth_recv.is_some() && v.auth_recv == views[j].auth_sent;
                    if sk(&views[j]).is_some_and(|k| k != key) {
                        differs = true;
                    }
                }
            }
            cx.rep.count("explicit_accepts_checked");
            if !any {
                let mut t = vec!["A02", "A12"];
                if v.unknown {
                    t.push("A06");
                }
                let diff_ssid = w.plan.sess[v.key.sess as usize].ssid.as_ref().is_some_and(|(a, b)| a != b);
                if diff_ssid {
                    t.push("A10");
                }
                let se = &w.plan.sess[v.key.sess as usize];
                if se.ck == 2 || se.sk == 2 {
                    t.push("A05");
                }
                if !w.op_users.is_empty() || !se.lk.is_empty() {
                    t.push("A08");
                }
                if se.hf.is_some() {
                    t.push("A07");
                }
                cx.rep.viol(&t, "false-accept", format!("{} accepted although no party with the same SSID inputs, channel identifier and credentials received and sent its messages unmodified", who(v)));
            } else if !genuine {
                cx.rep.viol(&["A02", "A12"], "false-authenticator-accepted", format!("{} accepted an authenticator its peer did not send", who(v)));
            } else if differs {
                cx.rep.viol(&["A02", "A01", "A12"], "keys-differ-explicit", format!("{} and its peer both accepted with different keys", who(v)));
            }
        }
    }

    // equal keys need equal inputs
    let mut by_key: BTreeMap<[u8; 64], Vec<usize>> = BTreeMap::new();
    for (i, v) in views.iter().enumerate() {
        if let Some(k) = sk(v) {
            if v.kind <= 1 && !v.glitch {
                by_key.entry(k).or_default().push(i);
            }
        }
    }
    for g in by_key.values() {
        for (n, &a) in g.iter().enumerate() {
            for &b in &g[n + 1..] {
                let (va, vb) = (&views[a], &views[b]);
                if va.client == vb.client {
                    // two clients (or servers) whose public keys were exchanged by the attacker
                    if va.y_recv.is_some() && va.y_recv == vb.y_sent && vb.y_recv == va.y_sent && va.y_sent != vb.y_sent {
                        cx.rep.count("same_role_key_exchange");
                        continue;
                    }
                    cx.rep.viol(&["A03", "A05", "A02"], "key-repeats", format!("{} and {} ended with the same session key", who(va), who(vb)));
                    continue;
                }
                let (c, s) = pair(a, b);
                if matched(w, &views[c], &views[s]) == 0 {
                    let mut t = vec!["A03", "A02", "A12"];
                    if views[s].unknown {
                        t.push("A06");
                    }
                    if views[c].ssid != views[s].ssid {
                        t.push("A10");
                    }
                    if !w.op_users.is_empty() {
                        t.push("A08");
                    }
                    cx.rep.viol(&t, "equal-keys-without-match", format!("{} and {} hold the same key although their inputs or messages differ", who(&views[c]), who(&views[s])));
                }
            }
        }
    }

    // equal inputs and unmodified messages need equal keys
    for (i, v) in views.iter().enumerate() {
        if !v.client || v.kind > 1 || v.glitch {
            continue;
        }
        for j in same_group(v) {
            let s = &views[j];
            if s.client || s.kind > 1 || s.glitch {
                continue;
            }
            if !same_inputs(w, v, s) {
                continue;
            }
            let m = v.y_recv.is_some() && v.y_recv == s.y_sent && s.y_recv.is_some() && s.y_recv == v.y_sent;
            if !m {
                continue;
            }
            let mut t = vec!["A01", "A03", "A12"];
            if !w.op_users.is_empty() || s.lk_fault || !w.plan.ops.is_empty() {
                t.push("A08");
            }
            if v.ssid_pre {
                t.push("A10");
            }
            if w.plan.sess.iter().any(|x| x.hf.is_some() || !x.lk.is_empty()) {
                t.push("A07");
            }
            if v.strong {
                t.push("A11");
            }
            cx.rep.count("matching_pairs");
            if let (Some(a), Some(b)) = (sk(v), sk(s)) {
                cx.rep.count("matching_pairs_with_keys");
                if a != b {
                    cx.rep.viol(&t, "keys-differ", format!("{} and {} used the same inputs and received each other's messages unmodified but hold different keys", who(v), who(s)));
                }
            }
            for (x, y) in [(v, s), (s, v)] {
                if x.out == Out::Lib(Error::MutualAuthFail) && x.auth_recv.is_some() && x.auth_recv == y.auth_sent {
                    cx.rep.viol(&t, "genuine-authenticator-refused", format!("{} refused the unmodified authenticator of the matching {}", who(x), who(y)));
                }
            }
            let _ = i;
        }
    }

    // a session key is never a value seen on the wire
    let mut parts: HashMap<u64, (usize, usize, [u8; 64])> = HashMap::new();
    for (i, v) in views.iter().enumerate() {
        if let Some(k) = sk(v) {
            for (n, h) in k.chunks_exact(8).enumerate() {
                if let Some((o, m, ok)) = parts.insert(u64::from_le_bytes(h.try_into().unwrap()), (i, n, k)) {
                    // (the same key at both ends of a session repeats all its parts in place)
                    if ok != k || m != n {
                        cx.rep.viol(&["A03", "A05"], "keys-related", format!("bytes {} of the session key of {} are bytes {} of the key of {}", n * 8, who(v), m * 8, who(&views[o])));
                    }
                }
            }
        }
    }
    if parts.is_empty() {
        return;
    }
    for m in views.iter().flat_map(|v| v.sent.iter()) {
        for w in m.windows(8) {
            if let Some((i, _, _)) = parts.get(&u64::from_le_bytes(w.try_into().unwrap())) {
                {
                    cx.rep.viol(&["A03", "A11"], "session-key-on-wire", format!("the session key of {} was sent in a message", who(&views[*i])));
                }
            }
        }
    }
}

/// Sessions that must complete once faults stop.
pub fn expected_ok<K: Kit, const K1: usize>(w: &World<'_, K, K1>, i: usize) -> bool {
    let p = w.plan;
    let s = &p.sess[i];
    let hard_ok = s.max_att >= 40 && s.timeout_ms >= 3000 && p.net.delay_min <= 100 && p.net.until <= 8000 && p.net.skew.iter().all(|x| (50..=300).contains(x)) && p.crashes.len() <= 6 && p.crashes.iter().all(|c| c.down <= 3000 && c.at.is_none_or(|t| t <= 60_000));
    if !hard_ok || s.ck >= 2 || s.sk >= 2 {
        return false;
    }
    let early = |a: u32| a < 15;
    if !p.tampers.iter().all(|t| t.sess as usize != i || early(t.att)) || p.tampers.len() > 12 {
        return false;
    }
    if !s.lk.iter().all(|l| early(l.att)) || !p.rngf.iter().all(|l| l.sess as usize != i || early(l.att)) {
        return false;
    }
    if let Some(n) = buf_len(s.api) {
        if s.user.0.len() + s.pw.0.len() + 1 > n {
            return false;
        }
    }
    let ps_ok = |ps: &PSpec| !K::FAULTS || matches!(ps.len.clamp(10, 64), 32 | 64);
    if s.register {
        return ps_ok(&s.reg_p) && s.sk == 0 && s.ck == 0;
    }
    if let Some((a, b)) = &s.ssid {
        if a != b || a.0.len() < 16 {
            return false;
        }
    }
    if s.ci_c != s.ci_s {
        return false;
    }
    // the credentials on file must be these, all along
    let regs: Vec<&Sess> = p.sess.iter().filter(|r| r.register && r.user == s.user).collect();
    let us: Vec<&User> = p.users.iter().filter(|u| u.name == s.user).collect();
    if p.ops.iter().any(|o| p.users.get(o.user as usize).is_none_or(|u| u.name == s.user)) {
        return false;
    }
    if us.len() == 1 && regs.is_empty() {
        let u = us[0];
        return u.pw == s.pw && ps_ok(&u.p) && if s.strong { u.strong && !u.zero_q } else { u.plain } && (!s.partial || u.keypair);
    }
    if us.is_empty() && !regs.is_empty() {
        // registered over the wire with these credentials by a session that itself completes
        return regs.iter().all(|r| r.pw == s.pw && r.strong == s.strong && (r.partial || !s.partial) && ps_ok(&r.reg_p) && r.start_ms <= s.start_ms)
            && regs.len() == 1
            && p.sess.iter().enumerate().any(|(j, r)| r.register && r.user == s.user && expected_ok(w, j));
    }
    false
}

fn liveness<K: Kit, const K1: usize>(w: &World<'_, K, K1>, cx: &mut Cx, views: &[View], fin: &[Option<u64>]) {
    for i in 0..w.plan.sess.len() {
        if w.plan.sess[i].max_att == 0 {
            continue;
        }
        let e = expected_ok(w, i);
        if e {
            cx.rep.count("sessions_expected_to_complete");
        }
        if e && !w.sess_ok[i] {
            let s = &w.plan.sess[i];
            let last: Vec<String> = views.iter().filter(|v| v.key.sess as usize == i).map(|v| format!("{}: {:?}", who(v), v.out)).collect();
            let tail = last[last.len().saturating_sub(4)..].join("; ");
            let mut t = vec!["A01", "A07", "A08"];
            if s.ck == 1 || s.sk == 1 {
                t.push("A12");
            }
            if s.ssid.is_some() {
                t.push("A10");
            }
            if !s.explicit {
                t.push("A03");
            }
            cx.rep.viol(&t, "never-completes", format!("session {i} never completed after faults stopped (finished at {:?}); last: {tail}", fin[i]));
        }
    }
    // with implicit authentication completion only says both have a key: compare them
    for i in 0..w.plan.sess.len() {
        if w.sess_ok[i] && !w.plan.sess[i].register && expected_ok(w, i) {
            let kc = views.iter().filter(|v| v.key.sess as usize == i && v.client && sk(v).is_some()).max_by_key(|v| v.key.att);
            if let Some(c) = kc {
                let ks: Vec<[u8; 64]> = views.iter().filter(|v| v.key.sess == c.key.sess && v.key.att == c.key.att && !v.client && v.rec.is_some()).filter_map(sk).collect();
                let tampered = w.sess_tampered.contains(&(i as u32));
                let glitch = views.iter().any(|v| v.key.sess == c.key.sess && v.key.att == c.key.att && (v.glitch || v.lk_fault || v.hash_fault));
                if !tampered && !glitch && !ks.is_empty() && !ks.contains(&sk(c).unwrap()) {
                    cx.rep.viol(&["A01", "A03", "A12", "A08", "A07"], "honest-keys-differ", format!("honest session {i} completed with different keys on the two sides"));
                }
            }
        }
    }
}

fn fresh_values<K: Kit, const K1: usize>(w: &World<'_, K, K1>, cx: &mut Cx, views: &[View]) {
    let mut seen: HashMap<(u8, Vec<u8>), usize> = HashMap::new();
    // points with a common base: a known linear relation links the sessions
    let mut eph = Linked::default();
    let mut blinds: HashMap<(Vec<u8>, Vec<u8>), Linked> = HashMap::new();
    let mut put = |cx: &mut Cx, kind: u8, b: &[u8], i: usize, extra: &[&'static str]| {
        if let Some(o) = seen.insert((kind, b.to_vec()), i) {
            let names = ["nonce", "ephemeral server key", "public key", "blinded point"];
            let mut t = vec!["A05"];
            t.extend_from_slice(extra);
            cx.rep.viol(&t, "value-repeats", format!("the {} of {} repeats the one of {}", names[kind as usize], who(&views[i]), who(&views[o])));
        }
    };
    for (i, v) in views.iter().enumerate() {
        if v.kind != 0 || v.glitch {
            continue;
        }
        if !v.nonce.is_empty() {
            put(cx, 0, &v.nonce, i, &[]);
            let d: BTreeSet<u8> = v.nonce.iter().copied().collect();
            if d.len() < 5 {
                cx.rep.viol(&["A05"], "nonce-degenerate", format!("nonce {} of {}", hex(&v.nonce), who(v)));
            }
            let n = v.nonce.len();
            if v.nonce[..n / 2] == v.nonce[n / 2..] || v.nonce[n - 4..] == [0; 4] || v.nonce[..4] == [0; 4] {
                cx.rep.viol(&["A05"], "nonce-degenerate", format!("nonce {} of {}", hex(&v.nonce), who(v)));
            }
        }
        if let (false, false, Some(x)) = (v.client, v.partial, v.x) {
            put(cx, 1, &x, i, if v.strong { &["A11"] } else { &[] });
            if let Some((o, how)) = eph.add(&x, &rf::base(&Scalar::ONE), i) {
                cx.rep.viol(&["A05"], "related-ephemeral-keys", format!("the ephemeral server keys of {} and {} are related: {how}", who(v), who(&views[o])));
            }
        }
        if let Some(y) = v.y_sent {
            put(cx, 2, &y, i, &["A03"]);
        }
        if let (true, Some(b)) = (v.client, v.blinded) {
            put(cx, 3, &b, i, &["A11"]);
            let z = rf::z_point(&v.user, &v.pw);
            if let Some((o, how)) = blinds.entry((v.user.clone(), v.pw.clone())).or_default().add(&b, &z, i) {
                cx.rep.viol(&["A05", "A11"], "related-blindings", format!("the blinded points of {} and {} are related: {how}", who(v), who(&views[o])));
            }
        }
    }
    let _ = w;
    // registrations of one run
    let st = w.store.borrow();
    let mut salts = BTreeSet::new();
    let mut qs: Vec<Scalar> = vec![];
    for r in &st.recs {
        if let Some(s) = &r.salt {
            if !salts.insert(s.as_str().to_string()) {
                cx.rep.viol(&["A05"], "salt-repeats", "two registrations got the same salt");
            }
        }
        if let Some(q) = r.q {
            if q != Scalar::ZERO && !is_special_q(&q) {
                if qs.contains(&q) {
                    cx.rep.viol(&["A05"], "exponent-repeats", "two strong registrations got the same secret exponent");
                }
                qs.push(q);
            }
        }
    }
}

#[derive(Default)]
struct Linked {
    points: HashMap<[u8; 32], usize>,
    derived: HashMap<[u8; 32], (usize, &'static str)>,
}

impl Linked {
    /// Is `p` a small multiple of an earlier point, or apart from one by the base?
    fn add(&mut self, p: &[u8; 32], base: &RistrettoPoint, i: usize) -> Option<(usize, &'static str)> {
        let d = dp(p)?;
        if d == RistrettoPoint::identity() {
            return None;
        }
        let near = [(-d, "opposite"), (d + d, "double"), (d + d + d, "triple"), (d + base, "one apart"), (d - base, "one apart"), (d + d + base, "double and one")];
        let mut hit = self.derived.get(p).copied();
        for (q, how) in near {
            let q = cp(&q);
            if let Some(o) = self.points.get(&q) {
                hit = Some((*o, how));
            }
            self.derived.insert(q, (i, how));
        }
        self.points.insert(*p, i);
        hit
    }
}

/// An attacker who followed the session tries values for the password related string that it
/// knows or can compute without the password. `y` is reconstructed from the server's stream,
/// which stands for an attacker who takes part with each guess itself.
fn dictionary<K: Kit, const K1: usize>(_w: &World<'_, K, K1>, cx: &mut Cx, views: &[View]) {
    let mut budget = 40i32;
    for v in views {
        if v.client || v.kind != 0 || v.glitch {
            continue;
        }
        let (Some(y), Some(h)) = (v.y_sent, ssid_hash(v)) else { continue };
        if !v.unknown && budget < 37 {
            continue;
        }
        if budget < 32 {
            break;
        }
        budget -= 1;
        let x = v.x.and_then(|x| dp(&x));
        let mut g: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32], cp(&RistrettoPoint::identity()), cp(&rf::base(&Scalar::ONE))];
        let mut one = [0u8; 32];
        one[0] = 1;
        g.push(one);
        g.extend(v.x);
        g.extend(v.blinded);
        g.extend(v.bsalt);
        if let Some(s) = &v.salt {
            let mut b = unb64(s).unwrap_or_default();
            b.resize(32, 0);
            g.push(b[..32].try_into().unwrap());
            let mut b = s.clone().into_bytes();
            b.resize(32, 0);
            g.push(b[..32].try_into().unwrap());
        }
        if let Some(s) = &v.ssid {
            let mut b = s.clone();
            b.resize(32, 0);
            g.push(b[..32].try_into().unwrap());
        }
        g.push(h[..32].try_into().unwrap());
        let mut b = v.user.clone();
        b.resize(32.max(b.len()), 0);
        g.push(b[..32].try_into().unwrap());
        for n in 0..6 {
            for parts in [&[&v.user[..]][..], &[&h[..], &v.user[..]], &[]] {
                let d = rf::hn(n, parts);
                g.push(d[..32].try_into().unwrap());
            }
        }
        let d: [u8; 64] = {
            use sha2::Digest;
            sha2::Sha512::digest(&v.user).into()
        };
        g.push(d[..32].try_into().unwrap());
        g.push(d[32..].try_into().unwrap());
        if let Some(x) = x {
            // w from an absent, empty or default password; X itself, small multiples
            for k in [2u64, 3] {
                g.push(cp(&(x * Scalar::from(k))));
            }
            g.push(cp(&-x));
            let salt = v.salt.clone().unwrap_or_default();
            let params = v.params.clone().unwrap_or_default();
            if v.unknown {
                for pw in [&b""[..], b"password", &v.user] {
                    let hh = K::ref_hash(&rf::cred_string(&v.user, pw), &salt, &params);
                    if let Some(wv) = rf::w_scalar(&hh) {
                        g.push(cp(&(x * wv)));
                    }
                }
            }
        }
        g.sort();
        g.dedup();
        let ys = scalars(v);
        for prs in &g {
            let gen = rf::generator(&h, prs, &v.ci);
            for s in &ys {
                cx.rep.count("dictionary_guesses");
                if cp(&(gen * s)) == y {
                    let t: &[&'static str] = if v.unknown { &["A06", "A02", "A03"] } else { &["A02", "A03"] };
                    cx.rep.viol(t, "guessable-prs", format!("{} ({}) runs on a password related string anyone can compute", who(v), if v.unknown { "unknown user" } else { "registered user" }));
                }
            }
        }
    }
}

/// Look for secrets in everything that was sent or rendered.
fn secrets<K: Kit, const K1: usize>(w: &World<'_, K, K1>, cx: &mut Cx, views: &[View], full: bool) {
    let mut all_scalars: HashMap<[u8; 32], usize> = HashMap::new();
    let hashes = crate::kit::HASHES.with(|l| l.borrow().clone());
    for (i, v) in views.iter().enumerate() {
        if v.kind != 0 {
            continue;
        }
        let mut needles: Vec<(&'static str, Vec<u8>)> = vec![];
        let user_has = |pw: &[u8]| pw.len() < 8 || contains(&v.user, pw) || pw.iter().collect::<BTreeSet<_>>().len() < 6;
        if v.client {
            if !user_has(&v.pw) {
                needles.push(("password", v.pw.clone()));
            }
        }
        let mut wv: Option<Scalar> = None;
        let mut wpt: Option<RistrettoPoint> = None;
        if let Some(r) = v.rec {
            let st = w.store.borrow();
            let rec = &st.recs[r];
            if !user_has(&rec.made_pw) {
                needles.push(("password", rec.made_pw.clone()));
            }
            needles.push(("verifier", cp(&rec.verifier).to_vec()));
            wpt = Some(rec.verifier);
            if let Some(q) = rec.q {
                if q != Scalar::ZERO && !is_special_q(&q) {
                    needles.push(("secret exponent", q.to_bytes().to_vec()));
                    if !v.client && [v.x, v.y_sent].contains(&Some(cp(&rf::base(&q)))) {
                        cx.rep.viol(&["A11"], "exponent-image-sent", format!("{} sent the base point times the stored exponent", who(v)));
                    }
                    let salt = cp(&(rf::z_point(&rec.made_user, &rec.made_pw) * q));
                    needles.push(("strong salt", salt.to_vec()));
                    needles.push(("strong salt", b64(&salt).into_bytes()));
                    if v.bsalt == Some(salt) {
                        cx.rep.viol(&["A11"], "salt-sent", format!("{} sent the unblinded salt", who(v)));
                    }
                }
            }
        }
        if v.client && !v.hash_fault {
            let salt = if v.strong { None } else { v.salt.clone() };
            if let (Some(s), Some(p)) = (salt, &v.params) {
                let h = K::ref_hash(&rf::cred_string(&v.user, &v.pw), &s, p);
                wv = rf::w_scalar(&h);
                needles.push(("password hash", h));
            }
        }
        if let Some(x) = wv {
            needles.push(("password scalar", x.to_bytes().to_vec()));
            wpt = Some(rf::base(&x));
            needles.push(("verifier", cp(&rf::base(&x)).to_vec()));
        }
        let cand = scalars(v);
        for (n, s) in cand.iter().enumerate() {
            if n % 2 == 0 {
                needles.push(("secret scalar", s.to_bytes().to_vec()));
            }
        }
        // which scalars were used for what
        let mut y: Option<Scalar> = None;
        let mut prs: Option<[u8; 32]> = None;
        if v.client {
            if let (Some(x), Some(wv)) = (v.x.and_then(|x| dp(&x)), wv) {
                prs = Some(cp(&(x * wv)));
            }
        } else if let (Some(x), Some(wp)) = (v.x, wpt) {
            let xs = if v.partial {
                w.store.borrow().keys.values().flatten().find(|k| cp(&k.1) == x).map(|k| k.0)
            } else {
                cand.iter().find(|s| cp(&rf::base(s)) == x).copied()
            };
            if let Some(xs) = xs {
                needles.push(("ephemeral exponent", xs.to_bytes().to_vec()));
                prs = Some(cp(&(wp * xs)));
                if !v.partial && !v.glitch {
                    reuse(cx, &mut all_scalars, &xs, i, views, "server exponent");
                }
            }
        }
        if let (Some(p), Some(h), Some(ys)) = (prs, ssid_hash(v), v.y_sent) {
            needles.push(("password related string", p.to_vec()));
            let g = rf::generator(&h, &p, &v.ci);
            y = cand.iter().find(|s| cp(&(g * **s)) == ys).copied();
            needles.push(("generator", cp(&g).to_vec()));
            if y.is_some() {
                cx.rep.count("ephemeral_scalars_reconstructed");
            }
        }
        if v.client && v.strong {
            let z = rf::z_point(&v.user, &v.pw);
            if let Some(b) = v.blinded {
                if !v.glitch {
                    if b == cp(&z) || b == cp(&-z) {
                        cx.rep.viol(&["A11"], "unblinded", format!("{} sent its point unblinded", who(v)));
                    }
                    for k in 2..=9u64 {
                        if b == cp(&(z * Scalar::from(k))) {
                            cx.rep.viol(&["A11"], "unblinded", format!("{} blinded its point with a constant", who(v)));
                        }
                    }
                }
                needles.push(("unblinded point", cp(&z).to_vec()));
                if let Some(r) = cand.iter().find(|s| cp(&(z * **s)) == b) {
                    if !v.glitch {
                        reuse(cx, &mut all_scalars, r, i, views, "blinding scalar");
                    }
                    // public values must not be the blinding scalar
                    for (what, s) in guess_scalars(v) {
                        if s == *r {
                            cx.rep.viol(&["A11"], "blinding-predictable", format!("{} blinded with {what}", who(v)));
                        }
                    }
                } else if full {
                    for (what, s) in guess_scalars(v) {
                        if cp(&(z * s)) == b {
                            cx.rep.viol(&["A11"], "blinding-predictable", format!("{} blinded with {what}", who(v)));
                        }
                    }
                }
            }
        }
        if let (false, Some(b), Some(bs)) = (v.client, v.blinded, v.bsalt) {
            if b == bs {
                cx.rep.viol(&["A11"], "blinded-salt-trivial", format!("{} answered with the blinded point itself", who(v)));
            }
        }
        if let (Some(y), Some(yr), Some(h)) = (y, v.y_recv.and_then(|y| dp(&y)), ssid_hash(v)) {
            if !v.glitch {
                reuse(cx, &mut all_scalars, &y, i, views, "CPace scalar");
            }
            let ks = rf::keys(&h, &y, &yr);
            needles.push(("raw shared key", cp(&(yr * y)).to_vec()));
            needles.push(("first session key", ks.sk1.to_vec()));
            needles.push(("session key", ks.sk.to_vec()));
            if let Some(k) = sk(v) {
                if k == cp(&(yr * y))[..] || k[..32] == cp(&(yr * y)) || k == ks.sk1 || k == ks.ta || k == ks.tb {
                    cx.rep.viol(&["A03", "A11", "A12"], "session-key-is-public-or-intermediate", format!("the session key of {} is an intermediate or public value", who(v)));
                }
            }
        }
        if let Some(k) = sk(v) {
            needles.push(("session key", k.to_vec()));
        }
        if !full {
            continue;
        }
        let others: Vec<&View> = views.iter().filter(|o| o.key.sess == v.key.sess && o.key.att == v.key.att && o.kind == 0).collect();
        let mut sc = Scanner::default();
        for (name, n) in &needles {
            sc.add(name, n);
        }
        for h in &hashes {
            sc.add("password hash", h);
        }
        for o in &others {
            sc.public(&o.user);
        }
        for o in &others {
            // renderings of messages legitimately contain what the message contains
            for (m, what) in o.sent.iter().map(|m| (&m[..], "message")).chain(o.dbg.iter().map(|d| (d.as_bytes(), "rendering"))) {
                cx.rep.count("payloads_scanned");
                if let Some((name, how)) = sc.scan(m) {
                    cx.rep.viol(&["A11"], format!("leak-in-{what}:{name}"), format!("a {what} at {} contains the {name} ({how})", who(o)));
                }
            }
        }
    }
}

/// Scalars an observer could compute.
fn guess_scalars(v: &View) -> Vec<(&'static str, Scalar)> {
    let mut g = vec![];
    let mut add = |n: &'static str, b: &[u8]| {
        let mut w = [0u8; 64];
        let l = b.len().min(64);
        w[..l].copy_from_slice(&b[..l]);
        g.push((n, Scalar::from_bytes_mod_order_wide(&w)));
    };
    if !v.nonce.is_empty() {
        add("its nonce", &v.nonce);
    }
    if let Some(s) = &v.ssid {
        add("the SSID", s);
        for n in 0..6 {
            add("a hash of the SSID", &rf::hn(n, &[s]));
            add("a hash of the SSID", &rf::hn(n, &[&rf::hn(0, &[s])]));
        }
    }
    for n in 0..6 {
        add("a hash of the username", &rf::hn(n, &[&v.user]));
        add("a hash of the credentials", &rf::hn(n, &[&v.user, &v.pw]));
    }
    if let Some(h) = ssid_hash(v) {
        for n in 0..6 {
            add("a hash of SSID and username", &rf::hn(n, &[&h, &v.user]));
            add("a hash of SSID and credentials", &rf::hn(n, &[&h, &v.user, &v.pw]));
        }
    }
    add("its name", &v.user);
    g
}

fn reuse(cx: &mut Cx, seen: &mut HashMap<[u8; 32], usize>, s: &Scalar, i: usize, views: &[View], what: &str) {
    cx.rep.count("secret_scalars_compared");
    if let Some(o) = seen.insert(s.to_bytes(), i) {
        cx.rep.viol(&["A05", "A11"], "scalar-reused", format!("the {what} of {} was already used by {}", who(&views[i]), who(&views[o])));
    }
}

/// Did the run exercise what the property is about?
fn relevance<K: Kit, const K1: usize>(w: &World<'_, K, K1>, cx: &mut Cx, views: &[View], prop: &str) {
    let g = |k: &str| cx.rep.stats.get(k).copied().unwrap_or(0);
    let p = w.plan;
    let mism = p.sess.iter().any(|s| !s.register && (s.ci_c != s.ci_s || s.ssid.as_ref().is_some_and(|(a, b)| a != b) || !p.users.iter().any(|u| u.name == s.user && u.pw == s.pw)));
    let keys = views.iter().filter(|v| sk(v).is_some()).count();
    cx.rep.nontrivial = match prop {
        "A01" => g("matching_pairs_with_keys") > 0,
        "A02" => g("payload_tampered") > 0 || g("fault_session_replayed") > 0 || mism,
        "A03" => keys >= 2,
        "A04" => g("neutral_element_refused") > 0 || g("tamper_noncanonical_point") > 0,
        "A05" => keys >= 2 || g("fault_session_replayed") > 0,
        "A06" => g("unknown_user_answered") > 0,
        "A07" => g("fault_hash_or_buffer_error_reported") > 0 || g("fault_lookup_lost") > 0,
        "A08" => g("op_raced_with_lookup") > 0 || g("fault_stale_read") > 0 || g("fault_lookup_lost") > 0 || g("session_in_flight_at_crash") > 0 || p.ops.iter().any(|o| o.on.is_none()),
        "A10" => p.sess.iter().any(|s| s.ssid.as_ref().is_some_and(|(a, b)| a != b || a.0.len() < 16 || b.0.len() < 16)),
        "A11" => g("payloads_scanned") > 0,
        "A12" => p.sess.iter().any(|s| s.ck == 1 || s.sk == 1) && keys > 0 || w.regs > 0,
        _ => true,
    };
}
