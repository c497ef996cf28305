//! Seeded generation of AuCPace plans: topology, users, variants, schedules, faults, attacks.
use crate::auc::*;
use crate::engine::*;
use crate::kit::*;
use crate::rng::*;
use crate::util::*;
use serde_json::Value;

pub fn gen_net(r: &mut Prng, nodes: u32, level: u64) -> Net {
    let until = match level {
        0 => 0,
        _ => *r.pick(&[300u64, 1500, 3000, 6000]),
    };
    let mut n = Net { delay_min: r.range(1, 15), delay_max: 20, drop: 0, dup: 0, until, parts: vec![], stalls: vec![], skew: vec![] };
    if level > 0 {
        n.delay_max = *r.pick(&[20u64, 60, 250, 600]);
        n.drop = *r.pick(&[0u64, 0, 5, 15, 35]);
        n.dup = *r.pick(&[0u64, 0, 8, 25]);
        if r.chance(20) && nodes > 1 {
            let a = r.below(nodes as u64) as u32;
            let b = r.below(nodes as u64) as u32;
            let f = r.below(until.max(1));
            n.parts.push((a, b, f, f + r.range(100, 2500)));
        }
        if r.chance(20) {
            let f = r.below(until.max(1));
            n.stalls.push((r.below(nodes as u64) as u32, f, f + r.range(50, 1500)));
        }
        if r.chance(30) {
            n.skew = (0..nodes).map(|_| r.range(55, 250)).collect();
        }
    }
    n
}

pub fn gen_crashes(r: &mut Prng, nodes: u32, sess: u32, max: u64) -> Vec<Crash> {
    let k = r.below(max + 1);
    (0..k)
        .map(|_| {
            let node = r.below(nodes as u64) as u32;
            let down = *r.pick(&[1u64, 20, 200, 900, 2500]);
            if r.chance(60) && sess > 0 {
                Crash { node, at: None, on: Some((r.below(sess as u64) as u32, r.below(2) as u32, r.below(5) as u32)), phase: r.below(3) as u8, down }
            } else {
                Crash { node, at: Some(r.below(3000)), on: None, phase: 0, down }
            }
        })
        .collect()
}

/// api numbers whose buffer holds `need` bytes (0 is the heap flavour)
fn api_fit(r: &mut Prng, need: usize) -> u8 {
    if r.chance(45) {
        return 0;
    }
    let ok: Vec<u8> = (1..=6u8).filter(|a| buf_len(*a).unwrap() >= need).collect();
    if ok.is_empty() {
        0
    } else {
        // prefer the tightest buffer
        if r.chance(50) {
            ok[0]
        } else {
            *r.pick(&ok)
        }
    }
}

fn pspec(r: &mut Prng) -> PSpec {
    PSpec { c: if r.chance(85) { r.range(1, 40) as u32 } else { *r.pick(&[255u32, 256, 1000, 4096, 65_535, 65_536, 100_000, 600_000, 4_000_000_000]) }, len: if r.chance(60) { 32 } else { 64 } }
}

fn ssid_len(r: &mut Prng) -> usize {
    if r.chance(80) {
        *r.pick(&[16usize, 16, 17, 18, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100])
    } else {
        *r.pick(&[127usize, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025, 2048, 3000, 4097, 70000])
    }
}

fn wide_text(r: &mut Prng, n: usize) -> Vec<u8> {
    let mut s = String::new();
    while s.len() < n {
        let left = n - s.len();
        let c = *r.pick(&['a', '7', 'é', 'ß', 'ж', '漢', 'あ', '\u{200d}', '😀', '𝔸']);
        s.push(if c.len_utf8() <= left { c } else { ' ' });
    }
    s.into_bytes()
}

fn ssid(r: &mut Prng) -> Vec<u8> {
    let n = ssid_len(r);
    if r.chance(12) && n < 100 {
        // text whose characters take one to four bytes each, `n` bytes in all
        return wide_text(r, n);
    }
    if r.chance(80) {
        r.bytes(n)
    } else {
        vec![r.next() as u8; n]
    }
}

fn ci(r: &mut Prng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => b"server.example.com:443".to_vec(),
        2 => gen_str(r, 300),
        3 if r.chance(20) => gen_str(r, 70_000),
        _ => gen_str(r, 80),
    }
}

struct B {
    p: Plan,
}

fn base(r: &mut Prng, prop: &str, seed: u64, thorough: bool, level: u64) -> B {
    let clients = r.range(1, 3) as u32;
    let servers = r.range(1, 2) as u32;
    let nu = r.range(1, 3) as usize;
    let mut users: Vec<User> = vec![];
    let base_max = if thorough || r.chance(15) { 300 } else { 150 };
    for i in 0..nu {
        let maxlen = if r.chance(3) { 70_000 } else { base_max };
        let mut name = if i > 0 && r.chance(40) { near_miss(r, &users[0].name.0) } else { gen_str(r, maxlen) };
        while users.iter().any(|u| u.name.0 == name) {
            name.push(b'0' + i as u8);
        }
        let pw = if i > 0 && r.chance(30) { users[0].pw.0.clone() } else { gen_str(r, maxlen) };
        let need = name.len() + pw.len() + 1;
        users.push(User { name: name.into(), pw: pw.into(), plain: true, strong: true, keypair: true, p: pspec(r), api: api_fit(r, need), zero_q: false, salt_len: if r.chance(12) { *r.pick(&[3u8, 4, 8, 15, 17, 20, 24, 31, 32, 33, 40, 47, 48]) } else { 0 }, no_params: false, q_sel: 0 });
        if !matches!(prop, "A05" | "A06" | "A11") {
            let u = users.last_mut().unwrap();
            u.no_params = r.chance(8);
            u.q_sel = if r.chance(10) { r.range(1, 7) as u8 } else { 0 };
        }
    }
    let nodes = clients + servers;
    B {
        p: Plan {
            seed,
            prop: prop.into(),
            k32: r.chance(30),
            k20: r.chance(25),
            digest2: prop.starts_with('A') && r.chance(15),
            scrypt: r.chance(12),
            clients,
            servers,
            net: gen_net(r, nodes, level),
            crashes: vec![],
            tampers: vec![],
            users,
            sess: vec![],
            ops: vec![],
            rngf: vec![],
            flips: vec![],
            salt: 0,
        },
    }
}

impl B {
    /// An honest session of a random registered user.
    fn honest(&mut self, r: &mut Prng) -> usize {
        let u = r.us(self.p.users.len());
        self.honest_of(r, u)
    }
    fn honest_of(&mut self, r: &mut Prng, u: usize) -> usize {
        let us = self.p.users[u].clone();
        let need = us.name.0.len() + us.pw.0.len() + 1;
        let c = ci(r);
        let pre = if r.chance(35) {
            let s = ssid(r);
            Some((Hx(s.clone()), Hx(s)))
        } else {
            None
        };
        self.p.sess.push(Sess {
            client: r.below(self.p.clients as u64) as u32,
            server: self.p.clients + r.below(self.p.servers as u64) as u32,
            start_ms: r.below(400),
            max_att: 60,
            timeout_ms: 3500,
            user: us.name,
            pw: us.pw,
            strong: r.chance(50),
            partial: r.chance(40),
            explicit: r.chance(60),
            api: api_fit(r, need),
            codec: r.below(2) as u8,
            ssid: pre,
            ci_c: c.clone().into(),
            ci_s: c.into(),
            late: r.chance(40),
            ck: 0,
            sk: 0,
            replay_of: 0,
            probe: 0,
            register: false,
            reg_p: PSpec { c: 1, len: 32 },
            hf: None,
            lk: vec![],
            twin: None,
        });
        self.p.sess.len() - 1
    }
    fn crashes(&mut self, r: &mut Prng, max: u64) {
        let n = self.p.clients + self.p.servers;
        self.p.crashes = gen_crashes(r, n, self.p.sess.len() as u32, max);
    }
    /// An unknown name: never one of the registered ones.
    fn stranger(&self, r: &mut Prng) -> Vec<u8> {
        loop {
            let v = if r.chance(50) {
                let u = r.us(self.p.users.len());
                near_miss(r, &self.p.users[u].name.0)
            } else {
                gen_str(r, 60)
            };
            if !self.p.users.iter().any(|u| u.name.0 == v) {
                return v;
            }
        }
    }
    fn refit(&mut self, r: &mut Prng, i: usize) {
        let s = &self.p.sess[i];
        let need = s.user.0.len() + s.pw.0.len() + 1;
        let a = api_fit(r, need);
        self.p.sess[i].api = a;
    }
    /// One mismatch between the two parties of a session.
    fn mismatch(&mut self, r: &mut Prng, i: usize) {
        match r.below(if self.p.sess[i].ssid.is_some() { 6 } else { 5 }) {
            0 | 1 => {
                let v = near_miss(r, &self.p.sess[i].pw.0);
                self.p.sess[i].pw = v.into();
                self.refit(r, i);
            }
            2 => {
                // another user's password under this name, or another name with this password
                let j = r.us(self.p.users.len());
                if r.chance(50) {
                    self.p.sess[i].pw = self.p.users[j].pw.clone();
                } else {
                    self.p.sess[i].user = self.p.users[j].name.clone();
                }
                self.refit(r, i);
            }
            3 => {
                let v = near_miss(r, &self.p.sess[i].ci_c.0);
                self.p.sess[i].ci_s = v.into();
            }
            4 => {
                // shift bytes between name and password
                let s = &mut self.p.sess[i];
                if r.chance(50) && !s.user.0.is_empty() {
                    let c = s.user.0.pop().unwrap();
                    s.pw.0.insert(0, c);
                } else if !s.pw.0.is_empty() {
                    let c = s.pw.0.remove(0);
                    s.user.0.push(c);
                } else {
                    s.pw.0.push(b'x');
                }
                self.refit(r, i);
            }
            _ => self.ssid_mismatch(r, i),
        }
        // a wrong login is not repeated for ever
        self.p.sess[i].max_att = r.range(1, 3) as u32;
    }
    fn ssid_mismatch(&mut self, r: &mut Prng, i: usize) {
        if let Some((a, b)) = &mut self.p.sess[i].ssid {
            let v = match r.below(5) {
                0 => {
                    let mut v = a.0.clone();
                    let n = v.len();
                    let j = if r.chance(50) { r.us(n) } else { n - 1 - r.us(n.min(4)) };
                    v[j] ^= 1 << r.below(8);
                    v
                }
                1 => {
                    let mut v = a.0.clone();
                    v.push(if r.chance(50) { 0 } else { r.next() as u8 });
                    v
                }
                2 => {
                    let n = a.0.len();
                    a.0[..n - 1 - r.us(n.saturating_sub(16).max(1)).min(n - 2)].to_vec()
                }
                3 => {
                    let mut v = a.0.clone();
                    v.insert(0, 0);
                    v
                }
                _ => near_miss(r, &a.0),
            };
            b.0 = v;
            if r.chance(50) {
                std::mem::swap(a, b);
            }
        }
    }
    /// A single active modification of one message.
    fn tamper(&mut self, r: &mut Prng, i: usize, att: u32) {
        let s = &self.p.sess[i];
        let from_i = r.chance(50);
        let n_pre = s.ssid.is_some() as u32;
        // payload indexes: initiator nonce? username pubkey auth ; acceptor nonce? auginfo pubkey auth
        let fields: &[(&str, u32)] = if from_i { &[("nonce", 0), ("user", 1), ("blinded", 1), ("y", 2), ("auth", 3)] } else { &[("nonce", 0), ("x", 1), ("salt", 1), ("bsalt", 1), ("params", 1), ("group", 1), ("y", 2), ("auth", 3)] };
        let op = if r.chance(70) {
            let cands: Vec<(&str, u32)> = fields
                .iter()
                .copied()
                .filter(|(f, _)| {
                    !(*f == "nonce" && n_pre == 1) && !(matches!(*f, "blinded" | "bsalt") && !s.strong) && !(*f == "salt" && s.strong) && !(*f == "auth" && !s.explicit)
                })
                .collect();
            let (f, base) = *r.pick(&cands);
            let idx = base - n_pre.min(base);
            let op = match f {
                "nonce" | "auth" => *r.pick(&["flip", "flip", "zero", "ff", "tail", "head", "rot", "peer", "rand"]),
                "salt" => *r.pick(&["flip", "zero", "rand", "trunc", "tail", "text"]),
                "params" => *r.pick(&["change", "empty", "junk", "len"]),
                "user" => *r.pick(&["near", "near", "other"]),
                "group" => "change",
                _ => *r.pick(&["id", "neg", "scale", "inv", "base", "add", "rand", "peer"]),
            };
            (idx, TOp::Field { f: f.into(), op: op.into(), arg: r.next() >> 16 })
        } else {
            let idx = r.below(4) as u32;
            let op = match r.below(6) {
                0 | 1 => TOp::Flip(r.below(1600)),
                2 => TOp::Trunc(r.below(200) as u32),
                3 => TOp::Extend(hex(&{
                    let n = r.us(8) + 1;
                    r.bytes(n)
                })),
                4 => TOp::Replace(hex(&{
                    let n = r.us(80);
                    r.bytes(n)
                })),
                _ => {
                    let o = r.below(self.p.sess.len() as u64) as u32;
                    TOp::Splice { sess: o, att: r.below(2) as u32, from_i: if r.chance(80) { from_i } else { !from_i }, idx }
                }
            };
            (idx, op)
        };
        self.p.tampers.push(Tamper { sess: i as u32, att, from_i, idx: op.0, op: op.1 });
        // related changes in both directions
        if r.chance(14) {
            let arg = r.next() >> 16;
            let nonce = n_pre == 0 && r.chance(60);
            let (f, idx, op) = if nonce { ("nonce", 0, *r.pick(&["flip", "flip", "peer", "zero", "ff", "rand", "rot", "tail"])) } else { ("y", 2 - n_pre, *r.pick(&["peer", "add", "base", "rand", "inv", "neg"])) };
            for from_i in [true, false] {
                self.p.tampers.push(Tamper { sess: i as u32, att, from_i, idx, op: TOp::Field { f: f.into(), op: op.into(), arg } });
            }
        }
        // the attacker may rescale both public keys
        if r.chance(6) {
            let a = r.next() >> 16;
            for f in [true, false] {
                self.p.tampers.push(Tamper { sess: i as u32, att, from_i: f, idx: 2 - n_pre, op: TOp::Field { f: "y".into(), op: (*r.pick(&["scale", "neg"])).into(), arg: a } });
            }
        }
    }
    fn done(self) -> Value {
        serde_json::to_value(self.p).unwrap()
    }
}

pub fn gen(prop: &str, seed: u64, thorough: bool) -> Value {
    let mut r = Prng::keyed(&[seed, tag("auc"), tag(prop)]);
    let r = &mut r;
    let level = if r.chance(25) { 0 } else { 1 };
    let mut b = base(r, prop, seed, thorough, level);
    let many = if thorough { 3 } else { 1 };
    match prop {
        "A02" | "A03" => {
            let n = r.range(2, 3 + many) as usize;
            if r.chance(40) {
                b.p.users.truncate(1); // more collisions between sessions
            }
            for _ in 0..n {
                let i = b.honest(r);
                b.p.sess[i].explicit = if prop == "A02" { r.chance(95) } else { r.chance(12) };
            }
            // shared pre-established SSIDs and channels make splicing meaningful
            if r.chance(40) {
                let s = ssid(r);
                let c = ci(r);
                for x in b.p.sess.iter_mut() {
                    x.ssid = Some((Hx(s.clone()), Hx(s.clone())));
                    if r.chance(70) {
                        x.ci_c = Hx(c.clone());
                        x.ci_s = Hx(c.clone());
                    }
                }
            }
            let victims = r.range(1, n as u64) as usize;
            for i in 0..victims {
                match r.below(10) {
                    0..=3 => b.mismatch(r, i),
                    4..=8 => {
                        let k = if r.chance(75) { 1 } else { 2 };
                        for _ in 0..k {
                            let att = r.below(2) as u32;
                            b.tamper(r, i, att);
                        }
                        if r.chance(50) {
                            b.p.sess[i].max_att = 2;
                        }
                    }
                    _ => {
                        let s = ssid(r);
                        if b.p.sess[i].ssid.is_none() && r.chance(50) {
                            b.p.sess[i].ssid = Some((Hx(s.clone()), Hx(s)));
                        }
                        b.ssid_mismatch(r, i);
                        b.p.sess[i].max_att = 2;
                    }
                }
            }
            if r.chance(25) {
                // replay a finished session to a party of the same configuration
                let of = r.us(n);
                let mut s = b.p.sess[of].clone();
                s.start_ms += r.range(300, 5000);
                s.max_att = 2;
                s.replay_of = of as u32;
                if r.chance(50) {
                    s.ck = 2;
                } else {
                    s.sk = 2;
                }
                b.p.sess.push(s);
            }
            if r.chance(20) {
                b.crashes(r, 2);
            }
            if r.chance(15) {
                // unknown user among them
                let i = b.honest(r);
                let v = b.stranger(r);
                b.p.sess[i].user = v.into();
                b.p.sess[i].max_att = 2;
                b.refit(r, i);
                b.p.sess[i].explicit = prop == "A02";
            }
        }
        "A04" => {
            let n = r.range(1, 2 + many) as usize;
            for _ in 0..n {
                b.honest(r);
            }
            for i in 0..n {
                if r.chance(20) {
                    continue;
                }
                if r.chance(20) {
                    // the refusal must not depend on whether the user is known
                    if r.chance(60) {
                        let v = b.stranger(r);
                        b.p.sess[i].user = v.into();
                        b.refit(r, i);
                    } else {
                        let u = b.p.users.iter().position(|u| u.name == b.p.sess[i].user).unwrap();
                        b.p.users[u].keypair = false;
                        b.p.sess[i].partial = true;
                    }
                    b.p.sess[i].max_att = 2;
                }
                let n_pre = b.p.sess[i].ssid.is_some() as u32;
                let strong = b.p.sess[i].strong;
                let att = r.below(2) as u32;
                match r.below(10) {
                    0..=4 => {
                        let (from_i, f, idx): (bool, &str, u32) = *r.pick(if strong { &[(true, "blinded", 1), (true, "y", 2), (false, "x", 1), (false, "bsalt", 1), (false, "bsalt", 1), (false, "y", 2)] } else { &[(true, "y", 2), (false, "x", 1), (false, "y", 2), (true, "y", 2)] });
                        b.p.tampers.push(Tamper { sess: i as u32, att, from_i, idx: idx - n_pre, op: TOp::Field { f: f.into(), op: "id".into(), arg: 0 } });
                        if r.chance(15) {
                            // all of them at once
                            for (from_i, f, idx) in [(true, "y", 2), (false, "y", 2), (false, "x", 1)] {
                                b.p.tampers.push(Tamper { sess: i as u32, att, from_i, idx: idx - n_pre, op: TOp::Field { f: f.into(), op: "id".into(), arg: 0 } });
                            }
                        }
                    }
                    5 | 6 => {
                        let (from_i, f, idx): (bool, &str, u32) = *r.pick(if strong { &[(true, "blinded", 1), (true, "y", 2), (false, "x", 1), (false, "bsalt", 1), (false, "y", 2)] } else { &[(true, "y", 2), (false, "x", 1), (false, "y", 2), (false, "x", 1), (true, "y", 2)] });
                        b.p.tampers.push(Tamper { sess: i as u32, att, from_i, idx: idx - n_pre, op: TOp::Field { f: f.into(), op: "raw".into(), arg: r.below(7) } });
                    }
                    7 | 8 => {
                        // the random source of one side returns zero bytes for a while
                        let from = r.below(3) * 64;
                        b.p.rngf.push(RngFault { sess: i as u32, att, client: r.chance(50), from, len: *r.pick(&[64u64, 64, 128, 192, 640]) });
                    }
                    _ => {
                        if let Some(u) = b.p.users.iter().position(|u| u.name == b.p.sess[i].user) {
                            b.p.users[u].zero_q = true;
                        }
                        b.p.sess[i].strong = true;
                        b.p.sess[i].max_att = 2;
                    }
                }
            }
            if r.chance(15) {
                b.crashes(r, 1);
            }
        }
        "A05" => {
            let n = r.range(3, 5 + many) as usize;
            b.p.users.truncate(1 + r.us(2));
            let s = ssid(r);
            let same = r.chance(60);
            for _ in 0..n {
                let i = b.honest(r);
                if same {
                    b.p.sess[i].ssid = Some((Hx(s.clone()), Hx(s.clone())));
                }
                if r.chance(40) {
                    b.p.sess[i].start_ms = r.below(4000);
                }
            }
            for _ in 0..r.range(1, 3) {
                let of = r.us(n);
                let mut s = b.p.sess[of].clone();
                s.start_ms = b.p.sess[of].start_ms + r.range(500, 6000);
                s.max_att = 2;
                s.replay_of = of as u32;
                if r.chance(50) {
                    s.ck = 2;
                    s.client = r.below(b.p.clients as u64) as u32;
                } else {
                    s.sk = 2;
                }
                if r.chance(80) {
                    s.explicit = true;
                    b.p.sess[of].explicit = true;
                }
                b.p.sess.push(s);
            }
            b.crashes(r, 3);
        }
        "A06" => {
            let n = r.range(2, 4 + many) as usize;
            let mut names: Vec<Vec<u8>> = (0..r.range(1, 3)).map(|_| b.stranger(r)).collect();
            if names.len() > 1 && r.chance(60) {
                // names that differ in the smallest ways
                for _ in 0..8 {
                    let v = near_miss(r, &names[0]);
                    if !b.p.users.iter().any(|u| u.name.0 == v) {
                        names[1] = v;
                        break;
                    }
                }
            }
            // indistinguishability is about users registered by this library
            for u in b.p.users.iter_mut() {
                u.salt_len = 0;
            }
            b.p.servers = r.range(1, 2) as u32;
            for _ in 0..n {
                let i = b.honest(r);
                let nm = r.pick(&names).clone();
                b.p.sess[i].user = nm.into();
                b.p.sess[i].max_att = 2;
                b.p.sess[i].explicit = r.chance(70);
                if b.p.sess[i].strong && r.chance(50) {
                    b.p.sess[i].ck = 3;
                    b.p.sess[i].probe = r.range(1, 1000);
                } else if r.chance(20) {
                    b.p.sess[i].ck = 1;
                }
                b.refit(r, i);
            }
            // registered users meanwhile; some without a key pair, some lookups lost
            for _ in 0..r.below(3) {
                let i = b.honest(r);
                if r.chance(40) {
                    let u = b.p.users.iter().position(|u| u.name == b.p.sess[i].user).unwrap();
                    match r.below(3) {
                        0 => b.p.users[u].keypair = false,
                        1 => b.p.users[u].plain = false,
                        _ => b.p.users[u].strong = false,
                    }
                    b.p.sess[i].max_att = 2;
                    if r.chance(30) {
                        // a key pair without any verifier, asked for repeatedly
                        b.p.users[u].keypair = true;
                        b.p.users[u].plain = false;
                        b.p.users[u].strong = false;
                        for _ in 0..r.range(1, 3) {
                            let j = b.honest_of(r, u);
                            b.p.sess[j].partial = r.chance(85);
                            b.p.sess[j].max_att = 2;
                        }
                        b.p.sess[i].partial = true;
                    }
                }
                if r.chance(30) {
                    b.p.sess[i].lk.push(LkFault { att: 0, nth: r.below(2) as u32, stale: 0 });
                }
            }
            if r.chance(25) {
                b.crashes(r, 1);
            }
        }
        "A07" => {
            b.p.scrypt = r.chance(4);
            let n = r.range(2, 4 + many) as usize;
            for _ in 0..n {
                let i = b.honest(r);
                match r.below(7) {
                    0 => b.p.sess[i].hf = Some(HFault::Err(r.below(6) as u8)),
                    1 => b.p.sess[i].hf = Some(HFault::NoHash),
                    2 => b.p.sess[i].hf = Some(HFault::Len(*r.pick(&[10u8, 16, 20, 31, 32, 33, 48, 63, 64]))),
                    3 => {
                        // buffer of every relation to the needed size
                        let need = b.p.sess[i].user.0.len() + b.p.sess[i].pw.0.len() + 1;
                        let a = any_buf(r);
                        b.p.sess[i].api = a;
                        if need > buf_len(a).unwrap() {
                            b.p.sess[i].max_att = 2;
                        }
                        if r.chance(60) {
                            // exactly at, one below or one above the limit
                            let u = b.p.users.iter().position(|u| u.name == b.p.sess[i].user).unwrap();
                            let lim = *r.pick(&BUFS);
                            let want = lim as i64 - 1 - b.p.users[u].name.0.len() as i64 + r.below(3) as i64 - 1;
                            if want >= 0 {
                                let mut pw = vec![b'p'; want as usize];
                                for (j, c) in pw.iter_mut().enumerate() {
                                    *c = b'a' + (j % 26) as u8;
                                }
                                b.p.users[u].pw = pw.clone().into();
                                let name = b.p.users[u].name.clone();
                                for s in b.p.sess.iter_mut().filter(|s| s.user == name) {
                                    s.pw = pw.clone().into();
                                }
                                b.p.sess[i].api = 1 + BUFS.iter().position(|x| *x == lim).unwrap() as u8;
                                b.p.sess[i].max_att = 2;
                            }
                        }
                    }
                    4 => {
                        let k = r.range(1, 3);
                        for _ in 0..k {
                            b.p.sess[i].lk.push(LkFault { att: r.below(3) as u32, nth: r.below(2) as u32, stale: 0 });
                        }
                    }
                    5 => {
                        // registration with a failing hasher or a short buffer
                        let nm = b.stranger(r);
                        let s = &mut b.p.sess[i];
                        s.user = nm.into();
                        s.register = true;
                        s.explicit = false;
                        s.reg_p = PSpec { c: r.range(1, 20) as u32, len: *r.pick(&[32u8, 64, 32, 20, 48]) };
                        s.hf = match r.below(6) {
                            0 => Some(HFault::Err(r.below(6) as u8)),
                            1 => Some(HFault::NoHash),
                            2 => Some(HFault::Len(*r.pick(&[10u8, 16, 31, 33, 63, 64, 32]))),
                            3 => Some(HFault::BadParams),
                            _ => None,
                        };
                        if r.chance(40) {
                            s.api = any_buf(r);
                            s.max_att = 3;
                        } else {
                            b.refit(r, i);
                        }
                        // and a login of that user later
                        if r.chance(70) {
                            let mut l = b.p.sess[i].clone();
                            l.register = false;
                            l.hf = None;
                            l.ssid = None;
                            l.start_ms += r.below(1500);
                            b.p.sess.push(l);
                        }
                    }
                    _ => {}
                }
            }
            // every client uses one object for all of its sessions
            if r.chance(20) {
                b.crashes(r, 1);
            }
        }
        "A08" => {
            let n = r.range(2, 4 + many) as usize;
            b.p.users.truncate(1 + r.us(2));
            for _ in 0..n {
                let i = b.honest(r);
                b.p.sess[i].max_att = if r.chance(50) { 60 } else { r.range(1, 4) as u32 };
            }
            for _ in 0..r.range(1, 3) {
                let u = r.us(b.p.users.len());
                let newpw = if r.chance(50) { near_miss(r, &b.p.users[u].pw.0) } else { gen_str(r, 60) };
                let kind = match r.below(8) {
                    0..=2 => OpKind::ChangePw(newpw.clone().into()),
                    3 => OpKind::Rehash,
                    4 => OpKind::RotateKey,
                    5 => match r.below(4) {
                        0 => OpKind::RotateKey,
                        k => OpKind::TearKey(k == 1),
                    },
                    6 => OpKind::Delete,
                    _ => OpKind::Restore,
                };
                let (at, on) = if r.chance(55) { (None, Some((r.below(n as u64) as u32, r.below(2) as u32, r.below(2) as u32))) } else { (Some(r.below(1200)), None) };
                if matches!(kind, OpKind::ChangePw(_)) && r.chance(50) {
                    // someone logs in with the new password around then
                    let i = b.honest_of(r, u);
                    b.p.sess[i].pw = newpw.into();
                    b.p.sess[i].start_ms = r.below(1500);
                    b.p.sess[i].max_att = r.range(1, 4) as u32;
                    b.refit(r, i);
                }
                b.p.ops.push(Op { user: u as u32, kind, at, on });
            }
            let m = b.p.sess.len();
            for i in 0..m {
                if r.chance(30) {
                    let st = r.below(3) as u32;
                    b.p.sess[i].lk.push(LkFault { att: r.below(2) as u32, nth: r.below(2) as u32, stale: st });
                }
                if r.chance(15) {
                    b.mismatch(r, i);
                }
            }
            b.crashes(r, 3);
        }
        "A10" => {
            let n = r.range(2, 4 + many) as usize;
            for _ in 0..n {
                let i = b.honest(r);
                let full = ssid(r);
                let (mut a, mut c) = (full.clone(), full);
                match r.below(6) {
                    0 => {
                        // the same short value on both sides
                        let l = r.us(16);
                        a.truncate(l);
                        c = a.clone();
                    }
                    1 => {
                        let l = r.us(a.len() + 1);
                        a.truncate(l);
                    }
                    2 => {
                        let l = r.us(c.len() + 1);
                        c.truncate(l);
                    }
                    3 => {
                        let x = vec![0u8; *r.pick(&[0usize, 1, 14, 15, 16, 17])];
                        a = x.clone();
                        c = x;
                    }
                    _ => {}
                }
                b.p.sess[i].ssid = Some((Hx(a), Hx(c)));
                if r.chance(45) && b.p.sess[i].ssid.as_ref().is_some_and(|(a, b)| a.0.len() >= 2 && b.0.len() >= 2) {
                    b.ssid_mismatch(r, i);
                }
                if b.p.sess[i].ssid.as_ref().is_some_and(|(a, b)| a != b || a.0.len() < 16) {
                    b.p.sess[i].max_att = 2;
                }
                if r.chance(15) {
                    b.p.sess[i].ck = 1;
                } else if r.chance(15) {
                    b.p.sess[i].sk = 1;
                }
            }
            if r.chance(20) {
                b.crashes(r, 1);
            }
        }
        "A11" => {
            let n = r.range(2, 3 + many) as usize;
            for u in b.p.users.iter_mut() {
                let l = r.range(12, 40) as usize;
                u.pw = (0..l).map(|_| *r.pick(b"abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789")).collect::<Vec<u8>>().into();
                u.api = 0;
            }
            for _ in 0..n {
                let i = b.honest(r);
                b.p.sess[i].strong = r.chance(65);
                if r.chance(25) {
                    b.mismatch(r, i);
                } else if r.chance(30) {
                    b.tamper(r, i, 0);
                } else if r.chance(20) {
                    b.p.sess[i].hf = Some(match r.below(3) {
                        0 => HFault::Err(r.below(6) as u8),
                        1 => HFault::NoHash,
                        _ => HFault::Len(*r.pick(&[10u8, 20, 24, 31, 33, 40, 48, 63])),
                    });
                } else if r.chance(15) {
                    let v = b.stranger(r);
                    b.p.sess[i].user = v.into();
                    b.p.sess[i].max_att = 2;
                    b.refit(r, i);
                }
            }
            if r.chance(25) {
                // a registration that fails: only its error is public
                let i = b.honest(r);
                let nm = b.stranger(r);
                let s = &mut b.p.sess[i];
                s.user = nm.into();
                s.register = true;
                s.max_att = 2;
                s.reg_p = PSpec { c: r.range(1, 20) as u32, len: *r.pick(&[32u8, 64]) };
                s.hf = Some(match r.below(4) {
                    0 => HFault::Err(r.below(6) as u8),
                    1 => HFault::NoHash,
                    _ => HFault::Len(*r.pick(&[10u8, 20, 31, 33, 48, 63])),
                });
                if r.chance(20) {
                    s.api = any_buf(r);
                } else {
                    b.refit(r, i);
                }
            }
            if r.chance(20) {
                b.crashes(r, 1);
            }
        }
        "A12" => {
            let n = r.range(1, 3 + many) as usize;
            for _ in 0..n {
                let i = b.honest(r);
                match r.below(5) {
                    0 | 1 => b.p.sess[i].ck = 1,
                    2 | 3 => b.p.sess[i].sk = 1,
                    _ => {}
                }
                if r.chance(12) {
                    b.mismatch(r, i);
                }
            }
            b.p.scrypt = r.chance(30);
            if r.chance(20) {
                b.crashes(r, 1);
            }
        }
        _ => {
            // A01 and whatever else wants honest traffic
            let crowd = r.chance(1);
            let n = if crowd { r.range(70, 600) } else { r.range(1, 4 + 2 * many) } as usize;
            if crowd {
                // objects that have served many sessions before
                b.p.scrypt = false;
                b.p.net = gen_net(r, b.p.clients + b.p.servers, 0);
                if r.chance(60) {
                    b.p.clients = 1;
                    b.p.servers = 1;
                }
            }
            for _ in 0..n {
                let i = b.honest(r);
                if crowd {
                    b.p.sess[i].start_ms = r.below(20_000);
                }
                if r.chance(6) {
                    b.mismatch(r, i);
                }
            }
            if r.chance(20) {
                // a user registers over the wire and logs in meanwhile
                let nm = b.stranger(r);
                let i = b.honest(r);
                {
                    let s = &mut b.p.sess[i];
                    s.user = nm.into();
                    s.register = true;
                    s.reg_p = PSpec { c: r.range(1, 20) as u32, len: *r.pick(&[32u8, 64]) };
                }
                b.refit(r, i);
                let mut l = b.p.sess[i].clone();
                l.register = false;
                l.start_ms += r.below(800);
                if r.chance(50) {
                    l.ssid = None;
                }
                b.p.sess.push(l);
            }
            if r.chance(50) {
                b.crashes(r, 3);
            }
        }
    }
    b.done()
}

fn any_buf(r: &mut Prng) -> u8 {
    if r.chance(12) {
        r.range(7, 9) as u8
    } else {
        r.range(1, 6) as u8
    }
}
