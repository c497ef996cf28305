//! The wire format (A09): byte-stream links that tear, cut and damage encoded AuCPace messages,
//! receivers that decode them, and parties in every phase that are fed whatever decodes.
use crate::auc::{bad_encoding, cp, dec, enc};
use crate::engine::Report;
use crate::kit::*;
use crate::rng::*;
use crate::util::*;
use aucpace::client::AuCPaceClientPreAug;
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, PartialAugDatabase, ServerMessage, StrongDatabase};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use password_hash::{ParamsString, SaltString};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use sha2::Sha512;

#[derive(Serialize, Deserialize, Clone)]
pub struct Msg {
    /// 0..7 client kinds, 8..13 server kinds
    kind: u8,
    /// user name, nonce, authenticator or group name
    a: Hx,
    salt: Hx,
    params: String,
    /// selects points and scalars
    p: u64,
    q: u64,
}

#[derive(Serialize, Deserialize, Clone)]
pub enum Mut {
    Prefix(u32),
    Flip(u64),
    Extend(Hx),
    Insert(u32, Hx),
    Delete(u32, u32),
    Zero(u32, u32),
    Dup,
    Variant(u8),
    /// overwrite four bytes at a position
    Set(u32, Hx),
    /// tail of another message of the plan
    Splice(u32, u32, u32),
    /// non-canonical encoding of the n-th group element
    BadPoint(u8, u64),
    /// scalar plus the group order
    BadScalar,
    Raw(Hx),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Plan {
    pub seed: u64,
    /// nonce length selector
    pub k1: u8,
    pub codec: u8,
    pub scrypt: bool,
    pub msgs: Vec<Msg>,
    /// (message, mutation)
    pub muts: Vec<(u32, Mut)>,
    /// stream faults: cut the link after so many bytes, flip a bit
    pub cut: Option<u64>,
    pub flip: Option<u64>,
    pub chunk: u32,
    /// decoded messages are fed to parties
    pub feed: bool,
    pub name: Hx,
    pub pw: Hx,
}

// ------------------------------------------------------------------------------- generation

fn gen_params(r: &mut Prng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 4,
        _ => r.us(4),
    };
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let name = *r.pick(&["ln", "r", "p", "c", "l", "t", "m", "x-y", "keyid", "data", "a0"]);
        if v.iter().any(|s: &String| s.starts_with(&format!("{name}="))) {
            continue;
        }
        let val: String = match r.below(6) {
            0 => "0".into(),
            1 => format!("{}", r.next() as u32),
            2 => "4294967295".into(),
            3 => b64(&r.bytes(1 + i * 7)),
            4 => (0..1 + r.us(40)).map(|_| *r.pick(b"abcXYZ019/+.-") as char).collect(),
            _ => format!("{}", r.below(40)),
        };
        v.push(format!("{name}={val}"));
    }
    if r.chance(5) {
        // the longest parameter string there is
        let mut s = String::from("zz=");
        while s.len() < 66 {
            s.push('q');
        }
        s.push_str(",yy=");
        while s.len() < 127 {
            s.push('w');
        }
        return s;
    }
    while v.join(",").len() > 127 {
        v.pop();
    }
    v.join(",")
}

fn gen_msg(r: &mut Prng, k: usize) -> Msg {
    let kind = r.below(12) as u8;
    let kind = if kind >= 7 { kind + 1 } else { kind };
    let a = match kind {
        0 | 8 => awkward(r, k),
        4 | 12 => awkward(r, 64),
        1 | 2 | 5 | 6 => match r.below(12) {
            0 => vec![],
            1 => r.bytes(127),
            2 => r.bytes(128),
            3 => {
                let n = 255 + r.us(3);
                r.bytes(n)
            }
            4 => r.bytes(1000),
            _ => gen_str(r, 300),
        },
        9 | 10 => match r.below(4) {
            0 => vec![],
            1 => "ristretto255".into(),
            2 => "日本語-🔑".as_bytes().to_vec(),
            _ => {
                let n = r.us(140);
                (0..n).map(|_| *r.pick(b"abcdefghijk 0123456789-_")).collect()
            }
        },
        _ => vec![],
    };
    let n = match r.below(6) {
        0 => 3,
        1 => 48,
        2 => 16,
        3 => 16,
        _ => 3 + r.us(46),
    };
    Msg { kind, a: a.into(), salt: awkward(r, n).into(), params: gen_params(r), p: r.next(), q: r.next() }
}

fn awkward(r: &mut Prng, n: usize) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        3 => {
            let mut v = r.bytes(n);
            if let Some(x) = v.last_mut() {
                *x = 0;
            }
            v
        }
        4 => {
            let mut v = r.bytes(n);
            if let Some(x) = v.first_mut() {
                *x = 0;
            }
            v
        }
        _ => r.bytes(n),
    }
}

pub fn gen(prop: &str, seed: u64, thorough: bool) -> Value {
    let _ = prop;
    let mut r = Prng::keyed(&[seed, tag("codec")]);
    let k1 = *r.pick(&[0u8, 1, 1, 1, 2, 2, 3]);
    let k = KS[k1 as usize];
    let nm = 1 + r.us(if thorough { 14 } else { 9 });
    let codec = if r.chance(25) { 2 } else { r.below(2) as u8 };
    let mut msgs: Vec<Msg> = (0..nm).map(|_| gen_msg(&mut r, k)).collect();
    if codec == 2 {
        // text formats cannot lend the byte strings of the other kinds
        msgs.retain(|m| textual(m.kind));
        if msgs.is_empty() {
            let mut m = gen_msg(&mut r, k);
            m.kind = *r.pick(&[3u8, 9, 10, 11]);
            m.a = vec![].into();
            msgs.push(m);
        }
    }
    let nm = msgs.len();
    let mut muts = vec![];
    for _ in 0..r.us(if thorough { 60 } else { 36 }) {
        let i = r.us(nm) as u32;
        let m = match r.below(18) {
            0..=2 => Mut::Prefix(if r.chance(30) { r.below(12) as u32 } else { 1 + r.below(500) as u32 }),
            3..=6 => Mut::Flip(if r.chance(50) { r.below(160) } else { r.next() }),
            7 => {
                let n = 1 + r.us(40);
                Mut::Extend(r.bytes(n).into())
            }
            8 => {
                let n = 1 + r.us(4);
                Mut::Insert(r.below(200) as u32, r.bytes(n).into())
            }
            9 => Mut::Delete(r.below(200) as u32, 1 + r.below(9) as u32),
            10 => Mut::Zero(r.below(160) as u32, 1 + r.below(40) as u32),
            11 => Mut::Dup,
            12 => Mut::Variant(r.below(9) as u8),
            13 => {
                let b = match r.below(4) {
                    0 => vec![0xff; 8],
                    1 => vec![0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01],
                    2 => vec![0xff, 0xff, 0xff, 0x7f, 0, 0, 0, 0],
                    _ => r.bytes(4),
                };
                Mut::Set(if r.chance(60) { r.below(16) as u32 } else { r.below(200) as u32 }, b.into())
            }
            14 => Mut::Splice(r.below(100) as u32, r.us(nm) as u32, r.below(100) as u32),
            15 => Mut::BadPoint(r.below(2) as u8, r.next()),
            16 => Mut::BadScalar,
            _ => {
                let n = r.us(160);
                let mut b = awkward(&mut r, n);
                if !b.is_empty() && r.chance(70) {
                    b[0] = r.below(8) as u8;
                    if b.len() > 4 && r.chance(60) {
                        b[1..4].fill(0);
                    }
                }
                Mut::Raw(b.into())
            }
        };
        muts.push((i, m));
    }
    let plan = Plan {
        seed,
        k1,
        codec,
        scrypt: r.chance(15),
        msgs,
        muts,
        cut: if r.chance(40) { Some(r.below(900)) } else { None },
        flip: if r.chance(30) { Some(r.below(6000)) } else { None },
        chunk: *r.pick(&[1u32, 2, 3, 7, 16, 40, 200, 5000]),
        feed: r.chance(60),
        name: gen_str(&mut r, 60).into(),
        pw: gen_str(&mut r, 60).into(),
    };
    serde_json::to_value(plan).unwrap()
}

/// Kinds without a borrowed byte string.
fn textual(kind: u8) -> bool {
    matches!(kind, 0 | 3 | 4 | 8..=12)
}

const KS: [usize; 4] = [1, 16, 32, 64];

// ------------------------------------------------------------------------------- messages

fn point(sel: u64) -> RistrettoPoint {
    match sel % 11 {
        0 => RistrettoPoint::identity(),
        1 => crate::reference::base(&Scalar::ONE),
        2 => -crate::reference::base(&Scalar::ONE),
        _ => {
            let mut p = Prng::keyed(&[sel, 0x901]);
            let mut b = [0u8; 64];
            b.copy_from_slice(&p.bytes(64));
            RistrettoPoint::from_uniform_bytes(&b)
        }
    }
}
fn scalar(sel: u64) -> Scalar {
    match sel % 9 {
        0 => Scalar::ZERO,
        1 => Scalar::ONE,
        2 => -Scalar::ONE,
        3 => Scalar::from(sel % 70000),
        _ => {
            let mut p = Prng::keyed(&[sel, 0x902]);
            let mut b = [0u8; 64];
            b.copy_from_slice(&p.bytes(64));
            Scalar::from_bytes_mod_order_wide(&b)
        }
    }
}

/// What a message says, field by field.
type Proj = (u8, Vec<Vec<u8>>);

fn proj_c<const K1: usize>(m: &ClientMessage<'_, K1>) -> Proj {
    match m {
        ClientMessage::Nonce(n) => (0, vec![n.to_vec()]),
        ClientMessage::Username(u) => (1, vec![u.to_vec()]),
        ClientMessage::StrongUsername { username, blinded } => (2, vec![username.to_vec(), cp(blinded).to_vec()]),
        ClientMessage::PublicKey(p) => (3, vec![cp(p).to_vec()]),
        ClientMessage::Authenticator(a) => (4, vec![a.to_vec()]),
        ClientMessage::Registration { username, salt, params, verifier } => (5, vec![username.to_vec(), salt.as_str().into(), params.as_str().into(), cp(verifier).to_vec()]),
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => (6, vec![username.to_vec(), secret_exponent.to_bytes().to_vec(), params.as_str().into(), cp(verifier).to_vec()]),
    }
}
fn proj_s<const K1: usize>(m: &ServerMessage<'_, K1>) -> Proj {
    match m {
        ServerMessage::Nonce(n) => (8, vec![n.to_vec()]),
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => (9, vec![group.as_bytes().to_vec(), cp(x_pub).to_vec(), salt.as_str().into(), pbkdf_params.as_str().into()]),
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => (10, vec![group.as_bytes().to_vec(), cp(x_pub).to_vec(), cp(blinded_salt).to_vec(), pbkdf_params.as_str().into()]),
        ServerMessage::PublicKey(p) => (11, vec![cp(p).to_vec()]),
        ServerMessage::Authenticator(a) => (12, vec![a.to_vec()]),
    }
}

fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut o = [0u8; N];
    let n = b.len().min(N);
    o[..n].copy_from_slice(&b[..n]);
    o
}

fn fields(m: &Msg) -> Result<(SaltString, ParamsString), String> {
    // one salt in eight is no Base64
    if m.salt.0.first().is_some_and(|b| b % 8 == 5) {
        let n = [4, 5, 6, 7, 63, 64].get(m.p as usize % 12).copied().unwrap_or(m.salt.0.len() + 3);
        let text = crate::auc::salt_text(&mut Prng::keyed(&[m.p, m.q]), n);
        return Ok((SaltString::from_b64(&text).map_err(|e| format!("invalid plan: salt {e}"))?, m.params.parse().map_err(|e| format!("invalid plan: params {e}"))?));
    }
    let mut raw = m.salt.0.clone();
    raw.resize(raw.len().clamp(3, 48), 7);
    let salt = SaltString::encode_b64(&raw).map_err(|e| format!("invalid plan: salt {e}"))?;
    let params = m.params.parse().map_err(|e| format!("invalid plan: params {e}"))?;
    Ok((salt, params))
}

/// Build the message and encode it. Returns (is client message, bytes, what it says, point positions).
fn build<const K1: usize>(codec: u8, m: &Msg) -> Result<(bool, Vec<u8>, Proj), String> {
    let (salt, params) = fields(m)?;
    let a = &m.a.0[..];
    let group = std::str::from_utf8(a).unwrap_or("group");
    // a Proj made from the plan, not from the message
    let (p, q, s) = (point(m.p), point(m.q), scalar(m.q));
    let (pb, qb) = (cp(&p).to_vec(), cp(&q).to_vec());
    let ps = params.as_str().as_bytes().to_vec();
    let ss = salt.as_str().as_bytes().to_vec();
    if m.kind < 8 {
        let (msg, pr): (ClientMessage<'_, K1>, Proj) = match m.kind {
            0 => (ClientMessage::Nonce(arr(a)), (0, vec![arr::<K1>(a).to_vec()])),
            1 => (ClientMessage::Username(a), (1, vec![a.to_vec()])),
            2 => (ClientMessage::StrongUsername { username: a, blinded: p }, (2, vec![a.to_vec(), pb])),
            3 => (ClientMessage::PublicKey(p), (3, vec![pb])),
            4 => (ClientMessage::Authenticator(arr(a)), (4, vec![arr::<64>(a).to_vec()])),
            5 => (ClientMessage::Registration { username: a, salt, params, verifier: p }, (5, vec![a.to_vec(), ss, ps, pb])),
            6 => (ClientMessage::StrongRegistration { username: a, secret_exponent: s, params, verifier: p }, (6, vec![a.to_vec(), s.to_bytes().to_vec(), ps, pb])),
            _ => return Err("invalid plan: kind".into()),
        };
        Ok((true, enc(codec, &msg), pr))
    } else {
        let (msg, pr): (ServerMessage<'_, K1>, Proj) = match m.kind {
            8 => (ServerMessage::Nonce(arr(a)), (8, vec![arr::<K1>(a).to_vec()])),
            9 => (ServerMessage::AugmentationInfo { group, x_pub: p, salt, pbkdf_params: params }, (9, vec![group.into(), pb, ss, ps])),
            10 => (ServerMessage::StrongAugmentationInfo { group, x_pub: p, blinded_salt: q, pbkdf_params: params }, (10, vec![group.into(), pb, qb, ps])),
            11 => (ServerMessage::PublicKey(p), (11, vec![pb])),
            12 => (ServerMessage::Authenticator(arr(a)), (12, vec![arr::<64>(a).to_vec()])),
            _ => return Err("invalid plan: kind".into()),
        };
        Ok((false, enc(codec, &msg), pr))
    }
}

/// Decode; on success also re-encode. Returns (says, re-encoded).
fn decode<const K1: usize>(client: bool, codec: u8, b: &[u8]) -> Result<(Proj, Vec<u8>), String> {
    if client {
        let m: ClientMessage<'_, K1> = dec(codec, b)?;
        Ok((proj_c(&m), enc(codec, &m)))
    } else {
        let m: ServerMessage<'_, K1> = dec(codec, b)?;
        Ok((proj_s(&m), enc(codec, &m)))
    }
}

/// Decode from a reader that hands out one to a few bytes at a time.
fn decode_owned<const K1: usize>(client: bool, codec: u8, b: &[u8]) -> Result<Proj, String> {
    struct Slow<'a>(&'a [u8], usize);
    impl std::io::Read for Slow<'_> {
        fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
            self.1 += 1;
            if self.1 % 5 == 0 {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            let n = (1 + self.1 % 3).min(out.len()).min(self.0.len());
            out[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    fn get<T: Deserialize<'static>>(codec: u8, b: &[u8]) -> Result<T, String> {
        use bincode::Options;
        if codec == 2 {
            T::deserialize(&mut serde_json::Deserializer::from_reader(Slow(b, 0))).map_err(|e| e.to_string())
        } else {
            T::deserialize(&mut bincode::Deserializer::with_reader(Slow(b, 0), bincode::DefaultOptions::new().with_fixint_encoding())).map_err(|e| e.to_string())
        }
    }
    Ok(if client { proj_c::<K1>(&get(codec, b)?) } else { proj_s::<K1>(&get(codec, b)?) })
}

/// The same JSON document with other white space, member order and string escapes.
fn restyle(b: &[u8], style: u64, seed: u64) -> Vec<u8> {
    fn w(v: &Value, style: u64, esc: bool, r: &mut Prng, o: &mut String) {
        let sp = |r: &mut Prng, o: &mut String| {
            if style != 0 && r.chance(40) {
                o.push(*r.pick(&[' ', '\n', '\t', '\r']));
            }
        };
        sp(r, o);
        match v {
            Value::Object(m) => {
                o.push('{');
                let mut it: Vec<_> = m.iter().collect();
                if style == 1 {
                    it.reverse();
                } else if style == 2 && it.len() > 1 {
                    let n = r.us(it.len());
                    it.rotate_left(n);
                }
                for (i, (k, x)) in it.into_iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    sp(r, o);
                    o.push_str(&serde_json::to_string(k).unwrap());
                    sp(r, o);
                    o.push(':');
                    w(x, style, matches!(k.as_str(), "salt" | "params" | "pbkdf_params"), r, o);
                }
                o.push('}');
            }
            Value::Array(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    w(x, style, esc, r, o);
                }
                sp(r, o);
                o.push(']');
            }
            Value::String(t) if esc => {
                o.push('"');
                for c in t.chars() {
                    if c == '/' && style < 2 {
                        o.push_str("\\/");
                    } else if c.is_ascii() && style > 0 && r.chance(if style == 2 { 100 } else { 20 }) {
                        o.push_str(&format!("\\u{:04x}", c as u32));
                    } else {
                        o.push(c);
                    }
                }
                o.push('"');
            }
            x => o.push_str(&x.to_string()),
        }
        sp(r, o);
    }
    let mut o = String::new();
    if let Ok(v) = serde_json::from_slice::<Value>(b) {
        w(&v, style, false, &mut Prng::keyed(&[seed, style, tag("restyle")]), &mut o);
    }
    o.into_bytes()
}

// ------------------------------------------------------------------------------- running

pub fn run(v: &Value, trace: bool) -> Result<Report, String> {
    let plan: Plan = serde_json::from_value(v.clone()).map_err(|e| format!("invalid plan: {e}"))?;
    match (plan.k1, plan.scrypt) {
        (0, false) => go::<SimKit, 1>(&plan, trace),
        (1, false) => go::<SimKit, 16>(&plan, trace),
        (2, false) => go::<SimKit, 32>(&plan, trace),
        (3, false) => go::<SimKit, 64>(&plan, trace),
        (0, true) => go::<ScryptKit, 1>(&plan, trace),
        (1, true) => go::<ScryptKit, 16>(&plan, trace),
        (2, true) => go::<ScryptKit, 32>(&plan, trace),
        (3, true) => go::<ScryptKit, 64>(&plan, trace),
        _ => Err("invalid plan: k1".into()),
    }
}

fn go<K: Kit, const K1: usize>(plan: &Plan, trace: bool) -> Result<Report, String> {
    let mut rep = Report { trace: if trace { Some(vec![]) } else { None }, ..Default::default() };
    if plan.msgs.len() > 60 || plan.muts.len() > 400 {
        return Err("invalid plan: size".into());
    }
    let mut built = vec![];
    for m in &plan.msgs {
        if plan.codec == 2 && (!textual(m.kind) || (matches!(m.kind, 9 | 10) && std::str::from_utf8(&m.a.0).is_ok_and(|g| g.chars().any(|c| c.is_control() || matches!(c, '"' | '\\'))))) {
            return Err("invalid plan: message kind has no text form".into());
        }
        built.push(build::<K1>(plan.codec, m)?);
    }
    let mut fed: Vec<(bool, Vec<u8>)> = vec![];

    // intact messages
    for (i, (cl, b, want)) in built.iter().enumerate() {
        rep.events += 1;
        rep.nontrivial = true;
        rep.count("message_encoded");
        rep.dig_bytes(b);
        rep.sched = mix(&[rep.sched, want.0 as u64, b.len() as u64]);
        match decode::<K1>(*cl, plan.codec, b) {
            Err(e) => rep.viol(&["A09"], format!("roundtrip-rejected:{}", want.0), format!("message {i} (kind {}) does not decode from its own encoding: {e}", want.0)),
            Ok((got, again)) => {
                if got != *want {
                    rep.viol(&["A09"], format!("roundtrip-differs:{}", want.0), format!("message {i} (kind {}) decodes to something else: {}", want.0, diff(want, &got)));
                }
                if again != *b {
                    rep.viol(&["A09"], "reencode", format!("message {i} (kind {}) re-encodes differently", want.0));
                }
            }
        }
        // the same content, as another encoder writes it
        if plan.codec == 2 {
            for style in 0..3 {
                let t = restyle(b, style, mix(&[plan.seed, i as u64]));
                rep.count("text_restyled");
                match decode::<K1>(*cl, 2, &t) {
                    Err(e) => rep.viol(&["A09"], format!("text-rejected:{}", want.0), format!("message {i} (kind {}) is rejected in an equivalent text form {}: {e}", want.0, String::from_utf8_lossy(&t))),
                    Ok((got, _)) if got != *want => rep.viol(&["A09"], format!("text-differs:{}", want.0), format!("message {i} (kind {}) decodes to something else from an equivalent text form: {}", want.0, diff(want, &got))),
                    Ok(_) => {}
                }
            }
        }
        // and read from a source that lends nothing
        if matches!(want.0, 0 | 3 | 4 | 8 | 11 | 12) && plan.codec != 1 {
            rep.count("read_from_source");
            match decode_owned::<K1>(*cl, plan.codec, b) {
                Err(e) => rep.viol(&["A09"], format!("source-rejected:{}", want.0), format!("message {i} (kind {}) read from a byte source is rejected: {e}", want.0)),
                Ok(got) if got != *want => rep.viol(&["A09"], format!("source-differs:{}", want.0), format!("message {i} (kind {}) read from a byte source differs: {}", want.0, diff(want, &got))),
                Ok(_) => {}
            }
        }
        fed.push((*cl, b.clone()));
    }

    // torn streams, one per direction
    for cl in [true, false] {
        let msgs: Vec<&(bool, Vec<u8>, Proj)> = built.iter().filter(|b| b.0 == cl).collect();
        stream::<K1>(plan, cl, &msgs, &mut rep);
    }

    // damaged messages
    for (mi, (i, mu)) in plan.muts.iter().enumerate() {
        let Some((cl, b, _)) = built.get(*i as usize) else { continue };
        let Some((bytes, must_fail)) = mutate(plan, mu, b, &plan.msgs[*i as usize], &built) else { continue };
        rep.events += 1;
        rep.count("payload_tampered");
        rep.count(mut_name(mu));
        rep.dig_bytes(&bytes);
        for as_client in [*cl, !*cl] {
            match decode::<K1>(as_client, plan.codec, &bytes) {
                Err(_) => rep.count("damaged_rejected"),
                Ok((got, again)) => {
                    rep.count("damaged_decoded");
                    if let (true, Some(w)) = (as_client == *cl, must_fail) {
                        rep.viol(&["A09"], format!("accepted:{w}"), format!("mutation {mi} ({w}) of a kind {} message was decoded instead of rejected", built[*i as usize].2 .0));
                    }
                    consistent::<K1>(plan, as_client, &bytes, &got, &again, &mut rep, mi);
                    fed.push((as_client, bytes.clone()));
                }
            }
        }
    }

    if plan.feed {
        feed::<K, K1>(plan, &fed, &mut rep);
    }
    rep.sim_us = rep.sim_us.max(rep.events * 1000);
    Ok(rep)
}

fn diff(a: &Proj, b: &Proj) -> String {
    if a.0 != b.0 {
        return format!("kind {} became {}", a.0, b.0);
    }
    for (i, (x, y)) in a.1.iter().zip(&b.1).enumerate() {
        if x != y {
            return format!("field {i}: x:{} became x:{}", hex(x), hex(y));
        }
    }
    "field count".into()
}

/// A message that decoded must be well-formed and stable.
fn consistent<const K1: usize>(plan: &Plan, cl: bool, bytes: &[u8], got: &Proj, again: &[u8], rep: &mut Report, mi: usize) {
    match decode::<K1>(cl, plan.codec, again) {
        Ok((g2, a2)) if g2 == *got && a2 == again => {}
        _ => rep.viol(&["A09"], "unstable", format!("mutation {mi}: the decoded message (kind {}) does not survive another round", got.0)),
    }
    if plan.codec == 0 && !bytes.starts_with(again) {
        rep.viol(&["A09"], "reencode-damaged", format!("mutation {mi}: a decoded message (kind {}) re-encodes to other bytes than were received", got.0));
    }
    // salt and parameter strings obey their grammar
    let (s, p) = match got.0 {
        5 => (Some(1), Some(2)),
        6 => (None, Some(2)),
        9 => (Some(2), Some(3)),
        10 => (None, Some(3)),
        _ => (None, None),
    };
    let txt = |i: usize| String::from_utf8(got.1[i].clone()).unwrap_or_else(|_| "\u{0}".into());
    if let Some(i) = s {
        let t = txt(i);
        if t.len() < 4 || t.len() > 64 || !t.bytes().all(|c| c.is_ascii_alphanumeric() || b"+/.-".contains(&c)) {
            rep.viol(&["A09"], "ill-formed-salt", format!("mutation {mi}: decoded salt {t:?} is not a salt string"));
        }
    }
    if let Some(i) = p {
        let t = txt(i);
        let ok = t.len() <= 127 && (t.is_empty() || t.split(',').all(|kv| kv.split_once('=').is_some_and(|(k, v)| !k.is_empty() && k.len() <= 32 && v.len() <= 64)));
        if !ok {
            rep.viol(&["A09"], "ill-formed-params", format!("mutation {mi}: decoded parameters {t:?} are not a parameter string"));
        }
    }
}

fn mut_name(m: &Mut) -> &'static str {
    match m {
        Mut::Prefix(_) => "fault_truncated",
        Mut::Flip(_) => "fault_bit_flip",
        Mut::Extend(_) => "fault_extended",
        Mut::Insert(..) => "fault_inserted",
        Mut::Delete(..) => "fault_lost_bytes",
        Mut::Zero(..) => "fault_zeroed_range",
        Mut::Dup => "fault_duplicated",
        Mut::Variant(_) => "fault_other_kind",
        Mut::Set(..) => "fault_length_field",
        Mut::Splice(..) => "fault_spliced",
        Mut::BadPoint(..) => "fault_noncanonical_point",
        Mut::BadScalar => "fault_noncanonical_scalar",
        Mut::Raw(_) => "fault_garbage",
    }
}

/// Returns the damaged bytes and, if they must be rejected, why.
fn mutate(plan: &Plan, mu: &Mut, b: &[u8], m: &Msg, built: &[(bool, Vec<u8>, Proj)]) -> Option<(Vec<u8>, Option<&'static str>)> {
    let mut o = b.to_vec();
    let at = |n: u32| n as usize % (b.len() + 1);
    let mut must = None;
    match mu {
        Mut::Prefix(n) => {
            let n = *n as usize % b.len().max(1);
            o.truncate(n);
            must = Some("truncated");
        }
        Mut::Flip(n) => {
            let bit = *n as usize % (8 * b.len().max(1));
            *o.get_mut(bit / 8)? ^= 1 << (bit % 8);
        }
        Mut::Extend(x) => o.extend_from_slice(&x.0),
        Mut::Insert(p, x) => {
            let p = at(*p);
            o.splice(p..p, x.0.iter().copied());
        }
        Mut::Delete(p, n) => {
            let p = at(*p);
            let e = (p + *n as usize).min(o.len());
            o.drain(p..e);
        }
        Mut::Zero(p, n) => {
            let p = at(*p);
            let e = (p + *n as usize).min(o.len());
            o[p..e].fill(0);
        }
        Mut::Dup => o.extend_from_slice(b),
        Mut::Variant(v) => *o.first_mut()? = *v,
        Mut::Set(p, x) => {
            let p = at(*p);
            for (i, c) in x.0.iter().enumerate() {
                if let Some(d) = o.get_mut(p + i) {
                    *d = *c;
                }
            }
        }
        Mut::Splice(p, j, q) => {
            let other = &built.get(*j as usize)?.1;
            o.truncate(at(*p));
            o.extend_from_slice(&other[(*q as usize).min(other.len())..]);
        }
        Mut::BadPoint(n, arg) => {
            // which field of which kind is a point
            let pts: &[RistrettoPoint] = &match m.kind {
                2 | 3 | 5 | 6 | 9 | 11 => vec![point(m.p)],
                10 => vec![point(m.p), point(m.q)],
                _ => return None,
            };
            let enc = cp(&pts[*n as usize % pts.len()]);
            let pos = b.windows(32).rposition(|w| w == enc)?;
            let bad = bad_encoding(&enc, *arg);
            if curve25519_dalek::ristretto::CompressedRistretto(bad).decompress().is_some() {
                return None;
            }
            o[pos..pos + 32].copy_from_slice(&bad);
            // the identity is all zero: the window may not be the field itself
            if enc != [0u8; 32] {
                must = Some("non-canonical point");
            }
        }
        Mut::BadScalar => {
            if m.kind != 6 {
                return None;
            }
            let s = scalar(m.q).to_bytes();
            if s.iter().filter(|x| **x == 0).count() > 20 {
                return None;
            }
            let pos = b.windows(32).position(|w| w == s)?;
            // s + l
            let l = (-Scalar::ONE).to_bytes();
            let mut carry = 1u16;
            for i in 0..32 {
                let d = s[i] as u16 + l[i] as u16 + carry;
                o[pos + i] = d as u8;
                carry = d >> 8;
            }
            must = Some("non-canonical scalar");
        }
        Mut::Raw(x) => o = x.0.clone(),
    }
    let _ = plan;
    Some((o, must))
}

/// One direction of a link: the sender writes all messages back to back; the link delivers the
/// bytes in pieces, may die after any byte, may damage one bit; the receiver decodes as it reads.
fn stream<const K1: usize>(plan: &Plan, cl: bool, msgs: &[&(bool, Vec<u8>, Proj)], rep: &mut Report) {
    if msgs.is_empty() {
        return;
    }
    let mut all = vec![];
    let mut ends = vec![];
    for m in msgs {
        all.extend_from_slice(&m.1);
        ends.push(all.len());
    }
    let cut = plan.cut.map(|c| c as usize % (all.len() + 1)).unwrap_or(all.len());
    if plan.cut.is_some() {
        rep.count("fault_link_cut");
    }
    let dirty = plan.flip.map(|f| f as usize % (8 * all.len()));
    let mut wire = all.clone();
    if let Some(bit) = dirty {
        wire[bit / 8] ^= 1 << (bit % 8);
        rep.count("fault_stream_bit_flip");
    }
    wire.truncate(cut);
    let mut r = Prng::keyed(&[plan.seed, tag("chunks"), cl as u64]);
    let (mut got, mut used, mut have) = (0usize, 0usize, 0usize);
    while have < wire.len() {
        let n = 1 + r.us(plan.chunk.max(1) as usize);
        have = (have + n).min(wire.len());
        rep.events += 1;
        rep.sim_us += 100 + r.below(5000);
        rep.count("short_read");
        rep.sched = mix(&[rep.sched, have as u64]);
        loop {
            let buf = &wire[used..have];
            let done = ends.iter().filter(|e| **e <= have).count();
            let clean = dirty.is_none_or(|d| got < msgs.len() && d / 8 >= ends[got]);
            match decode::<K1>(cl, plan.codec, buf) {
                Err(e) => {
                    if clean && done > got {
                        rep.viol(&["A09"], "stream-rejected", format!("message {got} of the stream arrived completely but is rejected: {e}"));
                        return;
                    }
                    break;
                }
                Ok((says, again)) => {
                    if !clean {
                        // beyond the damage anything well-formed may appear
                        rep.count("decoded_after_damage");
                        return;
                    }
                    if got >= done {
                        rep.viol(&["A09"], "stream-early", format!("message {got} of the stream decoded from {} of its {} bytes", buf.len(), msgs.get(got).map_or(0, |m| m.1.len())));
                        return;
                    }
                    if says != msgs[got].2 {
                        rep.viol(&["A09"], "stream-differs", format!("message {got} of the stream changed: {}", diff(&msgs[got].2, &says)));
                        return;
                    }
                    used += again.len();
                    got += 1;
                    rep.count("stream_message_received");
                    if got == msgs.len() {
                        break;
                    }
                }
            }
        }
        if got == msgs.len() {
            break;
        }
    }
}

// ------------------------------------------------------------------------------- feeding

struct Db {
    plain: Option<(RistrettoPoint, SaltString, ParamsString)>,
    strong: Option<(RistrettoPoint, Scalar, ParamsString)>,
    pair: Option<(Scalar, RistrettoPoint)>,
}
impl Database for Db {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, _: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> {
        self.plain.clone()
    }
    fn store_verifier(&mut self, _: &[u8], s: SaltString, _: Option<&[u8]>, v: RistrettoPoint, p: ParamsString) {
        self.plain = Some((v, s, p));
    }
}
impl StrongDatabase for Db {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, _: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> {
        self.strong.clone()
    }
    fn store_verifier_strong(&mut self, _: &[u8], _: Option<&[u8]>, v: RistrettoPoint, q: Scalar, p: ParamsString) {
        self.strong = Some((v, q, p));
    }
}
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, _: &[u8]) -> Option<(Scalar, RistrettoPoint)> {
        self.pair
    }
    fn store_long_term_keypair(&mut self, _: &[u8], k: Scalar, p: RistrettoPoint) -> aucpace::Result<()> {
        self.pair = Some((k, p));
        Ok(())
    }
}

/// Feed every decoded message to a party that is waiting for that kind of message.
fn feed<K: Kit, const K1: usize>(plan: &Plan, fed: &[(bool, Vec<u8>)], rep: &mut Report) {
    let rng = LibRng::keyed(&[plan.seed, tag("feed")]);
    let mut server: AuCPaceServer<Sha512, LibRng, K1> = AuCPaceServer::new(rng.clone());
    let mut client: AuCPaceClient<Sha512, K::H, LibRng, K1> = AuCPaceClient::new(rng.clone());
    let mut db = Db { plain: None, strong: None, pair: None };
    if plan.seed % 3 == 0 {
        db.pair = Some(server.generate_long_term_keypair());
    }
    let mut r = Prng::keyed(&[plan.seed, tag("feedx")]);
    let name = &plan.name.0[..];
    let pw = &plan.pw.0[..];
    let ci = b"channel".as_slice();
    for (cl, b) in fed {
        rep.events += 1;
        rep.count("message_fed");
        let before = rng.pos();
        if *cl {
            let Ok(m) = dec::<ClientMessage<'_, K1>>(plan.codec, b) else { continue };
            match m {
                ClientMessage::Nonce(n) => {
                    let _ = server.begin().0.agree_ssid(n);
                }
                ClientMessage::Username(u) => {
                    let a = server.begin().0.agree_ssid([3; K1]);
                    let out = if r.chance(50) { a.generate_client_info(u, &db, rng.clone()) } else { a.generate_client_info_partial_aug(u, &db, rng.clone()) };
                    let (next, info) = out;
                    reply::<K1>(plan, &info, rep);
                    let _ = next.generate_public_key(ci);
                }
                ClientMessage::StrongUsername { username, blinded } => {
                    let a = server.begin().0.agree_ssid([4; K1]);
                    let out = if r.chance(50) { a.generate_client_info_strong(username, blinded, &db, rng.clone()) } else { a.generate_client_info_partial_strong(username, blinded, &db, rng.clone()) };
                    if let Ok((next, info)) = out {
                        reply::<K1>(plan, &info, rep);
                        let _ = next.generate_public_key(ci);
                    }
                }
                ClientMessage::PublicKey(p) => {
                    let (n, _) = server.begin().0.agree_ssid([5; K1]).generate_client_info(name, &db, rng.clone());
                    let (n, _) = n.generate_public_key(ci);
                    if r.chance(50) {
                        let _ = n.receive_client_pubkey(p);
                    } else {
                        let _ = n.implicit_auth(p);
                    }
                }
                ClientMessage::Authenticator(t) => {
                    let (n, _) = server.begin().0.agree_ssid([6; K1]).generate_client_info(name, &db, rng.clone());
                    let (n, _) = n.generate_public_key(ci);
                    let Ok(e) = n.receive_client_pubkey(point(3)) else { continue };
                    if e.receive_client_authenticator(t).is_ok() {
                        rep.viol(&["A02", "A09"], "garbage-accepted", "an arbitrary authenticator was accepted");
                    }
                }
                // stored as received
                ClientMessage::Registration { username, salt, params, verifier } => db.store_verifier(username, salt, None, verifier, params),
                ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => db.store_verifier_strong(username, None, verifier, secret_exponent, params),
            }
        } else {
            let Ok(m) = dec::<ServerMessage<'_, K1>>(plan.codec, b) else { continue };
            let pre = |c: &mut AuCPaceClient<Sha512, K::H, LibRng, K1>| -> AuCPaceClientPreAug<Sha512, K::H, K1> { c.begin().0.agree_ssid([7; K1]) };
            match m {
                ServerMessage::Nonce(n) => {
                    let _ = client.begin().0.agree_ssid(n);
                }
                ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } => {
                    let (a, _) = pre(&mut client).start_augmentation(name, pw);
                    let pp = K::parse(&pbkdf_params);
                    let res = if r.chance(50) { a.generate_cpace_alloc(x_pub, &salt, pp, K::hasher(&None)) } else { a.generate_cpace::<_, 100>(x_pub, &salt, pp, K::hasher(&None)) };
                    if let Ok(n) = res {
                        let _ = n.generate_public_key(ci, &mut rng.clone());
                    }
                }
                ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, pbkdf_params, .. } => {
                    let (a, _) = pre(&mut client).start_augmentation_strong(name, pw, &mut rng.clone());
                    let pp = K::parse(&pbkdf_params);
                    let res = if r.chance(50) { a.generate_cpace_alloc(x_pub, blinded_salt, pp, K::hasher(&None)) } else { a.generate_cpace::<100>(x_pub, blinded_salt, pp, K::hasher(&None)) };
                    if let Ok(n) = res {
                        let _ = n.generate_public_key(ci, &mut rng.clone());
                    }
                }
                ServerMessage::PublicKey(_) | ServerMessage::Authenticator(_) => {
                    let (a, _) = pre(&mut client).start_augmentation(name, pw);
                    let salt = SaltString::encode_b64(&[9; 16]).unwrap();
                    let Ok(n) = a.generate_cpace_alloc(point(5), &salt, K::params(&PSpec { c: 1, len: 32 }, &None), K::hasher(&None)) else { continue };
                    let (n, _) = n.generate_public_key(ci, &mut rng.clone());
                    match m {
                        ServerMessage::PublicKey(p) => {
                            if r.chance(50) {
                                let _ = n.receive_server_pubkey(p);
                            } else {
                                let _ = n.implicit_auth(p);
                            }
                        }
                        ServerMessage::Authenticator(t) => {
                            if let Ok((e, _)) = n.receive_server_pubkey(point(4)) {
                                if e.receive_server_authenticator(t).is_ok() {
                                    rep.viol(&["A02", "A09"], "garbage-accepted", "an arbitrary authenticator was accepted");
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        let _ = before;
        rep.dig(&[rng.pos()]);
    }
}

/// What a server answers must survive the wire as well.
fn reply<const K1: usize>(plan: &Plan, m: &ServerMessage<'_, K1>, rep: &mut Report) {
    let b = enc(plan.codec, m);
    match decode::<K1>(false, plan.codec, &b) {
        Ok((p, _)) if p == proj_s(m) => {}
        Ok((p, _)) => rep.viol(&["A09"], "reply-differs", format!("a server's reply decodes to something else: {}", diff(&proj_s(m), &p))),
        Err(e) => rep.viol(&["A09"], "reply-rejected", format!("a server's reply does not decode: {e}")),
    }
    rep.dig_bytes(&b);
}
