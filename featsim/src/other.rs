//! SPAKE2 and SRP sessions.
use crate::sim::*;
use sha2::Sha256;
use spake2::{Ed25519Group, Identity, Password, Spake2};

fn tamper(m: &mut Vec<u8>, p: &mut Prng, cx: &Ctx) {
    if !p.chance(25) {
        return;
    }
    let (k, i, b) = (p.below(8), p.next() as usize, 1u8 << p.below(8));
    if cx.off & 4 != 0 {
        return;
    }
    cx.fault("tamper");
    match k {
        0 => m.truncate(i % (m.len() + 1)),
        1 => m.push(b),
        2 if !m.is_empty() => m[0] ^= b,
        3 => m.fill(0),
        4 => m.extend(vec![if b > 16 { 0 } else { b }; 1 + i % 16]),
        5 => {
            let n = 1 + i % 8;
            m.splice(..0, vec![if b > 16 { 0 } else { b }; n]);
        }
        6 if m.len() > 1 => {
            let n = m.len();
            m.truncate(n - 1 - i % n.min(8));
        }
        _ if !m.is_empty() => {
            let l = m.len();
            m[i % l] ^= b
        }
        _ => {}
    }
}

pub async fn spake(cx: Ctx, mut p: Prng, key: u64) -> bool {
    let (pw, a, b) = (p.blob(), p.blob(), p.blob());
    let pw2 = if p.chance(20) { p.blob() } else { pw.clone() };
    let sym = p.chance(40);
    loop {
        let att = *cx.attempt.borrow();
        let mut q = Prng::new(&[key, 6, att]);
        let st = |first: bool, pw: &[u8]| {
            let (pw, a, b) = (Password::new(pw), Identity::new(&a), Identity::new(&b));
            let rng = Src::new(mix(&[key, 7, att, first as u64]));
            let r: (Spake2<Ed25519Group>, Vec<u8>) = match (sym, first) {
                (true, _) => Spake2::start_symmetric_with_rng(&pw, &a, rng),
                (_, true) => Spake2::start_a_with_rng(&pw, &a, &b, rng),
                _ => Spake2::start_b_with_rng(&pw, &a, &b, rng),
            };
            cx.put(format!("spake start {first} {} {:?}", hex(&r.1), r.0));
            r
        };
        let (x, mut mx) = st(true, &pw);
        if cx.cross().await.is_err() {
            *cx.attempt.borrow_mut() += 1;
            continue;
        }
        let (y, mut my) = st(false, &pw2);
        tamper(&mut mx, &mut q, &cx);
        let ky = y.finish(&mx);
        cx.put(format!("spake y {ky:?} {}", ky.as_ref().err().map(|e| e.to_string()).unwrap_or_default()));
        if cx.cross().await.is_err() {
            *cx.attempt.borrow_mut() += 1;
            continue;
        }
        tamper(&mut my, &mut q, &cx);
        let kx = x.finish(&my);
        cx.put(format!("spake x {kx:?} {}", kx.as_ref().err().map(|e| e.to_string()).unwrap_or_default()));
        return true;
    }
}

pub async fn srp(cx: Ctx, mut p: Prng, key: u64) -> bool {
    use srp::{client::SrpClient, groups::*, server::SrpServer};
    let g = if p.chance(85) { &*G_1024 } else { &*G_2048 };
    let (c, s) = (SrpClient::<Sha256>::new(g), SrpServer::<Sha256>::new(g));
    let (user, pw, salt) = (p.blob(), p.blob(), p.blob());
    let pw2 = if p.chance(20) { p.blob() } else { pw.clone() };
    let v = c.compute_verifier(&user, &pw, &salt);
    cx.put(format!("srp v {}", hex(&v)));
    let eph = |p: &mut Prng| {
        let n = [1, 16, 32, 64][p.below(4) as usize];
        p.bytes(n)
    };
    loop {
        let att = *cx.attempt.borrow();
        let mut q = Prng::new(&[key, 6, att]);
        let (a, b) = (eph(&mut q), eph(&mut q));
        let mut ap = c.compute_public_ephemeral(&a);
        let mut bp = s.compute_public_ephemeral(&b, &v);
        cx.put(format!("srp A {} B {}", hex(&ap), hex(&bp)));
        if cx.cross().await.is_err() {
            *cx.attempt.borrow_mut() += 1;
            continue;
        }
        tamper(&mut ap, &mut q, &cx);
        if q.chance(5) {
            bp = g.n.to_bytes_be();
        }
        tamper(&mut bp, &mut q, &cx);
        let cv = c.process_reply(&a, &user, &pw2, &salt, &bp);
        let sv = s.process_reply(&b, &v, &ap);
        let (mut m1, mut m2) = (vec![], vec![]);
        match &cv {
            Ok(x) => {
                m1 = x.proof().to_vec();
                cx.put(format!("srp client key {} m1 {}", hex(x.key()), hex(&m1)))
            }
            Err(e) => cx.put(format!("srp client {e:?} {e}")),
        }
        match &sv {
            Ok(x) => {
                m2 = x.proof().to_vec();
                cx.put(format!("srp server key {} m2 {}", hex(x.key()), hex(&m2)))
            }
            Err(e) => cx.put(format!("srp server {e:?} {e}")),
        }
        if cx.cross().await.is_err() {
            *cx.attempt.borrow_mut() += 1;
            continue;
        }
        tamper(&mut m1, &mut q, &cx);
        tamper(&mut m2, &mut q, &cx);
        if let Ok(x) = &sv {
            cx.put(format!("srp server verifies {:?}", x.verify_client(&m1)));
        }
        if let Ok(x) = &cv {
            cx.put(format!("srp client verifies {:?}", x.verify_server(&m2)));
        }
        return true;
    }
}
